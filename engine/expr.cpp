#include "expr.h"
#include <cstdarg>

std::vector<SymInfo> g_syms;
std::vector<E> g_exprs;

void fatal(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "symx: fatal: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
    _exit(2);
}

struct KeyHash { size_t operator()(E e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 32) ^ e->aux;
    h ^= (u64)e->val * 0xff51afd7ed558ccdull ^ (u64)(e->val >> 64);
    for (u32 i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0x100000001b3ull ^ (h >> 29);
    return h ^ (h >> 31);
} };
struct KeyEq { bool operator()(E a, E b) const {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->val != b->val || a->nk != b->nk) return false;
    for (u32 i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
    return true;
} };
static std::unordered_set<E, KeyHash, KeyEq> g_table(1 << 16);

static const SymSet g_emptySyms;
struct SSHash { size_t operator()(const SymSet *s) const {
    u64 h = s->size(); for (u32 x : *s) h = (h ^ x) * 0x100000001b3ull ^ (h >> 31); return h; } };
struct SSEq { bool operator()(const SymSet *a, const SymSet *b) const { return *a == *b; } };
static std::unordered_set<const SymSet *, SSHash, SSEq> g_ss;
static const SymSet *internSS(SymSet &&s)
{
    auto it = g_ss.find(&s);
    if (it != g_ss.end()) return *it;
    const SymSet *p = new SymSet(std::move(s));
    g_ss.insert(p);
    return p;
}
static const SymSet *unionSS(const SymSet *a, const SymSet *b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a->size() >= b->size() && std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (b->size() >= a->size() && std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    SymSet s; s.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(s));
    return internSS(std::move(s));
}

static inline u128 sgn(unsigned w) { return (u128)1 << (w - 1); }

static void knownBits(Expr *x)
{
    u128 m = mask(x->w);
    u128 z = 0, o = 0;
    auto K = [&](int i) { return x->k[i]; };
    switch (x->op) {
    case CONST: z = ~x->val & m; o = x->val; break;
    case CONCAT: { unsigned lw = K(1)->w; z = (K(0)->k0 << lw) | K(1)->k0; o = (K(0)->k1 << lw) | K(1)->k1; break; }
    case EXTRACT: z = (K(0)->k0 >> x->aux) & m; o = (K(0)->k1 >> x->aux) & m; break;
    case ZEXT: z = K(0)->k0 | (m & ~mask(K(0)->w)); o = K(0)->k1; break;
    case SEXT: z = K(0)->k0; o = K(0)->k1;
        if (z & sgn(K(0)->w)) z |= m & ~mask(K(0)->w);
        if (o & sgn(K(0)->w)) o |= m & ~mask(K(0)->w);
        break;
    case AND: z = K(0)->k0 | K(1)->k0; o = K(0)->k1 & K(1)->k1; break;
    case OR: z = K(0)->k0 & K(1)->k0; o = K(0)->k1 | K(1)->k1; break;
    case XOR: z = (K(0)->k0 & K(1)->k0) | (K(0)->k1 & K(1)->k1);
        o = (K(0)->k0 & K(1)->k1) | (K(0)->k1 & K(1)->k0); break;
    case ITE: z = K(1)->k0 & K(2)->k0; o = K(1)->k1 & K(2)->k1; break;
    case SHL: if (K(1)->isc() && K(1)->val < x->w) { unsigned s = (unsigned)K(1)->val;
            z = ((K(0)->k0 << s) | mask(s)) & m; o = (K(0)->k1 << s) & m; }
        else { // low zeros are kept
            u128 t = K(0)->k0; unsigned n = 0; while (n < x->w && (t >> n & 1)) n++; z = mask(n) & m; }
        break;
    case LSHR: if (K(1)->isc() && K(1)->val < x->w) { unsigned s = (unsigned)K(1)->val;
            z = ((K(0)->k0 >> s) | ~(m >> s)) & m; o = (K(0)->k1 >> s); }
        else { u128 t = K(0)->k0; unsigned n = 0; while (n < x->w && (t >> (x->w - 1 - n) & 1)) n++;
            z = n ? (m & ~mask(x->w - n)) : 0; }
        break;
    case ADD: {
        u128 amax = ~K(0)->k0 & m, bmax = ~K(1)->k0 & m;
        if (x->w < 128) { u128 s = amax + bmax; unsigned n = 0;
            if (s <= m) { while (n < x->w && !(s >> (x->w - 1 - n) & 1)) n++; z = n ? (m & ~mask(x->w - n)) : 0; } }
        // common low known-zero bits
        unsigned l = 0; while (l < x->w && (K(0)->k0 >> l & 1) && (K(1)->k0 >> l & 1)) l++;
        z |= mask(l) & m; break; }
    case MUL: {
        if (x->w <= 64) { u128 s = (~K(0)->k0 & m) * (~K(1)->k0 & m);
            if (s <= m) { unsigned n = 0; while (n < x->w && !(s >> (x->w - 1 - n) & 1)) n++; z = n ? (m & ~mask(x->w - n)) : 0; } }
        unsigned l = 0, r = 0; while (l < x->w && (K(0)->k0 >> l & 1)) l++;
        while (r < x->w && (K(1)->k0 >> r & 1)) r++;
        z |= mask(std::min<unsigned>(l + r, x->w)) & m; break; }
    case UDIV: if (K(1)->isc() && K(1)->val) { u128 s = (~K(0)->k0 & m) / K(1)->val; unsigned n = 0;
            while (n < x->w && !(s >> (x->w - 1 - n) & 1)) n++; z = n ? (m & ~mask(x->w - n)) : 0; } break;
    case UREM: if (K(1)->isc() && K(1)->val) { u128 s = K(1)->val - 1; unsigned n = 0;
            while (n < x->w && !(s >> (x->w - 1 - n) & 1)) n++; z = n ? (m & ~mask(x->w - n)) : 0; } break;
    default: break;
    }
    x->k0 = z & m; x->k1 = o & m;
}

static void interval(Expr *x)
{
    if (x->w > 64) { x->lo = INT64_MIN; x->hi = INT64_MAX; return; }
    u128 m = mask(x->w), sg = sgn(x->w);
    i128 lo = sx((x->k1 & ~sg) | ((x->k0 & sg) ? 0 : sg), x->w), hi = sx((~x->k0 & m & ~sg) | (x->k1 & sg), x->w);
    auto K = [&](int i) { return x->k[i]; };
    i128 a = 0, b = 0; bool have = false;
    i128 tmin = sx(sg, x->w), tmax = (i128)(m >> 1);
    switch (x->op) {
    case SEXT: if (K(0)->w <= 64) { a = K(0)->lo; b = K(0)->hi; have = true; } break;
    case ITE: a = std::min(K(1)->lo, K(2)->lo); b = std::max(K(1)->hi, K(2)->hi); have = true; break;
    case ADD: a = (i128)K(0)->lo + K(1)->lo; b = (i128)K(0)->hi + K(1)->hi; have = true; break;
    case SUB: a = (i128)K(0)->lo - K(1)->hi; b = (i128)K(0)->hi - K(1)->lo; have = true; break;
    case MUL: { i128 p[4] = { (i128)K(0)->lo * K(1)->lo, (i128)K(0)->lo * K(1)->hi, (i128)K(0)->hi * K(1)->lo, (i128)K(0)->hi * K(1)->hi };
        a = *std::min_element(p, p + 4); b = *std::max_element(p, p + 4); have = true; break; }
    case EXTRACT: if (x->aux == 0 && K(0)->w <= 64) { a = K(0)->lo; b = K(0)->hi; have = true; } break;
    default: break;
    }
    if (have && a >= tmin && b <= tmax) { lo = std::max(lo, a); hi = std::min(hi, b); }
    if (lo > hi) { lo = tmin; hi = tmax; }
    x->lo = (int64_t)lo; x->hi = (int64_t)hi;
}

static E mk(Op op, unsigned w, std::initializer_list<E> ks, u32 aux = 0, u128 val = 0)
{
    E kk[3]; u32 n = 0; for (E e : ks) kk[n++] = e;
    Expr t; t.op = op; t.w = w; t.nk = n; t.aux = aux; t.val = val; t.k = kk;
    auto it = g_table.find(&t);
    if (it != g_table.end()) return *it;
    Expr *x = new Expr(t);
    x->k = n ? new E[n] : nullptr;
    for (u32 i = 0; i < n; i++) x->k[i] = kk[i];
    x->id = g_exprs.size(); x->stamp = 0; x->ev = 0;
    const SymSet *s = &g_emptySyms;
    for (u32 i = 0; i < n; i++) s = unionSS(s, kk[i]->syms);
    x->syms = s;
    knownBits(x);
    if (op != CONST && w <= 128 && (x->k0 | x->k1) == mask(w) && op != SYM) {
        u128 v = x->k1; delete[] x->k; delete x;
        return mkConst(v, w);
    }
    interval(x);
    x->dep = 0; for (u32 i = 0; i < n; i++) x->dep = std::max(x->dep, kk[i]->dep);
    if (op == AND || op == OR || op == XOR || op == ADD || op == SUB || op == MUL) x->dep++;
    g_exprs.push_back(x);
    g_table.insert(x);
    return x;
}

static E smallConst[65][257];
E mkConst(u128 v, unsigned w)
{
    v &= mask(w);
    if (w <= 64 && v <= 256) {
        E &c = smallConst[w][(unsigned)v];
        if (!c) c = mk(CONST, w, {}, 0, v);
        return c;
    }
    return mk(CONST, w, {}, 0, v);
}
E mkSym(const std::string &name, unsigned w, bool uninit)
{
    u32 idx = g_syms.size();
    g_syms.push_back({name, (int)w, uninit});
    Expr *x = new Expr();
    x->op = SYM; x->w = w; x->nk = 0; x->aux = idx; x->val = 0; x->k = nullptr; x->k0 = x->k1 = 0;
    x->id = g_exprs.size(); x->stamp = 0; x->ev = 0;
    SymSet s{idx};
    x->syms = internSS(std::move(s)); interval(x);
    g_exprs.push_back(x);
    return x;
}
E mkTuple(const std::vector<E> &ks)
{
    Expr *x = new Expr();
    x->op = TUPLE; x->w = 0; x->nk = ks.size(); x->aux = 0; x->val = 0; x->k0 = x->k1 = 0;
    x->k = new E[ks.size()];
    for (size_t i = 0; i < ks.size(); i++) x->k[i] = ks[i];
    x->id = 0; x->stamp = 0; x->syms = &g_emptySyms;
    return x;
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (hi->isc() && lo->isc()) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->isc() && hi->val == 0) return mkZext(lo, w);
    if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
    if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    if (lo->op == ZEXT) { // concat(hi, zext(x)) -> concat(hi, concat(0, x)), the inner zero kept raw so that it is not folded back
        unsigned zw = lo->w - lo->k[0]->w;
        if (hi->isc()) return mkConcat(mkConst(hi->val << zw, hi->w + zw), lo->k[0]);
        lo = mk(CONCAT, lo->w, {mkConst(0, zw), lo->k[0]});
    }
    if (hi->op == EXTRACT) {
        if (lo->op == EXTRACT && lo->k[0] == hi->k[0] && lo->aux + lo->w == hi->aux)
            return mkExtract(hi->k[0], lo->aux, w);
        if (lo->op == CONCAT && lo->k[0]->op == EXTRACT && lo->k[0]->k[0] == hi->k[0] && lo->k[0]->aux + lo->k[0]->w == hi->aux)
            return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
        // concat(extract(x, n, ..), x) where lo is the (zero-based) low part collapsed to a narrower op is left alone
    }
    if (hi->isc() && lo->op == CONCAT && lo->k[0]->isc())
        return mkConcat(mkConst((hi->val << lo->k[0]->w) | lo->k[0]->val, hi->w + lo->k[0]->w), lo->k[1]);
    return mk(CONCAT, w, {hi, lo});
}

bool g_rawExtract = false; // keep byte extracts whole, so that a value stored and loaded again is the same expression
static const u32 g_pushDepth = 2;
E mkExtract(E e, unsigned lo, unsigned w)
{
    if (lo == 0 && w == e->w) return e;
    if (lo + w > e->w) fatal("bad extract %u+%u of %u", lo, w, e->w);
    if (e->isc()) return mkConst(e->val >> lo, w);
    switch (e->op) {
    case EXTRACT: return mkExtract(e->k[0], e->aux + lo, w);
    case CONCAT: {
        unsigned lw = e->k[1]->w;
        if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
        if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
        return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo));
    }
    case ZEXT: {
        unsigned kw = e->k[0]->w;
        if (lo >= kw) return mkConst(0, w);
        if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
        return mkZext(mkExtract(e->k[0], lo, kw - lo), w);
    }
    case SEXT: {
        unsigned kw = e->k[0]->w;
        if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
        if (lo < kw) return mkSext(mkExtract(e->k[0], lo, kw - lo), w);
        return mkSext(mkExtract(e->k[0], kw - 1, 1), w);
    }
    case AND: case OR: case XOR:
        if (e->dep > g_pushDepth) break; // the cone below may be exponentially large as a tree
        return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
    case ADD: case SUB: case MUL:
        if (lo == 0 && !g_rawExtract && e->dep <= g_pushDepth) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
        break;
    case ITE:
        if (g_rawExtract && w > 1) break;
        if (e->k[1]->isc() || e->k[2]->isc() || w == 1)
            return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
        break;
    default: break;
    }
    return mk(EXTRACT, w, {e}, lo);
}
E mkZext(E e, unsigned w)
{
    if (w == e->w) return e;
    if (e->isc()) return mkConst(e->val, w);
    if (e->op == ZEXT) return mkZext(e->k[0], w);
    if (e->op == ITE && e->k[1]->isc() && e->k[2]->isc())
        return mkIte(e->k[0], mkZext(e->k[1], w), mkZext(e->k[2], w));
    if (e->op == EXTRACT && e->aux == 0) { // only known zeros were cut off
        E x = e->k[0]; u128 hi = mask(x->w) & ~mask(e->w);
        if ((x->k0 & hi) == hi && w >= x->w) return mkZext(x, w);
    }
    return mk(ZEXT, w, {e});
}
E mkSext(E e, unsigned w)
{
    if (w == e->w) return e;
    if (e->isc()) return mkConst((u128)sx(e->val, e->w), w);
    if (e->k0 & sgn(e->w)) return mkZext(e, w);
    if (e->op == SEXT) return mkSext(e->k[0], w);
    if (e->op == ITE && e->k[1]->isc() && e->k[2]->isc())
        return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
    return mk(SEXT, w, {e});
}

u128 evalOp(Op op, unsigned w, unsigned wk, u128 a, u128 b, unsigned aux)
{
    u128 m = mask(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return (x >= 0 ? m : 1); return (u128)(x / y) & m; }
    case SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { i128 x = sx(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (unsigned)b) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, wk) < sx(b, wk);
    case SLE: return sx(a, wk) <= sx(b, wk);
    default: fatal("evalOp %d", op);
    }
}

// combine two values whose possibly-one bits are disjoint into a concatenation
struct Slice { unsigned lo, w; E e; }; // e == nullptr: zeros
static bool slices(E e, unsigned base, std::vector<Slice> &out)
{
    if (e->isc()) { if (e->val == 0) { out.push_back({base, e->w, nullptr}); return true; }
        // split a constant into zero / nonzero runs is not needed: keep whole
        out.push_back({base, e->w, e}); return true; }
    if (e->op == CONCAT) { return slices(e->k[1], base, out) && slices(e->k[0], base + e->k[1]->w, out); }
    if (e->op == ZEXT) { if (!slices(e->k[0], base, out)) return false;
        out.push_back({base + e->k[0]->w, (unsigned)(e->w - e->k[0]->w), nullptr}); return true; }
    out.push_back({base, e->w, e});
    return true;
}
static E tryDisjointOr(E a, E b)
{
    unsigned w = a->w;
    if ((~a->k0 & ~b->k0 & mask(w)) != 0) return nullptr;
    // only worthwhile where at least one side is a concat/zext
    if (!(a->op == CONCAT || a->op == ZEXT) && !(b->op == CONCAT || b->op == ZEXT)) return nullptr;
    std::vector<Slice> sa, sb; slices(a, 0, sa); slices(b, 0, sb);
    std::vector<unsigned> cuts;
    for (auto &s : sa) cuts.push_back(s.lo);
    for (auto &s : sb) cuts.push_back(s.lo);
    cuts.push_back(w);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    auto part = [&](std::vector<Slice> &v, unsigned lo, unsigned n) -> E {
        for (auto &s : v) if (s.lo <= lo && lo + n <= s.lo + s.w) {
            if (!s.e) return nullptr;
            E r = mkExtract(s.e, lo - s.lo, n);
            if (r->isc() && r->val == 0) return nullptr;
            return r; }
        fatal("slice");
    };
    E r = nullptr;
    for (size_t i = 0; i + 1 < cuts.size(); i++) {
        unsigned lo = cuts[i], n = cuts[i + 1] - lo;
        E x = part(sa, lo, n), y = part(sb, lo, n);
        if (x && y) return nullptr;
        E z = x ? x : y ? y : mkConst(0, n);
        r = r ? mkConcat(z, r) : z;
    }
    return r;
}

static E tryMask(E a, u128 c) // a & c
{
    unsigned w = a->w;
    // contiguous run of ones: lo..hi
    if (!c) return mkConst(0, w);
    unsigned lo = 0; while (!(c >> lo & 1)) lo++;
    unsigned n = 0; while (lo + n < w && (c >> (lo + n) & 1)) n++;
    if ((c & ~(mask(n) << lo)) != 0) return nullptr;
    E x = mkExtract(a, lo, n);
    if (lo) x = mkConcat(x, mkConst(0, lo));
    return mkZext(x, w);
}

static inline bool isCmp(Op op) { return op >= EQ && op <= SLE; }

E mkBin(Op op, E a, E b)
{
    if (a->w != b->w) fatal("width mismatch %s %u %u", opnames[op], a->w, b->w);
    unsigned w = a->w;
    unsigned rw = isCmp(op) ? 1 : w;
    if (a->isc() && b->isc()) return mkConst(evalOp(op, w, w, a->val, b->val, 0), rw);
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm) {
        if (a->isc()) std::swap(a, b);
        else if (!b->isc() && a->id > b->id) std::swap(a, b);
    }
    u128 m = mask(w);
    bool bc = b->isc(); u128 bv = bc ? b->val : 0;
    switch (op) {
    case ADD:
        if (bc && bv == 0) return a;
        if (bc && a->op == ADD && a->k[1]->isc()) return mkBin(ADD, a->k[0], mkConst(a->k[1]->val + bv, w));
        if (bc && a->op == ITE && a->k[1]->isc() && a->k[2]->isc())
            return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
        if (bc) { // (c | x) - c  ->  x, also one level down
            auto cancel = [&](E x) -> E {
                E y = x->op == ZEXT ? x->k[0] : x;
                if (y->op == CONCAT && y->k[0]->isc() && ((((y->k[0]->val << y->k[1]->w) + bv) & mask(w)) == 0)) return mkZext(y->k[1], w);
                return nullptr; };
            if (E r = cancel(a)) return r;
            if (a->op == ADD) for (int i = 0; i < 2; i++) if (E r = cancel(a->k[i])) return mkBin(ADD, a->k[1 - i], r);
        }
        if (!bc && a->op == ADD && a->k[1]->isc()) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
        if (!bc && b->op == ADD && b->k[1]->isc()) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
        if (w == 1) return mkBin(XOR, a, b);
        if (!bc && a->op == SUB && a->k[1] == b) return a->k[0];
        if (!bc && b->op == SUB && b->k[1] == a) return b->k[0];
        if (E r = tryDisjointOr(a, b)) return r;
        break;
    case SUB:
        if (a == b) return mkConst(0, w);
        if (bc) return mkBin(ADD, a, mkConst(-bv, w));
        if (a->op == ADD && a->k[0] == b) return a->k[1];
        if (a->op == ADD && a->k[1] == b) return a->k[0];
        if (b->op == ADD && b->k[1]->isc()) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(-b->k[1]->val, w));
        if (a->op == ADD && a->k[1]->isc()) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
        if (b->op == ITE && a->isc() && b->k[1]->isc() && b->k[2]->isc())
            return mkIte(b->k[0], mkBin(SUB, a, b->k[1]), mkBin(SUB, a, b->k[2]));
        break;
    case MUL:
        if (bc) {
            if (bv == 0) return b;
            if (bv == 1) return a;
            if ((bv & (bv - 1)) == 0) { unsigned s = 0; while (!(bv >> s & 1)) s++; return mkBin(SHL, a, mkConst(s, w)); }
            if (a->op == ITE && a->k[1]->isc() && a->k[2]->isc())
                return mkIte(a->k[0], mkBin(MUL, a->k[1], b), mkBin(MUL, a->k[2], b));
        }
        break;
    case UDIV: if (bc && bv == 1) return a;
        if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!(bv >> s & 1)) s++; return mkBin(LSHR, a, mkConst(s, w)); }
        break;
    case UREM: if (bc && bv == 1) return mkConst(0, w);
        if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(AND, a, mkConst(bv - 1, w));
        break;
    case SDIV: if (bc && bv == 1) return a;
        if (bc && (a->k0 & sgn(w)) && !(bv & sgn(w))) return mkBin(UDIV, a, b);
        break;
    case SREM: if (bc && (a->k0 & sgn(w)) && !(bv & sgn(w))) return mkBin(UREM, a, b);
        break;
    case AND:
        if (a == b) return a;
        if (bc) {
            if (bv == 0) return b;
            if (bv == m) return a;
            if ((~a->k0 & m & ~bv) == 0) return a;      // mask keeps every possibly-one bit
            if ((~a->k0 & m & bv) == 0) return mkConst(0, w);
            if (a->op == AND && a->k[1]->isc()) return mkBin(AND, a->k[0], mkConst(a->k[1]->val & bv, w));
            if (E r = tryMask(a, bv)) return r;
        }
        if (w == 1) { if (mkNot(a) == b) return mkFalse(); }
        if ((~a->k0 & ~b->k0 & m) == 0) return mkConst(0, w);
        break;
    case OR:
        if (a == b) return a;
        if (bc && bv == 0) return a;
        if (bc && bv == m) return b;
        if (w == 1 && mkNot(a) == b) return mkTrue();
        if (E r = tryDisjointOr(a, b)) return r;
        break;
    case XOR:
        if (a == b) return mkConst(0, w);
        if (bc && bv == 0) return a;
        if (bc && a->op == XOR && a->k[1]->isc()) return mkBin(XOR, a->k[0], mkConst(a->k[1]->val ^ bv, w));
        if (w == 1 && bc) { // negation
            if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
            if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
            if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
            if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
        }
        if (w == 1 && !bc) { // xor of booleans with a negation inside
            if (a->op == XOR && a->k[1]->isc()) return mkNot(mkBin(XOR, a->k[0], b));
            if (b->op == XOR && b->k[1]->isc()) return mkNot(mkBin(XOR, a, b->k[0]));
        }
        if (a->op == ITE && bc && a->k[1]->isc() && a->k[2]->isc())
            return mkIte(a->k[0], mkBin(XOR, a->k[1], b), mkBin(XOR, a->k[2], b));
        if (!bc) if (E r = tryDisjointOr(a, b)) return r;
        break;
    case SHL:
        if (bc) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv));
        }
        if (a->isc() && a->val == 0) return a;
        if (b->op == ITE && b->k[1]->isc() && b->k[2]->isc())
            return mkIte(b->k[0], mkBin(SHL, a, b->k[1]), mkBin(SHL, a, b->k[2]));
        break;
    case LSHR:
        if (bc) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkZext(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
        }
        if (a->isc() && a->val == 0) return a;
        if (b->op == ITE && b->k[1]->isc() && b->k[2]->isc())
            return mkIte(b->k[0], mkBin(LSHR, a, b->k[1]), mkBin(LSHR, a, b->k[2]));
        break;
    case ASHR:
        if (bc) {
            if (bv == 0) return a;
            unsigned s = bv >= w ? w - 1 : (unsigned)bv;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        if (a->k0 & sgn(w)) return mkBin(LSHR, a, b);
        break;
    case EQ:
        if (a == b) return mkTrue();
        if ((a->k0 & b->k1) | (a->k1 & b->k0)) return mkFalse();
        if (w == 1) return mkNot(mkBin(XOR, a, b));
        if (bc) {
            if (a->op == ADD && a->k[1]->isc()) return mkBin(EQ, a->k[0], mkConst(bv - a->k[1]->val, w));
            if (a->op == SUB && a->k[0]->isc()) return mkBin(EQ, a->k[1], mkConst(a->k[0]->val - bv, w));
            if (a->op == SUB && bv == 0) return mkBin(EQ, a->k[0], a->k[1]);
            if (a->op == XOR && a->k[1]->isc()) return mkBin(EQ, a->k[0], mkConst(bv ^ a->k[1]->val, w));
            if (a->op == XOR && bv == 0) return mkBin(EQ, a->k[0], a->k[1]);
            if (a->op == ZEXT) return (bv >> a->k[0]->w) ? mkFalse() : mkBin(EQ, a->k[0], mkConst(bv, a->k[0]->w));
            if (a->op == SEXT) { unsigned kw = a->k[0]->w; u128 t = bv & mask(kw);
                return ((u128)sx(t, kw) & m) == bv ? mkBin(EQ, a->k[0], mkConst(t, kw)) : mkFalse(); }
            if (a->op == CONCAT) { unsigned lw = a->k[1]->w;
                E h = mkBin(EQ, a->k[0], mkConst(bv >> lw, a->k[0]->w));
                if (isFalse(h)) return h;
                return mkAnd(h, mkBin(EQ, a->k[1], mkConst(bv, lw))); }
            if (a->op == ITE && (a->k[1]->isc() || a->k[2]->isc()))
                return mkIte(a->k[0], mkBin(EQ, a->k[1], b), mkBin(EQ, a->k[2], b));
        } else {
            if (a->op == ZEXT && b->op == ZEXT) {
                unsigned n = std::max(a->k[0]->w, b->k[0]->w);
                return mkBin(EQ, mkZext(a->k[0], n), mkZext(b->k[0], n));
            }
            if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
                return mkAnd(mkBin(EQ, a->k[0], b->k[0]), mkBin(EQ, a->k[1], b->k[1]));
            if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mkBin(EQ, a->k[0], b->k[0]);
        }
        break;
    case ULT:
        if (a == b) return mkFalse();
        if (bc && bv == 0) return mkFalse();
        if (bc && bv == 1) return mkBin(EQ, a, mkConst(0, w));
        if (a->isc() && a->val == m) return mkFalse();
        if (a->isc() && a->val == 0) return mkNe(b, mkConst(0, w));
        { u128 amax = ~a->k0 & m, amin = a->k1, bmax = ~b->k0 & m, bmin = b->k1;
          if (amax < bmin) return mkTrue();
          if (amin >= bmax) return mkFalse(); }
        if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w);
            return mkBin(ULT, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
        if (a->op == ZEXT && bc && (bv >> a->k[0]->w) == 0) return mkBin(ULT, a->k[0], mkConst(bv, a->k[0]->w));
        if (b->op == ZEXT && a->isc() && (a->val >> b->k[0]->w) == 0) return mkBin(ULT, mkConst(a->val, b->k[0]->w), b->k[0]);
        if (a->op == ITE && bc && a->k[1]->isc() && a->k[2]->isc())
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        break;
    case ULE:
        if (a == b) return mkTrue();
        if (a->isc() && a->val == 0) return mkTrue();
        if (bc && bv == m) return mkTrue();
        if (bc && bv == 0) return mkBin(EQ, a, b);
        if (bc) return mkBin(ULT, a, mkConst(bv + 1, w));
        if (a->isc()) return mkBin(ULT, mkConst(a->val - 1, w), b);
        { u128 amax = ~a->k0 & m, amin = a->k1, bmax = ~b->k0 & m, bmin = b->k1;
          if (amax <= bmin) return mkTrue();
          if (amin > bmax) return mkFalse(); }
        if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w);
            return mkBin(ULE, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
        break;
    case SLT:
        if (a == b) return mkFalse();
        if (w <= 64) { if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse(); }
        if ((a->k0 & sgn(w)) && (b->k0 & sgn(w))) return mkBin(ULT, a, b);
        if ((a->k1 & sgn(w)) && (b->k0 & sgn(w))) return mkTrue();
        if ((a->k0 & sgn(w)) && (b->k1 & sgn(w))) return mkFalse();
        if (bc && bv == 0) return mkExtract(a, w - 1, 1);
        if (a->isc() && a->val == m) return mkNot(mkExtract(b, w - 1, 1));
        if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLT, a->k[0], b->k[0]);
        if (a->op == ITE && bc && a->k[1]->isc() && a->k[2]->isc())
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        break;
    case SLE:
        if (a == b) return mkTrue();
        if (w <= 64) { if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse(); }
        if ((a->k0 & sgn(w)) && (b->k0 & sgn(w))) return mkBin(ULE, a, b);
        if ((a->k1 & sgn(w)) && (b->k0 & sgn(w))) return mkTrue();
        if ((a->k0 & sgn(w)) && (b->k1 & sgn(w))) return mkFalse();
        if (bc) { if (bv == (m >> 1)) return mkTrue(); return mkBin(SLT, a, mkConst(bv + 1, w)); }
        if (a->isc()) { if (a->val == sgn(w)) return mkTrue(); return mkBin(SLT, mkConst(a->val - 1, w), b); }
        if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLE, a->k[0], b->k[0]);
        break;
    default: break;
    }
    return mk(op, rw, {a, b});
}

E mkIte(E c, E a, E b)
{
    if (a->op == TUPLE) {
        if (c->isc()) return c->val ? a : b;
        std::vector<E> v;
        for (u32 i = 0; i < a->nk; i++) v.push_back(mkIte(c, a->k[i], b->k[i]));
        return mkTuple(v);
    }
    if (a->w != b->w || c->w != 1) fatal("ite widths");
    if (c->isc()) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->k[1]->isc()) return mkIte(c->k[0], b, a); // negated condition
    if (a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkOr(c, b);
        if (isFalse(a)) return mkAnd(mkNot(c), b);
        if (isTrue(b)) return mkOr(mkNot(c), a);
        if (isFalse(b)) return mkAnd(c, a);
    }
    if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return mk(ITE, a->w, {c, a, b});
}

static u32 g_stamp = 0, g_stampModel = 0;
static u128 evalRec(E e, const Model &m)
{
    if (e->op == CONST) return e->val;
    if (e->stamp == g_stamp) return e->ev;
    u128 r;
    switch (e->op) {
    case SYM: r = e->aux < m.v.size() ? (u128)m.v[e->aux] & mask(e->w) : 0; break;
    case CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    case EXTRACT: r = (evalRec(e->k[0], m) >> e->aux) & mask(e->w); break;
    case ZEXT: r = evalRec(e->k[0], m); break;
    case SEXT: r = (u128)sx(evalRec(e->k[0], m), e->k[0]->w) & mask(e->w); break;
    case ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    default: r = evalOp(e->op, e->k[0]->w, e->k[0]->w, evalRec(e->k[0], m), evalRec(e->k[1], m), 0); break;
    }
    e->stamp = g_stamp; e->ev = r;
    return r;
}
u128 evalExpr(E e, const Model &m)
{
    if (e->isc()) return e->val;
    if (g_stampModel != m.uid || g_stamp == 0) { g_stamp++; g_stampModel = m.uid; }
    return evalRec(e, m);
}

std::string exprStr(E e, int depth)
{
    char b[64];
    if (e->op == CONST) { snprintf(b, sizeof b, "0x%llx", (unsigned long long)e->val); return b; }
    if (e->op == SYM) return g_syms[e->aux].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + opnames[e->op];
    if (e->op == EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->aux, e->w); s += b; }
    for (u32 i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
