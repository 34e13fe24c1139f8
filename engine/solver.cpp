#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>

SolverStats g_ss_stats;
unsigned g_timeoutMs = 60000;
static Z3_context Z;
static std::vector<Z3_ast> g_z;         // by expr id
static u32 g_modelUid = 1;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void onerr(Z3_context c, Z3_error_code e) { fatal("z3: %s", Z3_get_error_msg(c, e)); }
void solverInit()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context(cfg);   // ASTs are kept alive for the lifetime of the context
    Z3_set_error_handler(Z, onerr);
}
static Z3_sort bv(unsigned w) { static std::map<unsigned, Z3_sort> m; Z3_sort &s = m[w]; if (!s) s = Z3_mk_bv_sort(Z, w); return s; }
static std::vector<Z3_func_decl> g_symdecl;

static Z3_ast tr(E e);
// translation: every expression is a bit-vector, booleans are BV1
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bv(1)), Z3_mk_unsigned_int64(Z, 0, bv(1))); }
static Z3_ast tb(E e); // as z3 Bool
static std::vector<Z3_ast> g_zb;

static Z3_ast tr0(E e)
{
    auto K = [&](int i) { return tr(e->k[i]); };
    switch (e->op) {
    case CONST: {
        if (e->w <= 64) return Z3_mk_unsigned_int64(Z, (u64)e->val, bv(e->w));
        return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64)(e->val >> 64), bv(e->w - 64)), Z3_mk_unsigned_int64(Z, (u64)e->val, bv(64)));
    }
    case SYM: {
        char n[32]; snprintf(n, sizeof n, "v%u", e->aux);
        if (g_symdecl.size() <= e->aux) g_symdecl.resize(e->aux + 64, nullptr);
        Z3_func_decl d = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, n), 0, nullptr, bv(e->w));
        Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, d));
        g_symdecl[e->aux] = d;
        return Z3_mk_app(Z, d, 0, nullptr);
    }
    case CONCAT: return Z3_mk_concat(Z, K(0), K(1));
    case EXTRACT: return Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, K(0));
    case ZEXT: return Z3_mk_zero_ext(Z, e->w - e->k[0]->w, K(0));
    case SEXT: return Z3_mk_sign_ext(Z, e->w - e->k[0]->w, K(0));
    case ADD: return Z3_mk_bvadd(Z, K(0), K(1));
    case SUB: return Z3_mk_bvsub(Z, K(0), K(1));
    case MUL: return Z3_mk_bvmul(Z, K(0), K(1));
    case UDIV: return Z3_mk_bvudiv(Z, K(0), K(1));
    case SDIV: return Z3_mk_bvsdiv(Z, K(0), K(1));
    case UREM: return Z3_mk_bvurem(Z, K(0), K(1));
    case SREM: return Z3_mk_bvsrem(Z, K(0), K(1));
    case AND: if (e->w == 1) return b2v(tb(e)); return Z3_mk_bvand(Z, K(0), K(1));
    case OR: if (e->w == 1) return b2v(tb(e)); return Z3_mk_bvor(Z, K(0), K(1));
    case XOR: return Z3_mk_bvxor(Z, K(0), K(1));
    case SHL: return Z3_mk_bvshl(Z, K(0), K(1));
    case LSHR: return Z3_mk_bvlshr(Z, K(0), K(1));
    case ASHR: return Z3_mk_bvashr(Z, K(0), K(1));
    case EQ: case ULT: case ULE: case SLT: case SLE: return b2v(tb(e));
    case ITE: return Z3_mk_ite(Z, tb(e->k[0]), K(1), K(2));
    default: fatal("tr op %d", e->op);
    }
}
static Z3_ast tr(E e)
{
    if (g_z.size() <= e->id) g_z.resize(g_exprs.size() + 1024, nullptr);
    if (g_z[e->id]) return g_z[e->id];
    Z3_ast a = tr0(e);
    if (g_z.size() <= e->id) g_z.resize(g_exprs.size() + 1024, nullptr);
    return g_z[e->id] = a;
}
static Z3_ast tb(E e)
{
    if (g_zb.size() <= e->id) g_zb.resize(g_exprs.size() + 1024, nullptr);
    if (g_zb[e->id]) return g_zb[e->id];
    Z3_ast r;
    switch (e->op) {
    case CONST: r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case AND: { Z3_ast a[2] = { tb(e->k[0]), tb(e->k[1]) }; r = Z3_mk_and(Z, 2, a); break; }
    case OR: { Z3_ast a[2] = { tb(e->k[0]), tb(e->k[1]) }; r = Z3_mk_or(Z, 2, a); break; }
    case XOR: if (e->k[1]->isc()) { r = e->k[1]->val ? Z3_mk_not(Z, tb(e->k[0])) : tb(e->k[0]); } else r = Z3_mk_xor(Z, tb(e->k[0]), tb(e->k[1])); break;
    case EQ: r = Z3_mk_eq(Z, tr(e->k[0]), tr(e->k[1])); break;
    case ULT: r = Z3_mk_bvult(Z, tr(e->k[0]), tr(e->k[1])); break;
    case ULE: r = Z3_mk_bvule(Z, tr(e->k[0]), tr(e->k[1])); break;
    case SLT: r = Z3_mk_bvslt(Z, tr(e->k[0]), tr(e->k[1])); break;
    case SLE: r = Z3_mk_bvsle(Z, tr(e->k[0]), tr(e->k[1])); break;
    case ITE: r = Z3_mk_ite(Z, tb(e->k[0]), tb(e->k[1]), tb(e->k[2])); break;
    default: r = Z3_mk_eq(Z, tr(e), Z3_mk_unsigned_int64(Z, 1, bv(1))); break;
    }
    if (g_zb.size() <= e->id) g_zb.resize(g_exprs.size() + 1024, nullptr);
    return g_zb[e->id] = r;
}

static SolveRes runSolver(Z3_solver s, const std::vector<E> &cs, std::vector<std::pair<u32, u64>> *asg, unsigned to)
{
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), to);
    Z3_solver_set_params(Z, s, p);
    Z3_params_dec_ref(Z, p);
    const SymSet *all = nullptr; std::vector<u32> syms;
    for (E c : cs) { Z3_solver_assert(Z, s, tb(c)); if (c->syms != all) { syms.insert(syms.end(), c->syms->begin(), c->syms->end()); all = c->syms; } }
    Z3_lbool r = Z3_solver_check(Z, s);
    SolveRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT && asg) {
        std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
        Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
        for (u32 i : syms) {
            if (i >= g_symdecl.size() || !g_symdecl[i]) continue;
            Z3_ast v = Z3_model_get_const_interp(Z, m, g_symdecl[i]);
            u64 x = 0;
            if (v) { Z3_get_numeral_uint64(Z, v, &x); }
            asg->push_back({i, x});
        }
        Z3_model_dec_ref(Z, m);
    }
    Z3_solver_dec_ref(Z, s);
    return res;
}

SolveRes solveRaw(const std::vector<E> &cs, std::vector<std::pair<u32, u64>> *asg, unsigned to)
{
    double t0 = now();
    g_ss_stats.queries++;
    // stage 1: plain incremental core, short; stage 2: bit-blasting pipeline with the full budget
    static Z3_solver simple = nullptr;
    SolveRes r;
    (void)simple;
    Z3_solver s1 = Z3_mk_simple_solver(Z);
    r = runSolver(s1, cs, asg, std::min(to, getenv("S1") ? (unsigned)atoi(getenv("S1")) : 300u));
    if (r == UNKNOWN) {
        g_ss_stats.slow++;
        if (asg) asg->clear();
        static Z3_tactic tac = nullptr;
        if (!tac) {
            const char *names[] = { "simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat" };
            tac = Z3_mk_tactic(Z, names[0]); Z3_tactic_inc_ref(Z, tac);
            for (int i = 1; i < 7; i++) { Z3_tactic t = Z3_mk_tactic(Z, names[i]); Z3_tactic_inc_ref(Z, t);
                tac = Z3_tactic_and_then(Z, tac, t); Z3_tactic_inc_ref(Z, tac); }
        }
        r = runSolver(Z3_mk_solver_from_tactic(Z, tac), cs, asg, to);
    }
    double dt = now() - t0;
    g_ss_stats.time += dt; if (dt > g_ss_stats.maxq) g_ss_stats.maxq = dt;
    if (r == SAT) g_ss_stats.sat++; else if (r == UNSAT) g_ss_stats.unsat++; else g_ss_stats.unknown++;
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) {
        fprintf(stderr, "slow query %.2fs res=%d n=%zu: %s\n", dt, r, cs.size(), exprStr(cs.back(), 6).c_str());
    }
    return r;
}

ModelP newModel() { auto m = std::make_shared<Model>(); m->uid = g_modelUid++; return m; }

struct VH { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull ^ (h >> 27); return h; } };
struct CacheEnt { SolveRes r; std::vector<std::pair<u32, u64>> asg; };
static std::unordered_map<std::vector<u32>, CacheEnt, VH> g_cache;

static bool inter(const SymSet &a, const SymSet &b)
{
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; }
    return false;
}

SolveRes solve(const std::vector<E> &pc, E q, const ModelP &cur, ModelP *out)
{
    if (isFalse(q)) return UNSAT;
    if (isTrue(q)) { if (out) *out = cur; return SAT; }
    if (cur && evalExpr(q, *cur)) { g_ss_stats.evalHits++; if (out) *out = cur; return SAT; }
    // syntactic
    for (E c : pc) { if (c == q) { if (out) *out = cur; return SAT; } }
    E nq = mkNot(q);
    for (E c : pc) if (c == nq) return UNSAT;
    // slice
    SymSet need = *q->syms;
    std::vector<E> sl; std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!in[i] && inter(need, *pc[i]->syms)) {
            in[i] = 1; ch = true;
            SymSet u; std::set_union(need.begin(), need.end(), pc[i]->syms->begin(), pc[i]->syms->end(), std::back_inserter(u));
            if (u.size() != need.size()) need.swap(u);
        }
    }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) sl.push_back(pc[i]);
    sl.push_back(q);
    std::vector<u32> key; for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    const CacheEnt *ce;
    CacheEnt tmp;
    if (it != g_cache.end()) { g_ss_stats.cacheHits++; ce = &it->second; }
    else {
        tmp.r = solveRaw(sl, &tmp.asg, g_timeoutMs);
        if (tmp.r != UNKNOWN) { ce = &(g_cache[key] = tmp); } else ce = &tmp;
    }
    if (ce->r == SAT && out) {
        ModelP m = newModel();
        if (cur) m->v = cur->v;
        for (auto &p : ce->asg) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
        *out = m;
        // soundness guard on the back end: the model must satisfy the slice
        for (E e : sl) if (!evalExpr(e, *m)) fatal("solver model does not satisfy its query: %s", exprStr(e, 5).c_str());
    }
    return ce->r;
}
