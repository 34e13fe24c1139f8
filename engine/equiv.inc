// byte-wise equivalence of two buffers by SAT sweeping over the shared expression DAG
static u32 g_sweepQ = 0;
static bool sweepEquiv(State &s, std::vector<E> &a, std::vector<E> &b, const std::string &msg, const Instruction *I)
{
    // 1. random simulation of every node in the cone
    std::vector<E> order; std::unordered_set<E> seen;
    std::function<void(E)> dfs = [&](E e) { if (e->isc() || !seen.insert(e).second) return; for (u32 i = 0; i < e->nk; i++) dfs(e->k[i]); order.push_back(e); };
    for (E e : a) dfs(e);
    for (E e : b) dfs(e);
    const int R = 64;
    std::vector<ModelP> ms; 
    for (int r = 0; r < R; r++) { ModelP m = newModel(); m->v.resize(g_syms.size());
        for (auto &x : m->v) x = (r == 0) ? 0 : (r == 1) ? ~0ull : rnd();
        if (r >= 48) for (auto &x : m->v) { x = 0; if ((rnd() & 7) == 0) x = rnd(); }
        ms.push_back(m); }
    if (!s.pc.empty()) { // keep to models of the path condition: fall back on the state's model only
        std::vector<ModelP> k; for (auto &m : ms) { bool ok = true; for (E c : s.pc) if (!evalExpr(c, *m)) { ok = false; break; } if (ok) k.push_back(m); }
        k.push_back(s.model); ms.swap(k); }
    // cheap refutation
    for (auto &m : ms) for (size_t i = 0; i < a.size(); i++) if (evalExpr(a[i], *m) != evalExpr(b[i], *m)) { violation(s, m, "assert", msg, I); return false; }
    std::vector<std::vector<u64>> sig(order.size(), std::vector<u64>(ms.size()));
    for (size_t r = 0; r < ms.size(); r++) for (size_t i = 0; i < order.size(); i++) sig[i][r] = (u64)evalExpr(order[i], *ms[r]);
    // 2. sweep bottom-up, rebuilding with proved-equal representatives
    std::unordered_map<E, E> rep;
    std::map<std::pair<unsigned, std::vector<u64>>, std::vector<E>> cls;
    auto sub = [&](E e) { if (e->isc()) return e; auto it = rep.find(e); return it == rep.end() ? e : it->second; };
    auto rebuild = [&](E e) -> E {
        switch (e->op) {
        case SYM: return e;
        case CONCAT: return mkConcat(sub(e->k[0]), sub(e->k[1]));
        case EXTRACT: return mkExtract(sub(e->k[0]), e->aux, e->w);
        case ZEXT: return mkZext(sub(e->k[0]), e->w);
        case SEXT: return mkSext(sub(e->k[0]), e->w);
        case ITE: return mkIte(sub(e->k[0]), sub(e->k[1]), sub(e->k[2]));
        default: return mkBin(e->op, sub(e->k[0]), sub(e->k[1]));
        } };
    // cut: replace the operands (frontier at depth d) by fresh variables, sound for proving equality
    std::function<E(E, int, std::unordered_map<E, E> &, std::unordered_map<u64, E> &)> cut = [&](E e, int d, std::unordered_map<E, E> &fv, std::unordered_map<u64, E> &memo) -> E {
        if (e->isc()) return e;
        if (e->op == SYM || d <= 0) { E &f = fv[e]; if (!f) f = mkSym("cut", std::min<unsigned>(64, e->w), false); return f; }
        u64 key = (u64)e->id * 64 + d; auto it = memo.find(key); if (it != memo.end()) return it->second;
        auto c = [&](int i) { return cut(e->k[i], d - 1, fv, memo); };
        E r;
        switch (e->op) {
        case CONCAT: r = mkConcat(c(0), c(1)); break;
        case EXTRACT: r = mkExtract(c(0), e->aux, e->w); break;
        case ZEXT: r = mkZext(c(0), e->w); break;
        case SEXT: r = mkSext(c(0), e->w); break;
        case ITE: r = mkIte(c(0), c(1), c(2)); break;
        default: r = mkBin(e->op, c(0), c(1)); break;
        }
        return memo[key] = r; };
    int failed = 0; bool throughBits = false;
    auto cone = [&](E top, int depth, std::unordered_set<E> &out) { // breadth first, so that every node is met at its least depth
        std::vector<E> cur{top}, nxt; out.insert(top);
        while (depth-- && !cur.empty()) { nxt.clear(); for (E e : cur) for (u32 i = 0; i < e->nk; i++) if (!e->k[i]->isc() && out.insert(e->k[i]).second) nxt.push_back(e->k[i]); cur.swap(nxt); } };
    std::function<E(E, int, std::unordered_set<E> &, std::unordered_set<E> &, std::unordered_map<E, E> &, std::unordered_map<E, E> &)> cutCommon =
        [&](E e, int d, std::unordered_set<E> &ca, std::unordered_set<E> &cb, std::unordered_map<E, E> &fv, std::unordered_map<E, E> &memo) -> E {
        if (e->isc()) return e;
        if (e->op == SYM || (ca.count(e) && cb.count(e) && !(throughBits && (e->op == AND || e->op == OR || e->op == XOR))) || (!ca.count(e) && !cb.count(e))) { E &f = fv[e]; if (!f) f = mkSym("cut", std::min<unsigned>(64, e->w), false); return f; }
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        auto c = [&](int i) { return cutCommon(e->k[i], d - 1, ca, cb, fv, memo); };
        E r;
        switch (e->op) {
        case CONCAT: r = mkConcat(c(0), c(1)); break;
        case EXTRACT: r = mkExtract(c(0), e->aux, e->w); break;
        case ZEXT: r = mkZext(c(0), e->w); break;
        case SEXT: r = mkSext(c(0), e->w); break;
        case ITE: r = mkIte(c(0), c(1), c(2)); break;
        default: r = mkBin(e->op, c(0), c(1)); break;
        }
        return memo[e] = r; };
    // sums are compared as linear forms over their non-sum operands, whatever their order and nesting
    typedef std::map<E, u64> Lin; std::unordered_map<E, Lin> lins; std::map<std::pair<unsigned, Lin>, E> linRep;
    auto linOf = [&](E e) -> Lin { if (e->isc()) return e->val ? Lin{{nullptr, (u64)e->val}} : Lin{}; auto it = lins.find(e); return it == lins.end() ? Lin{{e, 1}} : it->second; };
    static const bool dbg = getenv("SYMX_SWEEP") != nullptr;
    for (size_t i = 0; i < order.size(); i++) {
        E e = order[i], n = rebuild(e); g_equivNodes++;
        if (dbg) fprintf(stderr, "%zu/%zu op %d w %u q %u proved %llu\n", i, order.size(), (int)n->op, n->w, g_sweepQ, (unsigned long long)g_equivProved);
        if (n->isc()) { rep[e] = n; continue; }
        auto &v = cls[{n->w, sig[i]}];
        E found = nullptr;
        for (E r : v) if (r == n) { found = r; break; }
        if (!found && (n->op == ADD || n->op == SUB) && n->w <= 64) {
            u64 mask = n->w == 64 ? ~0ull : (1ull << n->w) - 1; Lin l = linOf(n->k[0]);
            for (auto &t : linOf(n->k[1])) { u64 &c = l[t.first]; c = (c + (n->op == ADD ? t.second : 0 - t.second)) & mask; if (!c) l.erase(t.first); }
            if (l.size() <= 4096) { auto k = std::make_pair((unsigned)n->w, l); auto it = linRep.find(k); if (it != linRep.end()) { found = it->second; g_equivProved++; } else { linRep[k] = n; lins[n] = l; } }
        }
        if (!found && n->w >= 8 && !v.empty()) {
            for (size_t q = 0; q < v.size() && q < 4 && !found; q++) {
                for (int d : { 0, 1, 4, 7, 10, 14 }) {
                    if (d > 1 && failed > 40) break;
                    std::unordered_map<E, E> fv; std::unordered_map<u64, E> memo; E x, y;
                    if (d < 2) { // the largest nodes the two have in common become variables; at the second try none that are bitwise operations
                        throughBits = d;
                        std::unordered_set<E> ca, cb; cone(n, 10, ca); cone(v[q], 10, cb);
                        std::unordered_map<E, E> m1;
                        x = cutCommon(n, 10, ca, cb, fv, m1); m1.clear(); y = cutCommon(v[q], 10, ca, cb, fv, m1);
                    } else { x = cut(n, d, fv, memo), y = cut(v[q], d, fv, memo); }
                    bool wide = false; for (auto &p : fv) if (p.first->w > 64) wide = true;
                    if (wide) continue;
                    E ne = mkNe(x, y);
                    if (isFalse(ne)) { found = v[q]; break; }
                    if (isTrue(ne)) continue;
                    g_sweepQ++;
                    if (solveRaw({ne}, nullptr, 2000) == UNSAT) { found = v[q]; break; }
                    if (d > 1) failed++;
                }
            }
            if (found) g_equivProved++;
        }
        if (found) rep[e] = found; else { v.push_back(n); rep[e] = n; }
    }
    // 3. outputs
    for (size_t i = 0; i < a.size(); i++) {
        E x = sub(a[i]), y = sub(b[i]);
        if (x == y) continue;
        E eq = mkEq(x, y);
        if (isTrue(eq)) continue;
        ModelP m; SolveRes r = solve(s.pc, mkNot(eq), s.model, &m);
        if (r == SAT) { violation(s, m, "assert", msg, I); return false; }
        if (r == UNKNOWN) { incomplete("equivalence not decided: " + msg); return true; }
    }
    return true;
}
