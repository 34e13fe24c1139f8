// The hash map against a plain list of pairs.
#include "sym.h"
#include <crefl/hashmap.h>
typedef uint64_t u64_t;
struct key { u64_t v; u64_t h; key() : v(0), h(0) {} key(int) : v(0), h(0) {} bool operator==(const key &o) const { return v == o.v; } };
struct hasher { size_t operator()(const key &k) const { return k.h; } }; // an arbitrary hash function: each key has a hash of its own
typedef hashmap<key, u64_t, hasher> map;
enum { NKEY = 3 };
struct ref { int has[NKEY]; u64_t val[NKEY]; };
static key K[NKEY];
static void keys(int n)
{
    static const u64_t H[] = { 0, 1, 15, 16, 31, 3 }; // equal, next to each other, at the end of the table, equal only before growth
    for (int i = 0; i < n; i++) { K[i].v = sym_u64("key"); K[i].h = H[sym_choose(0, sym_param("hashes") - 1, "hash")]; for (int j = 0; j < i; j++) sym_assume(K[i].v != K[j].v); }
}
static int count(const ref &r) { int n = 0; for (int i = 0; i < NKEY; i++) n += r.has[i]; return n; }
static void lookup(map &m, const ref &r, int n)
{
    sym_assert(m.size() == (size_t)count(r), "the size is the number of keys");
    for (int i = 0; i < n; i++) { auto f = m.find(K[i]); if (!r.has[i]) sym_assert(f == m.end(), "what is not in the map is not found"); else { sym_assert(f != m.end(), "what is in the map is found"); sym_assert((f->first.v == K[i].v) & (f->second == r.val[i]), "with its value"); } }
}
static void walk(map &m, const ref &r, int n)
{
    int seen[NKEY] = { 0 }, total = 0;
    for (auto i = m.begin(); i != m.end(); ++i) { int e = 0; for (int k = 0; k < n; k++) if (i->first.v == K[k].v) { seen[k]++; e = 1; sym_assert(r.has[k] && (*i).second == r.val[k], "iteration gives keys with their values"); } sym_assert(e, "iteration gives only keys of the map"); total++; }
    sym_assert(total == count(r), "iteration gives every key once"); for (int k = 0; k < n; k++) sym_assert(seen[k] == r.has[k], "iteration gives every key once");
}
static void op(map &m, ref &r, int o, int k)
{
    u64_t v = sym_u64("value");
    switch (o) {
    case 0: { auto i = m.insert(K[k], v); r.has[k] = 1; r.val[k] = v; sym_assert((i->first.v == K[k].v) & (i->second == v), "an insertion gives the entry"); break; }
    case 1: { u64_t &x = m[K[k]]; sym_assert(x == (r.has[k] ? r.val[k] : 0), "an entry made by indexing is zero"); x = v; r.has[k] = 1; r.val[k] = v; break; }
    case 2: m.erase(K[k]); r.has[k] = 0; break;
    case 3: m.clear(); for (int i = 0; i < NKEY; i++) r.has[i] = 0; break;
    }
}
// every history of `ops` operations on maps of `limit` slots
HARNESS map_ops()
{
    int n = (int)sym_param("ops"), nk = (int)sym_param("keys"); keys(nk); ref r = { { 0 }, { 0 } };
    {
        map m(sym_param("limit")); size_t cap = m.capacity(); walk(m, r, nk);
        int used = 0; // keys are interchangeable: a new key is the next one
        for (int i = 0; i < n; i++) { int o = (int)(i == 0 ? sym_param("first") : sym_choose(0, 3, "operation")), k = o == 3 ? 0 : (int)sym_choose(0, used < nk ? used : nk - 1, "which"); if (o != 3 && k == used) used++; op(m, r, o, k); sym_assert(m.capacity() >= cap, "capacity never shrinks"); cap = m.capacity(); sym_assert((m.used + m.tombs) * 2 <= cap, "at most half of the slots are in use"); }
        lookup(m, r, nk); walk(m, r, nk);
    }
    sym_assert_no_leaks("a map frees its storage");
}
// growth with many entries of two alternating hash strides
HARNESS map_grow()
{
    size_t n = sym_param("count"), limit = sym_param("limit"), sh = sym_choose(0, 5, "stride"), gone = sym_choose(0, 3, "erased") * (n - 1) / 3, base = sym_choose(0, 1, "base") * 13;
    {
        map m(limit); key k[80]; u64_t v[80];
        for (size_t i = 0; i <= n; i++) { k[i].v = i * 3; k[i].h = base + i * sh; }
        for (size_t i = 0; i < n; i++) { v[i] = sym_u64("value"); if (i & 1) m.insert(k[i], v[i]); else m[k[i]] = v[i]; if (i == n / 2) m.erase(k[gone > i ? i : gone]); }
        size_t e = gone > n / 2 ? n / 2 : gone;
        sym_assert(m.size() == n - 1, "the size is the number of keys");
        for (size_t i = 0; i < n; i++) { auto f = m.find(k[i]); if (i == e) sym_assert(f == m.end(), "what is not in the map is not found"); else { sym_assert(f != m.end(), "what is in the map is found"); sym_assert(f->second == v[i], "with its value"); } }
        sym_assert(m.find(k[n]) == m.end(), "what is not in the map is not found");
        size_t c = 0; for (auto &x : m) c++, (void)x; sym_assert(c == n - 1, "iteration gives every key once");
    }
    sym_assert_no_leaks("a map frees its storage");
}
HARNESS map_copy()
{
    int nk = 2, how = (int)sym_param("how"); keys(nk); ref r = { { 0 }, { 0 } }, s = { { 0 }, { 0 } };
    {
        map a(sym_param("limit")), b(4); int n = (int)sym_choose(0, 2, "ops");
        for (int i = 0; i < n; i++) { int o = (int)sym_choose(0, 2, "operation"), k = (int)sym_choose(0, nk - 1, "which"); op(a, r, o, k); }
        if (sym_choose(0, 1, "other")) op(b, s, 0, (int)sym_choose(0, nk - 1, "which"));
        int eq = 1; for (int i = 0; i < nk; i++) eq &= r.has[i] == s.has[i] && (!r.has[i] || r.val[i] == s.val[i]);
        sym_assert((a == b) == eq && (b == a) == eq && (a != b) == !eq, "maps are equal when they hold the same"); if (eq) sym_cover("equal"); else sym_cover("different");
        if (how == 0) { map c(a); lookup(c, r, nk); walk(c, r, nk); op(c, s = r, 0, 0); lookup(c, s, nk); lookup(a, r, nk); }
        if (how == 1) { b = a; lookup(b, r, nk); walk(b, r, nk); op(b, s = r, 2, 0); lookup(b, s, nk); lookup(a, r, nk); }
        if (how == 2) { map &self = a; a = self; lookup(a, r, nk); walk(a, r, nk); a = std::move(self); lookup(a, r, nk); }
        if (how == 3) { map c(std::move(a)); lookup(c, r, nk); walk(c, r, nk); }
        if (how == 4) { b = std::move(a); lookup(b, r, nk); walk(b, r, nk); op(b, r, 1, 1); lookup(b, r, nk); }
    }
    sym_assert_no_leaks("a map frees its storage");
}
