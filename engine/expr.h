// Hash-consed bit-vector expression DAG with on-the-fly simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

[[noreturn]] void fatal(const char *fmt, ...);

enum Op : u8 {
    CONST, SYM, CONCAT, EXTRACT, ZEXT, SEXT,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
    AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, TUPLE, NOPS
};
static const char *opnames[] = {
    "const","sym","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem",
    "and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","tuple" };

struct Expr;
typedef const Expr *E;
typedef std::vector<u32> SymSet;

struct Expr {
    u32 dep = 0; // nesting of word operations below
    Op op; uint16_t w; u32 nk; u32 id; u32 aux;  // aux: EXTRACT lo bit / SYM index
    u128 val;       // CONST
    u128 k0, k1;    // known-zero / known-one bits
    int64_t lo, hi; // signed interval (w <= 64)
    E *k;
    const SymSet *syms;
    mutable u32 stamp; mutable u128 ev;
    bool isc() const { return op == CONST; }
};

struct SymInfo { std::string name; int w; bool uninit; };
extern std::vector<SymInfo> g_syms;
extern std::vector<E> g_exprs;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= mask(w);
    return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkSym(const std::string &name, unsigned w, bool uninit);
E mkTuple(const std::vector<E> &ks);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
extern bool g_rawExtract;
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline E mkNot(E e) { return mkBin(XOR, e, mkConst(mask(e->w), e->w)); }
static inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
static inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
static inline E mkUlt(E a, E b) { return mkBin(ULT, a, b); }
static inline E mkUle(E a, E b) { return mkBin(ULE, a, b); }
static inline E mkAdd(E a, E b) { return mkBin(ADD, a, b); }
static inline E mkSub(E a, E b) { return mkBin(SUB, a, b); }
static inline bool isTrue(E e) { return e->isc() && e->val == 1; }
static inline bool isFalse(E e) { return e->isc() && e->val == 0; }

u128 evalOp(Op op, unsigned w, unsigned wk, u128 a, u128 b, unsigned aux);
std::string exprStr(E e, int depth = 4);

struct Model { std::vector<u64> v; u32 uid; };
typedef std::shared_ptr<Model> ModelP;
u128 evalExpr(E e, const Model &m);
