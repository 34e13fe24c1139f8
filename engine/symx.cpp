// symx: symbolic executor for LLVM IR (path exploration, byte-level memory, z3).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <list>
#include <chrono>
#include <sys/resource.h>
#include <sys/mman.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
struct Options {
    std::string bc, entry, out, srcPrefix = "/repo/";
    std::map<std::string, u64> params;
    double maxTime = 600; u64 maxSteps = 3000000; u64 maxPaths = 10000000; unsigned maxViol = 6; unsigned samples = 12;
    unsigned seed = 1; bool checkNsw = true; bool checkShift = true; u64 maxAlloc = 1 << 24; bool verbose = false;
    double stopAfterViol = 20;
} opt;

// ---------------------------------------------------------------- memory objects
enum { RO = 1, HEAP = 2, STACK = 4, GLOBAL = 8, DEAD = 16 };
struct Obj {
    u64 base, size; u32 flags;
    const Instruction *site;
    std::vector<u8> c;           // concrete bytes
    std::vector<E> s;            // symbolic overlay (empty, or per byte; null = concrete)
    std::vector<bool> un;        // uninitialised bytes (empty = none)
};
typedef std::shared_ptr<Obj> ObjP;
static const u64 GLOBAL_BASE = 0x10000000ull, DYN_BASE = 0x7e0000000000ull, FUNC_BASE = 0x400000ull;
static std::map<u64, ObjP> g_globals;

// ---------------------------------------------------------------- functions
struct KFunc;
struct KInst {
    Instruction *I; unsigned op; int dest; std::vector<int> ops; unsigned w = 0; // w: result width
    // GEP
    u64 gepOff = 0; std::vector<std::pair<int, u64>> gepIdx;
    KFunc *callee = nullptr; int intr = 0; u64 size = 0; unsigned align = 1;
    int b0 = -1, b1 = -1;       // branch targets (block index)
    std::vector<unsigned> argAlign;
};
struct KBlock { int first; std::vector<std::pair<int, int>> dummy; };
struct KFunc {
    Function *F; bool compiled = false; bool executed = false; std::vector<KInst> insts; std::vector<int> blockStart; std::vector<BasicBlock *> blocks;
    std::map<BasicBlock *, int> bidx; int nregs = 0; std::vector<E> consts; u64 addr = 0; int intr = 0; std::string name;
    u64 nexec = 0;
};
static std::map<Function *, KFunc *> g_kf;
static std::map<u64, KFunc *> g_fbyaddr;
static Module *M; static const DataLayout *DL; static LLVMContext *CTX;
static std::map<const GlobalValue *, u64> g_gaddr;

// a value that is poison under a condition: reported only where it is used by something that cannot discard it
// (the optimiser may speculate a shift or a count-zeros above the select that guards it)
struct Pois { E cond; const char *msg; Instruction *I; };
struct Frame { std::vector<std::pair<int, Pois>> pois; KFunc *f; int pc; int prevBlock; int curBlock; std::vector<E> regs; std::vector<u64> allocas; int retDest; int retJump; u64 vaArea = 0; std::vector<E> va; };
struct Input { std::string name; char kind; std::vector<E> v; };
struct ObsRec { std::string name; E v; };
struct State {
    std::vector<Frame> st; std::map<u64, ObjP> mem; std::map<u64, ObjP> gmod; u64 bump = DYN_BASE;
    std::vector<E> pc; std::unordered_set<u32> pcset; std::unordered_map<u32, E> known; /* expressions the path condition makes constant */ std::unordered_set<u32> shiftSeen; ModelP model; std::vector<Input> in; std::vector<ObsRec> obs;
    u64 leakBase = 0; u64 steps = 0; int depth = 0; bool dead = false; u64 uninitN = 0; std::string fingerprint;
};

// ---------------------------------------------------------------- results
struct Viol { std::string kind, msg, loc, fn; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; };
static std::vector<Viol> g_viol; static std::map<std::string, int> g_violKeys; static double g_firstViol = 0;
static std::map<std::string, u64> g_covers; static std::map<std::string, u64> g_incomplete; static std::map<std::string, u64> g_assertN;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Sample> g_samples;
static u64 g_paths, g_pathsAssume, g_pathsViol, g_forks, g_instrs, g_memchecks, g_asserts, g_equivNodes, g_equivProved;
static std::vector<State *> work; static double g_t0; static std::set<std::string> g_extern;
static u64 g_rng = 88172645463325252ull;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

static std::string locOf(const Instruction *I)
{
    if (I) if (const DebugLoc &d = I->getDebugLoc()) {
        auto *s = cast<DIScope>(d.getScope());
        return (s->getFilename() + ":" + std::to_string(d.getLine())).str();
    }
    return "?";
}

enum Intr { I_NONE, I_SYM_BYTES, I_SYM_U64, I_SYM_U32, I_SYM_U16, I_SYM_U8, I_CHOOSE, I_ASSUME, I_ASSERT, I_COVER, I_OBS, I_OBSB, I_PARAM, I_CONCRETE, I_EQUIV, I_LEAK, I_END,
    I_MALLOC, I_CALLOC, I_REALLOC, I_FREE, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_NOP, I_NOP0, I_ABORT, I_TRAP, I_MEMCMP, I_STRLEN, I_ISSYM, I_UNREACH, I_NATIVE, I_MEMCHR, I_LEAKBEGIN, I_HINT };
static std::map<std::string, int> g_intr = {
    {"sym_bytes", I_SYM_BYTES}, {"sym_u64", I_SYM_U64}, {"sym_u32", I_SYM_U32}, {"sym_u16", I_SYM_U16}, {"sym_u8", I_SYM_U8},
    {"sym_choose", I_CHOOSE}, {"sym_assume", I_ASSUME}, {"sym_assert", I_ASSERT}, {"sym_cover", I_COVER}, {"sym_observe", I_OBS},
    {"sym_observe_bytes", I_OBSB}, {"sym_param", I_PARAM}, {"sym_concretize", I_CONCRETE}, {"sym_assert_equiv", I_EQUIV}, {"sym_assert_no_leaks", I_LEAK}, {"sym_end", I_END},
    {"sym_is_native", I_NATIVE}, {"sym_is_symbolic", I_ISSYM}, {"sym_u64_hint", I_HINT}, {"sym_leak_begin", I_LEAKBEGIN},
    {"malloc", I_MALLOC}, {"_Znwm", I_MALLOC}, {"_Znam", I_MALLOC}, {"calloc", I_CALLOC}, {"realloc", I_REALLOC},
    {"free", I_FREE}, {"_ZdlPv", I_FREE}, {"_ZdaPv", I_FREE}, {"_ZdlPvm", I_FREE}, {"_ZdaPvm", I_FREE}, {"_ZdlPvSt11align_val_t", I_FREE},
    {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET}, {"__cxa_atexit", I_NOP0},
    {"abort", I_ABORT}, {"exit", I_ABORT}, {"_exit", I_ABORT}, {"__assert_fail", I_ABORT}, {"_ZSt9terminatev", I_ABORT}, {"__cxa_pure_virtual", I_ABORT},
    {"__cxa_throw", I_ABORT}, {"__cxa_allocate_exception", I_ABORT},
};

// ---------------------------------------------------------------- constants
static unsigned tw(Type *t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static KFunc *kfOf(Function *F);
static E constE(const Constant *c);
static u64 gaddr(const GlobalValue *g)
{
    if (auto *F = dyn_cast<Function>(g)) return kfOf(const_cast<Function *>(F))->addr;
    if (auto *A = dyn_cast<GlobalAlias>(g)) { E e = constE(A->getAliasee()); return (u64)e->val; }
    auto it = g_gaddr.find(g);
    if (it == g_gaddr.end()) fatal("no address for global %s", g->getName().str().c_str());
    return it->second;
}
static E constE(const Constant *c)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        const APInt &a = ci->getValue();
        u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
        if (a.getBitWidth() > 128) fatal("wide const");
        return mkConst(v, a.getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return mkConst(a.getRawData()[0], tw(t)); }
    if (auto *g = dyn_cast<GlobalValue>(c)) return mkConst(gaddr(g), 64);
    if (isa<UndefValue>(c) && tw(t)) return mkConst(0, tw(t)); // replaced by a fresh symbol where it is an operand
    if (t->isStructTy() || t->isArrayTy()) {
        std::vector<E> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constE(c->getAggregateElement(i)));
        return mkTuple(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
            return mkAdd(constE(ce->getOperand(0)), mkConst(off.getZExtValue(), 64));
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
            E e = constE(ce->getOperand(0)); unsigned w = tw(t);
            return e->w > w ? mkExtract(e, 0, w) : mkZext(e, w); }
        case Instruction::Trunc: return mkExtract(constE(ce->getOperand(0)), 0, tw(t));
        case Instruction::Add: return mkAdd(constE(ce->getOperand(0)), constE(ce->getOperand(1)));
        case Instruction::Sub: return mkSub(constE(ce->getOperand(0)), constE(ce->getOperand(1)));
        default: fatal("constexpr opcode %s", ce->getOpcodeName());
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fatal("constant %s", s.c_str());
}
static void initBytes(const Constant *c, std::vector<u8> &b, u64 off)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = d->getRawDataValues(); memcpy(&b[off], r.data(), r.size()); return; }
    if (auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), b, off + sl->getElementOffset(i));
        return; }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), b, off + i * es);
        return; }
    E e = constE(c);
    unsigned n = (e->w + 7) / 8;
    for (unsigned i = 0; i < n; i++) b[off + i] = (u8)(e->val >> (8 * i));
}

// ---------------------------------------------------------------- function compilation
static KFunc *kfOf(Function *F)
{
    KFunc *&k = g_kf[F];
    if (!k) {
        k = new KFunc; k->F = F; k->name = F->getName().str();
        k->addr = FUNC_BASE + g_kf.size() * 16; g_fbyaddr[k->addr] = k;
        auto it = g_intr.find(k->name);
        k->intr = it == g_intr.end() ? I_NONE : it->second;
        if (!F->isDeclaration() && k->intr >= I_MALLOC && k->intr != I_ABORT) k->intr = k->intr; // builtin model wins
    }
    return k;
}
static void compileF(KFunc *k)
{
    if (k->compiled) return;
    k->compiled = true;
    std::map<const Value *, int> reg;
    int n = 0;
    for (auto &a : k->F->args()) reg[&a] = n++;
    for (auto &b : *k->F) { k->bidx[&b] = k->blocks.size(); k->blocks.push_back(&b); for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
    k->nregs = n;
    std::map<const Constant *, int> cidx;
    auto opnd = [&](Value *v) -> int {
        if (auto *c = dyn_cast<Constant>(v)) {
            if (isa<UndefValue>(c) && (tw(c->getType()) )) return INT_MIN + (int)tw(c->getType()); // undef of width w
            auto it = cidx.find(c);
            if (it == cidx.end()) { k->consts.push_back(constE(c)); it = cidx.emplace(c, k->consts.size() - 1).first; }
            return -1 - it->second;
        }
        auto it = reg.find(v);
        if (it == reg.end()) return 0; // metadata etc.
        return it->second;
    };
    for (auto &b : *k->F) {
        k->blockStart.push_back(k->insts.size());
        for (auto &i : b) {
            KInst ki; ki.I = &i; ki.op = i.getOpcode();
            ki.dest = i.getType()->isVoidTy() ? -1 : reg[&i];
            ki.w = tw(i.getType());
            switch (ki.op) {
            case Instruction::PHI: { auto *p = cast<PHINode>(&i); for (unsigned j = 0; j < p->getNumIncomingValues(); j++) ki.ops.push_back(opnd(p->getIncomingValue(j))); break; }
            case Instruction::GetElementPtr: {
                auto *g = cast<GEPOperator>(&i);
                ki.ops.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) {
                        ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) ki.gepOff += ci->getSExtValue() * sz;
                        else ki.gepIdx.push_back({opnd(ix), sz});
                    }
                }
                break; }
            case Instruction::Br: { auto *br = cast<BranchInst>(&i); ki.b0 = k->bidx[br->getSuccessor(0)];
                if (br->isConditional()) { ki.ops.push_back(opnd(br->getCondition())); ki.b1 = k->bidx[br->getSuccessor(1)]; } break; }
            case Instruction::Switch: ki.ops.push_back(opnd(cast<SwitchInst>(&i)->getCondition())); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto *cb = cast<CallBase>(&i);
                for (auto &a : cb->args()) ki.ops.push_back(a->getType()->isMetadataTy() ? 0 : opnd(a));
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = const_cast<Constant *>(cast<Constant>(ga->getAliaseeObject()));
                if (auto *F = dyn_cast<Function>(cv)) { ki.callee = kfOf(F); ki.intr = ki.callee->intr; }
                else ki.ops.push_back(opnd(cv));
                if (ki.op == Instruction::Invoke) ki.b0 = k->bidx[cast<InvokeInst>(&i)->getNormalDest()];
                break; }
            case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); ki.size = DL->getTypeAllocSize(a->getAllocatedType()); ki.align = a->getAlign().value(); ki.ops.push_back(opnd(a->getArraySize())); break; }
            default:
                for (auto &o : i.operands()) ki.ops.push_back(isa<BasicBlock>(o) ? 0 : opnd(o));
            }
            k->insts.push_back(std::move(ki));
        }
    }
}

// ---------------------------------------------------------------- state helpers
static void learn(State &s, E c);
static E knownE(State &s, E e) // the constant the path makes e, or e
{
    for (int i = 0; i < 4 && !e->isc(); i++) {
        auto it = s.known.find(e->id); if (it != s.known.end()) { e = it->second; continue; }
        if (e->op != ITE) break;
        it = s.known.find(e->k[0]->id); if (it == s.known.end() || !it->second->isc()) break;
        e = it->second->val ? e->k[1] : e->k[2];
    }
    return e;
}
static void learnEq(State &s, E a, E c, int depth = 0)
{
    if (a->isc() || depth > 8) return;
    s.known[a->id] = c;
    switch (a->op) {
    case ZEXT: if (!(c->val >> a->k[0]->w)) learnEq(s, a->k[0], mkConst(c->val, a->k[0]->w), depth + 1); break;
    case ADD: if (a->k[1]->isc()) learnEq(s, a->k[0], mkSub(c, a->k[1]), depth + 1); else if (a->k[0]->isc()) learnEq(s, a->k[1], mkSub(c, a->k[0]), depth + 1); break;
    case SUB: if (a->k[1]->isc()) learnEq(s, a->k[0], mkAdd(c, a->k[1]), depth + 1); else if (a->k[0]->isc()) learnEq(s, a->k[1], mkSub(a->k[0], c), depth + 1); break;
    case ITE: {
        auto it = s.known.find(a->k[0]->id);
        if (it != s.known.end() && it->second->isc()) learnEq(s, it->second->val ? a->k[1] : a->k[2], c, depth + 1);
        else if (a->k[1]->isc() && a->k[1] != c) { learn(s, mkNot(a->k[0])); learnEq(s, a->k[2], c, depth + 1); }
        else if (a->k[2]->isc() && a->k[2] != c) { learn(s, a->k[0]); learnEq(s, a->k[1], c, depth + 1); }
        break; }
    default: break;
    }
}
static void learn(State &s, E c) // c holds on this path
{
    if (c->isc()) return;
    if (c->op == AND && c->w == 1) { learn(s, c->k[0]); learn(s, c->k[1]); }
    if (c->op == EQ && c->w == 1) { if (c->k[1]->isc()) learnEq(s, c->k[0], c->k[1]); else if (c->k[0]->isc()) learnEq(s, c->k[1], c->k[0]);
        else { E x = c->k[0], y = c->k[1]; if (x->id < y->id) std::swap(x, y); if (x->w > 1 && !s.known.count(x->id)) s.known[x->id] = y; } } // two names for one value: keep the older one
    s.known[c->id] = mkTrue();
    E n = mkNot(c); if (!n->isc()) s.known[n->id] = mkFalse();
}
static void addPC(State &s, E c)
{
    if (c->isc()) { if (!c->val) fatal("adding false to the path condition"); return; }
    learn(s, c);
    if (c->op == AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    if (s.pcset.insert(c->id).second) s.pc.push_back(c);
}
static bool hasUninit(E e) { for (u32 i : *e->syms) if (g_syms[i].uninit) return true; return false; }

static std::string hexOf(E e, const Model &m, unsigned bytes)
{
    u128 v = evalExpr(e, m); std::string s; char b[4];
    for (unsigned i = 0; i < bytes; i++) { snprintf(b, 4, "%02x", (unsigned)(u8)(v >> (8 * i))); s += b; }
    return s;
}
static std::vector<std::pair<std::string, std::string>> inputsOf(State &s, const Model &m)
{
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &i : s.in) {
        std::string h;
        for (E e : i.v) h += hexOf(e, m, (e->w + 7) / 8);
        r.push_back({i.name, h});
    }
    return r;
}
static void violation(State &s, const ModelP &m, const std::string &kind, const std::string &msg, const Instruction *I)
{
    Viol v; v.kind = kind; v.msg = msg; v.loc = locOf(I);
    v.fn = I ? I->getFunction()->getName().str() : "";
    // attribute library-stub sites to the innermost frame that is not a stub
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
        const Instruction *fi = s.st[i].f->insts[s.st[i].pc].I;
        v.stack.push_back(s.st[i].f->name + " " + locOf(fi));
    }
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : v.loc);
    if (!g_firstViol) g_firstViol = now();
    if (g_violKeys[key]++ >= 4) return;
    v.inputs = inputsOf(s, *m);
    g_viol.push_back(v);
}
static void incomplete(const std::string &why) { g_incomplete[why]++; }

static State *fork(State &s) { g_forks++; State *n = new State(s); n->depth++; return n; }

// assert that c holds; reports a violation (with model) when it can fail. returns false when the path cannot continue
static bool requireHold(State &s, E c, const char *kind, const std::string &msg, const Instruction *I)
{
    if (isTrue(c)) return true;
    E nc = mkNot(c); ModelP m;
    SolveRes r = solve(s.pc, nc, s.model, &m);
    if (r == UNSAT) { learn(s, c); return true; }
    if (r == UNKNOWN) { incomplete(std::string("solver gave no answer (") + kind + ")"); }
    else violation(s, m, kind, msg, I);
    // continue where it holds
    ModelP m2; SolveRes r2 = solve(s.pc, c, s.model, &m2);
    if (r2 == SAT) { s.model = m2; addPC(s, c); return true; }
    if (r2 == UNKNOWN) incomplete("solver gave no answer (continuation)");
    return false;
}

static ObjP *findObj(State &s, u64 a)
{
    if (a >= DYN_BASE) {
        auto it = s.mem.upper_bound(a);
        if (it == s.mem.begin()) return nullptr;
        --it;
        if (a - it->second->base > it->second->size + 4096) return nullptr;
        return &it->second;
    }
    auto it = g_globals.upper_bound(a);
    if (it == g_globals.begin()) return nullptr;
    --it;
    if (a - it->second->base > it->second->size + 4096) return nullptr;
    auto g = s.gmod.find(it->first);
    return g != s.gmod.end() ? &g->second : &it->second;
}
static Obj &writable(State &s, ObjP *p)
{
    Obj *o = p->get();
    if (o->base < DYN_BASE && !s.gmod.count(o->base)) { ObjP n = std::make_shared<Obj>(*o); return *(s.gmod[o->base] = n); }
    if (p->use_count() > 1) { *p = std::make_shared<Obj>(*o); }
    return **p;
}
static u64 allocObj(State &s, u64 size, u64 align, u32 flags, const Instruction *site, bool zero)
{
    if (align < 16) align = 16;
    u64 a = (s.bump + align - 1) & ~(align - 1);
    ObjP o = std::make_shared<Obj>();
    o->base = a; o->size = size; o->flags = flags; o->site = site; o->c.assign(size, 0);
    if (!zero) o->un.assign(size, true);
    s.bump = a + size + 65536; s.bump = (s.bump + 4095) & ~4095ull;
    s.mem[a] = o;
    return a;
}
static inline E byteAt(State &s, ObjP *p, u64 i)
{
    Obj &o = **p;
    if (!o.un.empty() && o.un[i]) {
        Obj &w = writable(s, p);
        E e = mkSym("uninit", 8, true);
        if (w.s.empty()) w.s.assign(w.size, nullptr);
        w.s[i] = e; w.un[i] = false;
        return e;
    }
    if (!o.s.empty() && o.s[i]) return o.s[i];
    return mkConst(o.c[i], 8);
}
static void setByte(Obj &o, u64 i, E e)
{
    if (!o.un.empty()) o.un[i] = false;
    if (e->isc()) { o.c[i] = (u8)e->val; if (!o.s.empty()) o.s[i] = nullptr; }
    else { if (o.s.empty()) o.s.assign(o.size, nullptr); o.s[i] = e; }
}
static E readAt(State &s, ObjP *p, u64 off, unsigned n)
{
    Obj &o = **p;
    if (n <= 16 && o.s.empty() && o.un.empty()) {
        u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o.c[off + i] << (8 * i);
        return mkConst(v, 8 * n);
    }
    E r = nullptr;
    bool conc = true;
    if (!o.un.empty()) for (unsigned i = 0; i < n && conc; i++) if (o.un[off + i]) conc = false;
    if (conc && !o.s.empty()) for (unsigned i = 0; i < n && conc; i++) if (o.s[off + i]) conc = false;
    if (conc && n <= 16) { u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o.c[off + i] << (8 * i); return mkConst(v, 8 * n); }
    g_rawExtract = true;
    for (unsigned i = 0; i < n; i++) { E b = byteAt(s, p, off + i); r = r ? mkConcat(b, r) : b; }
    g_rawExtract = false;
    if (r->op == EXTRACT) r = mkExtract(r->k[0], r->aux, r->w);
    return r;
}
static E muxTree(std::vector<E> &leaf, size_t lo, size_t n, E off, unsigned bit)
{
    if (lo >= leaf.size() || !leaf[lo]) {
        if (n == 1 || lo >= leaf.size()) return nullptr;
    }
    if (n == 1) return leaf[lo];
    size_t h = n / 2;
    if (off->k0 >> bit & 1) return muxTree(leaf, lo, h, off, bit - 1);
    E a = muxTree(leaf, lo, h, off, bit - 1), b = muxTree(leaf, lo + h, h, off, bit - 1);
    if (!a) return b;
    if (!b) return a;
    return mkIte(mkExtract(off, bit, 1), b, a);
}

// Resolve an access of n bytes at addr. Returns object and offset; null when the state must be abandoned or re-executed.
struct Res { ObjP *o; E off; bool again; };
static const Res FAIL = { nullptr, nullptr, false };
static Res resolve(State &s, E addr, u64 n, bool wr, const Instruction *I)
{
    const char *what = wr ? "write" : "read";
    if (addr->isc()) {
        u64 a = (u64)addr->val;
        ObjP *p = findObj(s, a);
        char buf[200];
        auto fail = [&](const char *kind, const char *fmt, auto... args) { snprintf(buf, sizeof buf, fmt, args...); violation(s, s.model, kind, buf, I); s.dead = true; return FAIL; };
        if (a < 4096) return fail("memory", "null pointer %s", what);
        if (!p) return fail("memory", "invalid pointer %s", what);
        Obj &o = **p;
        if (o.flags & DEAD) return fail("memory", "use after free (%s)", what);
        if (a - o.base + n > o.size) return fail("memory", "out-of-bounds %s", what);
        if (wr && (o.flags & RO)) return fail("memory", "write to read-only object%s", "");
        return { p, mkConst(a - o.base, 64), false };
    }
    g_memchecks++;
    if (hasUninit(addr)) { violation(s, s.model, "uninit", "address depends on an uninitialised value", I); s.dead = true; return FAIL; }
    u64 a = (u64)evalExpr(addr, *s.model);
    ObjP *p = findObj(s, a);
    bool ok = p && !((*p)->flags & DEAD) && a - (*p)->base + n <= (*p)->size && n <= (*p)->size;
    if (!ok) {
        // the current model already escapes every object
        char buf[100]; snprintf(buf, sizeof buf, a < 4096 ? "null pointer %s" : p && ((*p)->flags & DEAD) ? "use after free (%s)" : "out-of-bounds %s", what);
        violation(s, s.model, "memory", buf, I);
        // continue with addresses that are inside the object nearest to this address
        if (p && !((*p)->flags & DEAD) && n <= (*p)->size) {
            E off = mkSub(addr, mkConst((*p)->base, 64));
            E inb = mkUle(off, mkConst((*p)->size - n, 64));
            ModelP m;
            if (solve(s.pc, inb, s.model, &m) == SAT) { s.model = m; addPC(s, inb); return { nullptr, nullptr, true }; }
        }
        s.dead = true; return FAIL;
    }
    u64 base = (*p)->base;
    E off = mkSub(addr, mkConst(base, 64));
    E inb = mkUle(off, mkConst((*p)->size - n, 64));
    ModelP m;
    SolveRes r = solve(s.pc, mkNot(inb), s.model, &m);
    if (r == UNKNOWN) { incomplete("solver gave no answer (bounds)"); }
    if (r == SAT) {
        State *t = fork(s); t->model = m; addPC(*t, mkNot(inb)); work.push_back(t);
    }
    if (r != UNSAT) { addPC(s, inb); }
    p = findObj(s, base);
    if (wr && ((*p)->flags & RO)) { violation(s, s.model, "memory", "write to read-only object", I); s.dead = true; return FAIL; }
    return { p, off, false };
}

// make e concrete by forking over all its values; returns true when e is constant, else state (and clones) must re-execute
static bool concretize(State &s, E e, E *out, unsigned limit = 4096)
{
    if (e->isc()) { *out = e; return true; }
    u128 v = evalExpr(e, *s.model);
    E eq = mkEq(e, mkConst(v, e->w));
    ModelP m;
    SolveRes r = solve(s.pc, mkNot(eq), s.model, &m);
    if (r == UNKNOWN) incomplete("solver gave no answer (concretise)");
    if (r == SAT) { State *t = fork(s); t->model = m; addPC(*t, mkNot(eq)); work.push_back(t); }
    if (r != UNSAT) addPC(s, eq); else learn(s, eq);
    *out = mkConst(v, e->w);
    return true;
}

static bool doStore(State &s, E addr, E val, u64 nbytes, const Instruction *I, bool *again)
{
    Res r = resolve(s, addr, nbytes, true, I);
    if (!r.o) { *again = r.again; return false; }
    if (!r.off->isc() && (*r.o)->size > 2048) {
        E c; concretize(s, r.off, &c); r.off = c; r.o = findObj(s, (*r.o)->base);
    }
    Obj *before = r.o->get(); u64 base = before->base;
    if (r.off->isc()) {
        Obj &o = writable(s, r.o); u64 off = (u64)r.off->val;
        g_rawExtract = true;
        for (u64 i = 0; i < nbytes; i++) setByte(o, off + i, mkExtract(val, 8 * i, 8));
        g_rawExtract = false;
        return true;
    }
    u64 sz = before->size;
    unsigned st = 1; while (st < 8 && (r.off->k0 >> (__builtin_ctz(st)) & 1)) st <<= 1; // alignment of the offset
    u64 maxoff = (u64)(~r.off->k0 & mask(64));
    std::vector<E> nv(sz, nullptr);
    for (u64 o = 0; o + nbytes <= sz && o <= maxoff; o += st) {
        if (o & (u64)r.off->k0) continue;
        E c = mkEq(r.off, mkConst(o, 64));
        if (isFalse(c)) continue;
        for (u64 i = 0; i < nbytes; i++) {
            if (!nv[o + i]) nv[o + i] = byteAt(s, findObj(s, base), o + i);
            nv[o + i] = mkIte(c, mkExtract(val, 8 * i, 8), nv[o + i]);
        }
    }
    Obj &w = writable(s, findObj(s, base));
    for (u64 i = 0; i < sz; i++) if (nv[i]) setByte(w, i, nv[i]);
    return true;
}
static E doLoad(State &s, E addr, u64 nbytes, const Instruction *I, bool *again)
{
    Res r = resolve(s, addr, nbytes, false, I);
    if (!r.o) { *again = r.again; return nullptr; }
    u64 base = (*r.o)->base;
    if (r.off->isc()) return readAt(s, r.o, (u64)r.off->val, nbytes);
    u64 sz = (*r.o)->size;
    if (sz > 65536) { E c; concretize(s, r.off, &c); return readAt(s, findObj(s, base), (u64)c->val, nbytes); }
    size_t n = 1; unsigned bits = 0; while (n < sz) { n <<= 1; bits++; }
    std::vector<E> leaf(sz, nullptr);
    u64 k0 = (u64)r.off->k0, k1 = (u64)r.off->k1; u64 maxoff = ~k0;
    for (u64 o = 0; o + nbytes <= sz && o <= maxoff; o++) {
        if ((o & k0) || (~o & k1)) continue;
        leaf[o] = readAt(s, findObj(s, base), o, nbytes);
    }
    E e = muxTree(leaf, 0, n, r.off, bits ? bits - 1 : 0);
    if (!e) fatal("empty mux");
    return e;
}

static E getOp(State &s, Frame &f, int o)
{
    if (o >= 0) {
        E e = f.regs[o];
        if (e && !e->isc() && !s.known.empty()) return knownE(s, e);
        return e;
    }
    if (o < INT_MIN + 1024) return mkSym("undef", o - INT_MIN, true);
    return f.f->consts[-1 - o];
}

static E loadTy(State &s, E addr, Type *t, const Instruction *I, bool *again)
{
    if (unsigned w = tw(t)) {
        unsigned n = (w + 7) / 8;
        E e = doLoad(s, addr, n, I, again);
        if (!e) return nullptr;
        return e->w == w ? e : mkExtract(e, 0, w);
    }
    std::vector<E> v;
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            E e = loadTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), I, again);
            if (!e) return nullptr; v.push_back(e); }
        return mkTuple(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) {
            E e = loadTy(s, mkAdd(addr, mkConst(es * i, 64)), at->getElementType(), I, again);
            if (!e) return nullptr; v.push_back(e); }
        return mkTuple(v);
    }
    incomplete("unsupported load type"); s.dead = true; return nullptr;
}
static bool storeTy(State &s, E addr, E val, Type *t, const Instruction *I, bool *again)
{
    if (unsigned w = tw(t)) {
        unsigned n = (w + 7) / 8;
        return doStore(s, addr, w == n * 8 ? val : mkZext(val, n * 8), n, I, again);
    }
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            if (!storeTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), val->k[i], st->getElementType(i), I, again)) return false;
        return true;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++)
            if (!storeTy(s, mkAdd(addr, mkConst(es * i, 64)), val->k[i], at->getElementType(), I, again)) return false;
        return true;
    }
    incomplete("unsupported store type"); s.dead = true; return false;
}

static std::string cstr(State &s, E p)
{
    std::string r;
    if (!p->isc()) return "?";
    ObjP *o = findObj(s, (u64)p->val);
    if (!o) return "?";
    for (u64 i = (u64)p->val - (*o)->base; i < (*o)->size; i++) { E b = byteAt(s, o, i); if (!b->isc() || !b->val) break; r += (char)b->val; }
    return r;
}

static void pathDone(State &s)
{
    g_paths++;
    // sampled paths are replayed natively: pick by reservoir
    bool bad = false;
    for (auto &o : s.obs) if (hasUninit(o.v)) bad = true;
    if (bad) return;
    size_t slot;
    if (g_samples.size() < opt.samples) { slot = g_samples.size(); g_samples.emplace_back(); }
    else { slot = rnd() % g_paths; if (slot >= opt.samples) return; }
    // randomise unconstrained inputs
    ModelP m = newModel(); m->v = s.model->v;
    SymSet used;
    for (E c : s.pc) { SymSet u; std::set_union(used.begin(), used.end(), c->syms->begin(), c->syms->end(), std::back_inserter(u)); used.swap(u); }
    for (auto &i : s.in) for (E e : i.v) if (e->op == SYM && !std::binary_search(used.begin(), used.end(), e->aux)) {
        if (m->v.size() <= e->aux) m->v.resize(e->aux + 1, 0);
        m->v[e->aux] = rnd(); }
    // try random perturbation of constrained inputs as well
    for (int t = 0; t < 8; t++) {
        ModelP m2 = newModel(); m2->v = m->v;
        for (auto &i : s.in) for (E e : i.v) if (e->op == SYM && (rnd() & 1)) { if (m2->v.size() <= e->aux) m2->v.resize(e->aux + 1, 0); m2->v[e->aux] = (rnd() & 3) ? rnd() : rnd() & 0xff; }
        bool ok = true;
        for (E c : s.pc) if (!evalExpr(c, *m2)) { ok = false; break; }
        if (ok) { m = m2; break; }
    }
    for (E c : s.pc) if (!evalExpr(c, *m)) fatal("path model does not satisfy the path condition");
    Sample sm; sm.inputs = inputsOf(s, *m);
    for (auto &o : s.obs) sm.obs.push_back({o.name, hexOf(o.v, *m, (o.v->w + 7) / 8)});
    g_samples[slot] = sm;
}

// ---------------------------------------------------------------- calls
static void popFrame(State &s)
{
    Frame &f = s.st.back();
    for (u64 a : f.allocas) s.mem.erase(a);
    if (f.vaArea) s.mem.erase(f.vaArea);
    s.st.pop_back();
}
static Pois *findPois(Frame &f, int r) { for (auto &p : f.pois) if (p.first == r) return &p.second; return nullptr; }
static void dropPois(Frame &f, int r) { for (size_t i = 0; i < f.pois.size(); i++) if (f.pois[i].first == r) { f.pois.erase(f.pois.begin() + i); return; } }
static void jump(State &s, Frame &f, int b)
{
    f.prevBlock = f.curBlock; f.curBlock = b;
    KFunc *k = f.f; int i = k->blockStart[b];
    // phis, simultaneously
    BasicBlock *pb = k->blocks[f.prevBlock];
    int n = i; std::vector<std::pair<int, E>> vals; std::vector<std::pair<int, Pois>> pv;
    while (k->insts[n].op == Instruction::PHI) {
        auto *p = cast<PHINode>(k->insts[n].I);
        int ix = p->getBasicBlockIndex(pb), o = k->insts[n].ops[ix];
        vals.push_back({k->insts[n].dest, getOp(s, f, o)});
        if (o >= 0) if (Pois *q = findPois(f, o)) pv.push_back({k->insts[n].dest, *q});
        n++;
    }
    for (auto &v : vals) { f.regs[v.first] = v.second; dropPois(f, v.first); }
    for (auto &v : pv) f.pois.push_back(v);
    f.pc = n;
}
static void pushFrame(State &s, KFunc *k, const std::vector<E> &args, int retDest, int retJump)
{
    compileF(k); k->executed = true; k->nexec++;
    s.st.emplace_back();
    Frame &f = s.st.back();
    f.f = k; f.retDest = retDest; f.retJump = retJump; f.regs.assign(k->nregs, nullptr); f.prevBlock = -1; f.curBlock = 0; f.pc = 0;
    unsigned na = k->F->arg_size();
    for (unsigned i = 0; i < na; i++) f.regs[i] = args[i];
    for (unsigned i = na; i < args.size(); i++) f.va.push_back(args[i]);
}

#include "equiv.inc"

static Pois g_callPois; // poison of an intrinsic's result
static void finishCall(State &s, KInst &ki, E ret)
{
    Frame &f = s.st.back();
    if (ki.dest >= 0) { f.regs[ki.dest] = ret ? ret : mkConst(0, ki.w ? ki.w : 1); dropPois(f, ki.dest); if (g_callPois.cond) { f.pois.push_back({ki.dest, g_callPois}); g_callPois.cond = nullptr; } }
    if (ki.op == Instruction::Invoke) jump(s, f, ki.b0); else f.pc++;
}

static bool copyMem(State &s, E dst, E src, E n, bool move, const Instruction *I, bool *again)
{
    E nc; concretize(s, n, &nc);
    u64 len = (u64)nc->val;
    if (!len) return true;
    if (len > opt.maxAlloc) {
        violation(s, s.model, "memory", "copy length exceeds every object", I); s.dead = true; return false; }
    Res a = resolve(s, src, len, false, I);
    if (!a.o) { *again = a.again; return false; }
    E so = a.off; u64 sb = (*a.o)->base; unsigned sz = (*a.o)->size;
    std::vector<E> tmp(len);
    if (so->isc()) { for (u64 i = 0; i < len; i++) {
            // uninitialised bytes are copied as such
            ObjP *p = findObj(s, sb); u64 k = (u64)so->val + i;
            if (!(*p)->un.empty() && (*p)->un[k]) tmp[i] = nullptr; else tmp[i] = byteAt(s, p, k); } }
    else for (u64 i = 0; i < len; i++) { (void)sz; bool ag = false; tmp[i] = doLoad(s, mkAdd(src, mkConst(i, 64)), 1, I, &ag); if (!tmp[i]) { *again = ag; return false; } }
    Res d = resolve(s, dst, len, true, I);
    if (!d.o) { *again = d.again; return false; }
    if (d.off->isc()) {
        u64 db = (*d.o)->base;
        if (!move && db == sb && so->isc()) { u64 x = (u64)so->val, y = (u64)d.off->val; if (x != y && x < y + len && y < x + len) { violation(s, s.model, "memory", "memcpy with overlapping regions", I); } }
        Obj &w = writable(s, d.o);
        for (u64 i = 0; i < len; i++) { u64 k = (u64)d.off->val + i; if (tmp[i]) setByte(w, k, tmp[i]); else { if (w.un.empty()) w.un.assign(w.size, false); w.un[k] = true; if (!w.s.empty()) w.s[k] = nullptr; } }
    } else {
        for (u64 i = 0; i < len; i++) { bool ag = false; E v = tmp[i] ? tmp[i] : mkSym("uninit", 8, true); if (!doStore(s, mkAdd(dst, mkConst(i, 64)), v, 1, I, &ag)) { *again = ag; return false; } }
    }
    return true;
}

static void doCall(State &s, KInst &ki, KFunc *cal, std::vector<E> &args)
{
    Instruction *I = ki.I;
    bool again = false;
    auto fin = [&](E r) { finishCall(s, ki, r); };
    auto u64c = [](u64 v) { return mkConst(v, 64); };
    int in = cal->intr;
    switch (in) {
    case I_NONE: break;
    case I_NATIVE: return fin(mkConst(0, 32));
    case I_ISSYM: return fin(mkConst(!args[0]->isc(), 32));
    case I_SYM_U64: case I_SYM_U32: case I_SYM_U16: case I_SYM_U8: {
        unsigned w = in == I_SYM_U64 ? 64 : in == I_SYM_U32 ? 32 : in == I_SYM_U16 ? 16 : 8;
        std::string nm = cstr(s, args[0]);
        E e = mkSym(nm, w, false); s.in.push_back({nm, 'u', {e}});
        return fin(e); }
    case I_HINT: { // a fresh value, with the value it takes in the current model (saves the solver a search)
        std::string nm = cstr(s, args[0]); u64 v = (u64)evalExpr(args[1], *s.model);
        E e = mkSym(nm, 64, false); s.in.push_back({nm, 'u', {e}});
        ModelP m = newModel(); m->v = s.model->v; if (m->v.size() <= e->aux) m->v.resize(e->aux + 1, 0); m->v[e->aux] = v; s.model = m;
        return fin(e); }
    case I_SYM_BYTES: {
        std::string nm = cstr(s, args[2]);
        if (!args[1]->isc()) fatal("sym_bytes with symbolic size");
        u64 n = (u64)args[1]->val; Input inp; inp.name = nm; inp.kind = 'b';
        if (n) {
            Res r = resolve(s, args[0], n, true, I); if (!r.o) return;
            Obj &w = writable(s, r.o);
            for (u64 i = 0; i < n; i++) { E e = mkSym(nm + "[" + std::to_string(i) + "]", 8, false); inp.v.push_back(e); setByte(w, (u64)r.off->val + i, e); }
        }
        s.in.push_back(inp);
        return fin(nullptr); }
    case I_CHOOSE: {
        u64 lo = (u64)args[0]->val, hi = (u64)args[1]->val;
        std::string nm = cstr(s, args[2]);
        if (!args[0]->isc() || !args[1]->isc()) fatal("sym_choose with symbolic range");
        for (u64 v = hi; v > lo; v--) { State *t = fork(s); t->in.push_back({nm, 'u', {u64c(v)}}); finishCall(*t, ki, u64c(v)); work.push_back(t); }
        s.in.push_back({nm, 'u', {u64c(lo)}});
        return fin(u64c(lo)); }
    case I_PARAM: {
        std::string nm = cstr(s, args[0]); auto it = opt.params.find(nm);
        if (it == opt.params.end()) fatal("parameter %s not given", nm.c_str());
        return fin(u64c(it->second)); }
    case I_ASSUME: {
        E c = mkNe(args[0], mkConst(0, args[0]->w));
        if (hasUninit(c)) { violation(s, s.model, "uninit", "assumption depends on an uninitialised value", I); s.dead = true; return; }
        if (isTrue(c)) return fin(nullptr);
        ModelP m; SolveRes r = solve(s.pc, c, s.model, &m);
        if (r == UNKNOWN) incomplete("solver gave no answer (assume)");
        if (r != SAT) { g_pathsAssume++; s.dead = true; return; }
        s.model = m; addPC(s, c); return fin(nullptr); }
    case I_ASSERT: {
        E c = mkNe(args[0], mkConst(0, args[0]->w));
        std::string msg = cstr(s, args[1]);
        g_asserts++; g_assertN[msg]++;
        if (hasUninit(c)) {
            ModelP m; if (solve(s.pc, mkNot(c), s.model, &m) == SAT) { violation(s, m, "uninit", "assertion depends on an uninitialised value: " + msg, I); s.dead = true; return; } }
        if (!requireHold(s, c, "assert", msg, I)) { s.dead = true; g_pathsViol++; return; }
        return fin(nullptr); }
    case I_COVER: g_covers[cstr(s, args[0])]++; return fin(nullptr);
    case I_OBS: s.obs.push_back({cstr(s, args[0]), args[1]}); return fin(nullptr);
    case I_OBSB: {
        E nc; concretize(s, args[2], &nc); u64 n = (u64)nc->val; std::string nm = cstr(s, args[0]);
        for (u64 i = 0; i < n; i++) { E e = doLoad(s, mkAdd(args[1], u64c(i)), 1, I, &again); if (!e) return; s.obs.push_back({nm, e}); }
        return fin(nullptr); }
    case I_CONCRETE: { E c; concretize(s, args[0], &c); return fin(c); }
    case I_EQUIV: {
        std::string msg = cstr(s, args[3]); u64 n = (u64)args[2]->val;
        g_asserts++; g_assertN[msg]++;
        std::vector<E> a, b;
        for (u64 i = 0; i < n; i++) { E x = doLoad(s, mkAdd(args[0], u64c(i)), 1, I, &again), y = x ? doLoad(s, mkAdd(args[1], u64c(i)), 1, I, &again) : nullptr; if (!y) return; a.push_back(x); b.push_back(y); }
        if (!sweepEquiv(s, a, b, msg, I)) { s.dead = true; return; }
        return fin(nullptr); }
    case I_LEAKBEGIN: s.leakBase = s.bump; return fin(nullptr);
    case I_LEAK: {
        std::string msg = cstr(s, args[0]);
        g_asserts++; g_assertN[msg]++;
        for (auto &p : s.mem) if (p.first >= s.leakBase && (p.second->flags & HEAP) && !(p.second->flags & DEAD)) {
            violation(s, s.model, "assert", msg, I); break; }
        return fin(nullptr); }
    case I_MALLOC: case I_CALLOC: {
        E sz = in == I_CALLOC ? mkBin(MUL, args[0], args[1]) : args[0];
        E c; 
        if (!sz->isc()) { // huge request cannot be modelled: allocation failure is outside the model
            E small = mkUle(sz, u64c(opt.maxAlloc)); ModelP m;
            SolveRes r = solve(s.pc, mkNot(small), s.model, &m);
            if (r == SAT) { violation(s, m, "alloc", "allocation size not bounded by the input", I);
                ModelP m2; if (solve(s.pc, small, s.model, &m2) != SAT) { s.dead = true; return; } s.model = m2; addPC(s, small); }
        }
        concretize(s, sz, &c);
        if ((u64)c->val > opt.maxAlloc) { violation(s, s.model, "alloc", "allocation too large", I); s.dead = true; return; }
        u64 a = allocObj(s, (u64)c->val, 16, HEAP, I, in == I_CALLOC);
        return fin(u64c(a)); }
    case I_REALLOC: {
        E pc, c; concretize(s, args[0], &pc); concretize(s, args[1], &c);
        u64 p = (u64)pc->val, n = (u64)c->val;
        if (n > opt.maxAlloc) { violation(s, s.model, "alloc", "allocation too large", I); s.dead = true; return; }
        u64 a = allocObj(s, n, 16, HEAP, I, false);
        if (p) {
            ObjP *o = findObj(s, p);
            if (!o || (*o)->base != p || !((*o)->flags & HEAP) || ((*o)->flags & DEAD)) { violation(s, s.model, "memory", "realloc of an invalid pointer", I); s.dead = true; return; }
            Obj *src = o->get(); ObjP *np = findObj(s, a); Obj &d = **np;
            u64 k = std::min(n, src->size);
            if (!src->s.empty()) { d.s.assign(d.size, nullptr); for (u64 i = 0; i < k; i++) d.s[i] = src->s[i]; }
            for (u64 i = 0; i < k; i++) { d.c[i] = src->c[i]; d.un[i] = src->un.empty() ? false : (bool)src->un[i]; }
            ObjP dead = std::make_shared<Obj>(); dead->base = p; dead->size = src->size; dead->flags = HEAP | DEAD; dead->site = I;
            *findObj(s, p) = dead;
        }
        return fin(u64c(a)); }
    case I_FREE: {
        E pc; concretize(s, args[0], &pc); u64 p = (u64)pc->val;
        if (p) {
            ObjP *o = findObj(s, p);
            if (!o || (*o)->base != p || !((*o)->flags & HEAP)) { violation(s, s.model, "memory", "free of an invalid pointer", I); s.dead = true; return; }
            if ((*o)->flags & DEAD) { violation(s, s.model, "memory", "double free", I); s.dead = true; return; }
            ObjP dead = std::make_shared<Obj>(); dead->base = p; dead->size = (*o)->size; dead->flags = HEAP | DEAD; dead->site = I;
            *o = dead;
        }
        return fin(nullptr); }
    case I_MEMCPY: case I_MEMMOVE:
        if (!copyMem(s, args[0], args[1], args[2], in == I_MEMMOVE, I, &again)) return;
        return fin(args[0]);
    case I_MEMSET: {
        E nc; concretize(s, args[2], &nc); u64 n = (u64)nc->val;
        if (n > opt.maxAlloc) { violation(s, s.model, "memory", "fill length exceeds every object", I); s.dead = true; return; }
        if (n) {
            Res r = resolve(s, args[0], n, true, I); if (!r.o) return;
            E v = mkExtract(args[1], 0, 8);
            if (r.off->isc()) { Obj &w = writable(s, r.o); for (u64 i = 0; i < n; i++) setByte(w, (u64)r.off->val + i, v); }
            else for (u64 i = 0; i < n; i++) if (!doStore(s, mkAdd(args[0], u64c(i)), v, 1, I, &again)) return;
        }
        return fin(args[0]); }
    case I_NOP0: return fin(ki.w ? mkConst(0, ki.w) : nullptr);
    case I_END: s.dead = true; pathDone(s); return;
    case I_ABORT: violation(s, s.model, "abort", "call of " + cal->name, I); s.dead = true; return;
    }
    // LLVM intrinsics
    if (auto *ii = dyn_cast<IntrinsicInst>(I)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::vaend:
            return fin(ki.w ? mkConst(0, ki.w) : nullptr);
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return fin(args[0]);
        case Intrinsic::memcpy: case Intrinsic::memmove: {
            bool mv = ii->getIntrinsicID() == Intrinsic::memmove;
            if (!copyMem(s, args[0], args[1], args[2], true | mv, I, &again)) return;
            return fin(nullptr); }
        case Intrinsic::memset: {
            E nc; concretize(s, args[2], &nc); u64 n = (u64)nc->val;
            if (n > opt.maxAlloc) { violation(s, s.model, "memory", "fill length exceeds every object", I); s.dead = true; return; }
            if (n) { Res r = resolve(s, args[0], n, true, I); if (!r.o) return;
                E v = mkExtract(args[1], 0, 8);
                if (r.off->isc()) { Obj &w = writable(s, r.o); for (u64 i = 0; i < n; i++) setByte(w, (u64)r.off->val + i, v); }
                else for (u64 i = 0; i < n; i++) if (!doStore(s, mkAdd(args[0], u64c(i)), v, 1, I, &again)) return; }
            return fin(nullptr); }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            E x = args[0]; unsigned w = x->w; bool lz = ii->getIntrinsicID() == Intrinsic::ctlz;
            E r = mkConst(w, w);
            if (isTrue(args[1])) { E z = mkEq(x, mkConst(0, w)); ModelP m;
                if (!isFalse(z)) { SolveRes zr = solve(s.pc, z, s.model, &m); if (zr == UNKNOWN) incomplete("solver gave no answer (ub)"); if (zr == SAT) g_callPois = Pois{z, "count of the zero bits of zero", I}; } }
            // priority chain as a balanced tree: count = tree over halves
            if ((w & (w - 1)) == 0) {
                E cur = x, cnt = mkConst(0, w); unsigned h = w / 2;
                while (h) {
                    E hi = mkExtract(cur, h, h), lo = mkExtract(cur, 0, h);
                    E z = mkEq(lz ? hi : lo, mkConst(0, h));
                    cnt = mkAdd(cnt, mkIte(z, mkConst(h, w), mkConst(0, w)));
                    cur = mkIte(z, lz ? lo : hi, lz ? hi : lo);
                    h /= 2;
                }
                r = mkIte(mkEq(x, mkConst(0, w)), mkConst(w, w), cnt);
            } else for (unsigned i = 0; i < w; i++) { unsigned b = lz ? i : w - 1 - i; r = mkIte(mkExtract(x, b, 1), mkConst(lz ? w - 1 - b : b, w), r); }
            return fin(r); }
        case Intrinsic::ctpop: { E x = args[0]; unsigned w = x->w; E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), w)); return fin(r); }
        case Intrinsic::bswap: { E x = args[0]; E r = mkExtract(x, 0, 8); for (unsigned i = 1; i < x->w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); return fin(r); }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned w = args[0]->w; E sh = mkBin(UREM, args[2], mkConst(w, w)); E wide = mkConcat(args[0], args[1]); E sw = mkZext(sh, 2 * w);
            return fin(ii->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkBin(SHL, wide, sw), w, w) : mkExtract(mkBin(LSHR, wide, sw), 0, w)); }
        case Intrinsic::umax: return fin(mkIte(mkUlt(args[0], args[1]), args[1], args[0]));
        case Intrinsic::umin: return fin(mkIte(mkUlt(args[0], args[1]), args[0], args[1]));
        case Intrinsic::smax: return fin(mkIte(mkBin(SLT, args[0], args[1]), args[1], args[0]));
        case Intrinsic::smin: return fin(mkIte(mkBin(SLT, args[0], args[1]), args[0], args[1]));
        case Intrinsic::abs: return fin(mkIte(mkBin(SLT, args[0], mkConst(0, args[0]->w)), mkSub(mkConst(0, args[0]->w), args[0]), args[0]));
        case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow: {
            auto id = ii->getIntrinsicID(); unsigned w = args[0]->w, ww = std::min(128u, 2 * w);
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::smul_with_overflow || id == Intrinsic::ssub_with_overflow;
            Op o = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? MUL : SUB;
            E a = sg ? mkSext(args[0], ww) : mkZext(args[0], ww), b = sg ? mkSext(args[1], ww) : mkZext(args[1], ww);
            E r = mkBin(o, a, b); E lo = mkExtract(r, 0, w);
            return fin(mkTuple({lo, mkNe(r, sg ? mkSext(lo, ww) : mkZext(lo, ww))})); }
        case Intrinsic::usub_sat: return fin(mkIte(mkUlt(args[0], args[1]), mkConst(0, args[0]->w), mkSub(args[0], args[1])));
        case Intrinsic::is_constant: return fin(mkFalse());
        case Intrinsic::objectsize: return fin(mkConst(~0ull, ki.w));
        case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, s.model, "abort", "trap", I); s.dead = true; return;
        case Intrinsic::vastart: {
            Frame &f = s.st.back();
            if (!f.vaArea) {
                u64 a = allocObj(s, 8 * f.va.size() + 8, 16, STACK, I, false);
                Obj &o = **findObj(s, a);
                for (size_t i = 0; i < f.va.size(); i++) { E v = f.va[i]->w < 64 ? mkZext(f.va[i], 64) : f.va[i]; for (int j = 0; j < 8; j++) setByte(o, 8 * i + j, mkExtract(v, 8 * j, 8)); }
                s.st.back().vaArea = a;
            }
            // struct __va_list_tag { i32 gp_offset, i32 fp_offset, ptr overflow_arg_area, ptr reg_save_area }
            if (!doStore(s, args[0], mkConst(48, 32), 4, I, &again)) return;
            doStore(s, mkAdd(args[0], u64c(4)), mkConst(176, 32), 4, I, &again);
            doStore(s, mkAdd(args[0], u64c(8)), u64c(s.st.back().vaArea), 8, I, &again);
            doStore(s, mkAdd(args[0], u64c(16)), u64c(0), 8, I, &again);
            return fin(nullptr); }
        case Intrinsic::vacopy:
            if (!copyMem(s, args[0], args[1], u64c(24), true, I, &again)) return;
            return fin(nullptr);
        default:
            incomplete("unsupported intrinsic " + cal->name); s.dead = true; return;
        }
    }
    if (cal->F->isDeclaration()) {
        g_extern.insert(cal->name);
        if (cal->name.find("__throw_") != std::string::npos) { violation(s, s.model, "abort", "exception thrown: " + cal->name, I); s.dead = true; return; }
        incomplete("call of an unmodelled external function " + cal->name); s.dead = true; return;
    }
    if (s.st.size() > 400) { violation(s, s.model, "stack", "call depth exceeds 400 frames", I); s.dead = true; return; }
    // byval aggregates: copy
    for (unsigned i = 0; i < args.size() && i < cal->F->arg_size(); i++) if (cal->F->getArg(i)->hasByValAttr()) {
        Type *t = cal->F->getArg(i)->getParamByValType(); u64 n = DL->getTypeAllocSize(t);
        u64 a = allocObj(s, n, 16, STACK, I, false);
        if (!copyMem(s, u64c(a), args[i], u64c(n), true, I, &again)) return;
        args[i] = u64c(a); s.st.back().allocas.push_back(a);
    }
    pushFrame(s, cal, args, ki.dest, ki.op == Instruction::Invoke ? ki.b0 : -1);
}

static bool branchOn(State &s, E c, State **other, const Instruction *I) // returns value taken in s; *other = forked state for the opposite
{
    *other = nullptr;
    if (c->isc()) return c->val;
    bool v = evalExpr(c, *s.model) != 0;
    E taken = v ? c : mkNot(c), alt = v ? mkNot(c) : c;
    ModelP m; SolveRes r = solve(s.pc, alt, s.model, &m);
    if (r == SAT) {
        if (hasUninit(c)) {
            // is the outcome decided by the uninitialised value alone?
            violation(s, m, "uninit", "branch depends on an uninitialised value", I); s.dead = true; return v; }
        *other = fork(s); (*other)->model = m; addPC(**other, alt); addPC(s, taken);
    } else if (r == UNKNOWN) { incomplete("solver gave no answer (branch)"); addPC(s, taken); }
    else learn(s, taken);
    return v;
}

// ---------------------------------------------------------------- one instruction
static void step(State &s)
{
    Frame &f = s.st.back();
    KInst &ki = f.f->insts[f.pc];
    Instruction *I = ki.I;
    g_instrs++; s.steps++;
    bool again = false;
    auto O = [&](int i) { return getOp(s, f, ki.ops[i]); };
    Pois acc{nullptr, nullptr, nullptr};
    auto setr = [&](E e) { f.regs[ki.dest] = e; f.pc++; if (!f.pois.empty()) dropPois(f, ki.dest); if (acc.cond && !isFalse(acc.cond)) f.pois.push_back({ki.dest, acc}); };
    auto addp = [&](const Pois &p) { if (!acc.cond) acc = p; else acc.cond = mkOr(acc.cond, p.cond); };
    if (!f.pois.empty()) switch (ki.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt:
    case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::GetElementPtr:
        for (int o : ki.ops) if (Pois *p = findPois(f, o)) addp(*p);
        for (auto &ix : ki.gepIdx) if (Pois *p = findPois(f, ix.first)) addp(*p);
        break;
    case Instruction::Select: {
        Pois *c = findPois(f, ki.ops[0]), *t = findPois(f, ki.ops[1]), *e = findPois(f, ki.ops[2]);
        if (c) addp(*c);
        if (t) { Pois q = *t; q.cond = mkAnd(O(0), q.cond); addp(q); }
        if (e) { Pois q = *e; q.cond = mkAnd(mkNot(O(0)), q.cond); addp(q); }
        break; }
    case Instruction::Freeze: break;
    default:
        if (isa<DbgInfoIntrinsic>(I)) break;
        for (int o : ki.ops) if (Pois *p = findPois(f, o)) {
            Pois q = *p;
            if (!requireHold(s, mkNot(q.cond), "ub", q.msg, q.I)) { s.dead = true; return; }
            dropPois(f, o);
        }
    }
    // a result that is undefined under !okc
    auto softUB = [&](E okc, const char *msg) {
        if (isTrue(okc)) return;
        ModelP m; SolveRes r = solve(s.pc, mkNot(okc), s.model, &m);
        if (r == UNSAT) return;
        if (r == UNKNOWN) { incomplete("solver gave no answer (ub)"); return; }
        addp(Pois{mkNot(okc), msg, I});
    };
    switch (ki.op) {
    case Instruction::Ret: {
        E rv = I->getNumOperands() ? O(0) : nullptr;
        int rd = f.retDest, rj = f.retJump;
        popFrame(s);
        if (s.st.empty()) { s.dead = true; pathDone(s); return; }
        Frame &c = s.st.back();
        if (rd >= 0) { c.regs[rd] = rv; dropPois(c, rd); }
        if (rj >= 0) jump(s, c, rj); else c.pc++;
        return; }
    case Instruction::Br: {
        if (ki.b1 < 0) { jump(s, f, ki.b0); return; }
        E c = O(0); State *o;
        bool v = branchOn(s, c, &o, I);
        if (s.dead) return;
        if (o) { jump(*o, o->st.back(), v ? ki.b1 : ki.b0); work.push_back(o); }
        jump(s, f, v ? ki.b0 : ki.b1);
        return; }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I); E c = O(0);
        if (c->isc()) {
            int b = f.f->bidx[sw->getDefaultDest()];
            for (auto cs : sw->cases()) if ((u128)cs.getCaseValue()->getZExtValue() == c->val) { b = f.f->bidx[cs.getCaseSuccessor()]; break; }
            jump(s, f, b); return;
        }
        // group by successor
        std::map<int, E> grp; E anyc = mkFalse();
        for (auto cs : sw->cases()) { E q = mkEq(c, mkConst(cs.getCaseValue()->getZExtValue(), c->w)); int b = f.f->bidx[cs.getCaseSuccessor()];
            grp[b] = grp.count(b) ? mkOr(grp[b], q) : q; anyc = mkOr(anyc, q); }
        int db = f.f->bidx[sw->getDefaultDest()];
        E dq = mkNot(anyc); grp[db] = grp.count(db) ? mkOr(grp[db], dq) : dq;
        bool first = true; int mine = -1; E minec = nullptr; ModelP mm;
        for (auto &g : grp) {
            ModelP m; SolveRes r = solve(s.pc, g.second, s.model, &m);
            if (r == UNKNOWN) incomplete("solver gave no answer (switch)");
            if (r != SAT) continue;
            if (first) { first = false; mine = g.first; minec = g.second; mm = m; continue; }
            if (hasUninit(c)) { violation(s, s.model, "uninit", "branch depends on an uninitialised value", I); s.dead = true; return; }
            State *t = fork(s); t->model = m; addPC(*t, g.second); jump(*t, t->st.back(), g.first); work.push_back(t);
        }
        if (mine < 0) { s.dead = true; return; }
        s.model = mm; addPC(s, minec); jump(s, f, mine);
        return; }
    case Instruction::Unreachable: violation(s, s.model, "ub", "unreachable code reached", I); s.dead = true; return;
    case Instruction::Alloca: {
        E n = O(0); E nc; concretize(s, n, &nc);
        u64 a = allocObj(s, ki.size * (u64)nc->val, ki.align, STACK, I, false);
        f.allocas.push_back(a); return setr(mkConst(a, 64)); }
    case Instruction::Load: { E e = loadTy(s, O(0), I->getType(), I, &again); if (!e) return; return setr(e); }
    case Instruction::Store: { if (!storeTy(s, O(1), O(0), I->getOperand(0)->getType(), I, &again)) return; f.pc++; return; }
    case Instruction::GetElementPtr: {
        E p = mkAdd(O(0), mkConst(ki.gepOff, 64));
        for (auto &ix : ki.gepIdx) { E i = getOp(s, f, ix.first); i = i->w < 64 ? mkSext(i, 64) : i; p = mkAdd(p, mkBin(MUL, i, mkConst(ix.second, 64))); }
        return setr(p); }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        E a = O(0), b = O(1); Op op = ki.op == Instruction::Add ? ADD : ki.op == Instruction::Sub ? SUB : MUL;
        E r = mkBin(op, a, b);
        if (opt.checkNsw && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) {
            unsigned w = a->w, ww = op == MUL ? 2 * w : w + 1;
            bool small = false;
            if (w <= 64) {   // decided by the signed intervals of the operands?
                i128 lo, hi, al = a->lo, ah = a->hi, bl = b->lo, bh = b->hi;
                if (op == ADD) { lo = al + bl; hi = ah + bh; } else if (op == SUB) { lo = al - bh; hi = ah - bl; }
                else { i128 p[4] = { al * bl, al * bh, ah * bl, ah * bh }; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
                small = lo >= sx((u128)1 << (w - 1), w) && hi <= (i128)(mask(w) >> 1);
            }
            if (ww <= 128 && !small) {
                E okc = mkEq(mkBin(op, mkSext(a, ww), mkSext(b, ww)), mkSext(r, ww));
                if (!isTrue(okc)) softUB(okc, "signed integer overflow");
            }
        }
        return setr(r); }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E a = O(0), b = O(1);
        if (!requireHold(s, mkNe(b, mkConst(0, b->w)), "ub", "division by zero", I)) { s.dead = true; return; }
        Op op = ki.op == Instruction::UDiv ? UDIV : ki.op == Instruction::SDiv ? SDIV : ki.op == Instruction::URem ? UREM : SREM;
        return setr(mkBin(op, a, b)); }
    case Instruction::And: return setr(mkBin(AND, O(0), O(1)));
    case Instruction::Or: return setr(mkBin(OR, O(0), O(1)));
    case Instruction::Xor: return setr(mkBin(XOR, O(0), O(1)));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        E a = O(0), b = O(1);
        if (!b->isc() && !hasUninit(b)) { // a shift count with a single value on this path becomes that value
            E one = mkEq(b, mkConst(evalExpr(b, *s.model), b->w));
            if (s.shiftSeen.insert(b->id).second && solve(s.pc, mkNot(one), s.model, nullptr) == UNSAT) { learn(s, one); b = mkConst(evalExpr(b, *s.model), b->w); }
        }
        if (opt.checkShift) softUB(mkUlt(b, mkConst(b->w, b->w)), "shift count out of range");
        Op op = ki.op == Instruction::Shl ? SHL : ki.op == Instruction::LShr ? LSHR : ASHR;
        return setr(mkBin(op, a, b)); }
    case Instruction::ICmp: {
        E a = O(0), b = O(1); E r;
        switch (cast<ICmpInst>(I)->getPredicate()) {
        case CmpInst::ICMP_EQ: r = mkEq(a, b); break;
        case CmpInst::ICMP_NE: r = mkNe(a, b); break;
        case CmpInst::ICMP_ULT: r = mkUlt(a, b); break;
        case CmpInst::ICMP_ULE: r = mkUle(a, b); break;
        case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
        case CmpInst::ICMP_UGE: r = mkUle(b, a); break;
        case CmpInst::ICMP_SLT: r = mkBin(SLT, a, b); break;
        case CmpInst::ICMP_SLE: r = mkBin(SLE, a, b); break;
        case CmpInst::ICMP_SGT: r = mkBin(SLT, b, a); break;
        default: r = mkBin(SLE, b, a); break;
        }
        return setr(r); }
    case Instruction::Trunc: return setr(mkExtract(O(0), 0, ki.w));
    case Instruction::ZExt: return setr(mkZext(O(0), ki.w));
    case Instruction::SExt: return setr(mkSext(O(0), ki.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        E e = O(0); if (!ki.w) { incomplete("unsupported cast"); s.dead = true; return; }
        return setr(e->w > ki.w ? mkExtract(e, 0, ki.w) : mkZext(e, ki.w)); }
    case Instruction::Freeze: return setr(O(0));
    case Instruction::FNeg: { if (!I->getType()->isFloatTy() && !I->getType()->isDoubleTy()) { incomplete("unsupported fneg"); s.dead = true; return; } E e = O(0); return setr(mkBin(XOR, e, mkConst((u128)1 << (e->w - 1), e->w))); }
    case Instruction::Select: return setr(mkIte(O(0), O(1), O(2)));
    case Instruction::ExtractValue: { E e = O(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) e = e->k[i]; return setr(e); }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(I);
        std::function<E(E, Type *, ArrayRef<unsigned>)> ins = [&](E a, Type *t, ArrayRef<unsigned> ix) -> E {
            if (ix.empty()) return O(1);
            std::vector<E> v(a->k, a->k + a->nk);
            v[ix[0]] = ins(v[ix[0]], nullptr, ix.slice(1)); return mkTuple(v); };
        return setr(ins(O(0), I->getType(), iv->getIndices())); }
    case Instruction::Fence: f.pc++; return;
    case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(I);
        if (isa<DbgInfoIntrinsic>(I)) { f.pc++; return; }
        std::vector<E> args; unsigned na = cb->arg_size();
        for (unsigned i = 0; i < na; i++) args.push_back(getOp(s, f, ki.ops[i]));
        KFunc *cal = ki.callee;
        if (cb->isInlineAsm()) { incomplete("inline assembly"); s.dead = true; return; }
        if (!cal) {
            E p; concretize(s, getOp(s, f, ki.ops[na]), &p);
            auto it = g_fbyaddr.find((u64)p->val);
            if (it == g_fbyaddr.end()) { violation(s, s.model, "memory", "call through an invalid function pointer", I); s.dead = true; return; }
            cal = it->second;
        }
        doCall(s, ki, cal, args);
        return; }
    default:
        incomplete(std::string("unsupported instruction ") + I->getOpcodeName() + " at " + locOf(I)); s.dead = true; return;
    }
}

// ---------------------------------------------------------------- JSON
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void pairs(FILE *o, const std::vector<std::pair<std::string, std::string>> &v)
{
    fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[%s,%s]", i ? "," : "", js(v[i].first).c_str(), js(v[i].second).c_str()); fprintf(o, "]");
}
static std::set<std::string> declaredCovers()
{
    std::set<std::string> r; std::set<Function *> seen; std::vector<Function *> q{M->getFunction(opt.entry)};
    while (!q.empty()) {
        Function *F = q.back(); q.pop_back();
        if (!F || F->isDeclaration() || !seen.insert(F).second) continue;
        for (auto &b : *F) for (auto &i : b) if (auto *cb = dyn_cast<CallBase>(&i)) {
            if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
                if (c->getName() == "sym_cover") { if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (auto *d = dyn_cast<ConstantDataSequential>(g->getInitializer())) r.insert(d->isCString() ? d->getAsCString().str() : d->getAsString().str()); }
                else q.push_back(c); }
            for (auto &a : cb->args()) if (auto *c = dyn_cast<Function>(a->stripPointerCasts())) q.push_back(c);
        }
    }
    return r;
}
static void report()
{
    FILE *o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    fprintf(o, "{\n\"entry\":%s,\n\"paths\":%llu,\"paths_infeasible_assume\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts_decided\":%llu,\"symbolic_accesses\":%llu,\n",
        js(opt.entry).c_str(), (unsigned long long)g_paths, (unsigned long long)g_pathsAssume, (unsigned long long)g_forks, (unsigned long long)g_instrs, (unsigned long long)g_asserts, (unsigned long long)g_memchecks);
    auto &q = g_ss_stats;
    fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"eval_hits\":%llu,\"slow\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%zu,\"equiv_nodes\":%llu,\"equiv_proved\":%llu,\n",
        (unsigned long long)q.queries, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown, (unsigned long long)q.cacheHits, (unsigned long long)q.evalHits, (unsigned long long)q.slow, q.time, q.maxq, now() - g_t0, g_exprs.size(), (unsigned long long)g_equivNodes, (unsigned long long)g_equivProved);
    fprintf(o, "\"params\":{"); { bool c = false; for (auto &p : opt.params) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"covers\":{"); { bool c = false; for (auto &p : g_covers) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"covers_declared\":["); { bool c = false; for (auto &p : declaredCovers()) { fprintf(o, "%s%s", c ? "," : "", js(p).c_str()); c = true; } } fprintf(o, "],\n");
    fprintf(o, "\"asserts\":{"); { bool c = false; for (auto &p : g_assertN) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"incomplete\":{"); { bool c = false; for (auto &p : g_incomplete) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"functions\":["); { bool c = false; for (auto &p : g_kf) if (p.second->executed) {
        std::string file; unsigned line = 0; if (auto *sp = p.first->getSubprogram()) { file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = (sp->getDirectory() + "/" + sp->getFilename()).str(); line = sp->getLine(); }
        if (file.find(opt.srcPrefix) == std::string::npos) continue;
        fprintf(o, "%s[%s,%s,%u,%llu]", c ? "," : "", js(p.second->name).c_str(), js(file).c_str(), line, (unsigned long long)p.second->nexec); c = true; } } fprintf(o, "],\n");
    fprintf(o, "\"violations\":[");
    for (size_t i = 0; i < g_viol.size(); i++) { auto &v = g_viol[i];
        fprintf(o, "%s\n{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"fn\":%s,\"inputs\":", i ? "," : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), js(v.fn).c_str());
        pairs(o, v.inputs); fprintf(o, ",\"stack\":["); for (size_t j = 0; j < v.stack.size(); j++) fprintf(o, "%s%s", j ? "," : "", js(v.stack[j]).c_str()); fprintf(o, "]}"); }
    fprintf(o, "],\n\"samples\":[");
    { bool c = false; for (auto &sm : g_samples) { if (sm.inputs.empty() && sm.obs.empty()) continue; fprintf(o, "%s\n{\"inputs\":", c ? "," : ""); pairs(o, sm.inputs); fprintf(o, ",\"obs\":"); pairs(o, sm.obs); fprintf(o, "}"); c = true; } }
    fprintf(o, "]\n}\n");
    if (o != stdout) fclose(o);
}

static void runAll()
{
    double lastp = now();
    while (!work.empty()) {
        State *s = work.back(); work.pop_back();
        u64 chk = 0;
        while (!s->dead) {
            step(*s);
            if (s->steps > opt.maxSteps) { violation(*s, s->model, "steps", "step bound exceeded (possible non-termination)", s->st.back().f->insts[s->st.back().pc].I); s->dead = true; }
            if ((++chk & 0xff) == 0) {
                double t = now();
                if (t - g_t0 > opt.maxTime) { incomplete("time limit"); s->dead = true; work.clear(); }
                if (opt.verbose && t - lastp > 5) { lastp = t; fprintf(stderr, "[%.0fs] paths %llu pending %zu forks %llu instrs %llu queries %llu solver %.1fs exprs %zu at %s depth %d pc %zu\n", t - g_t0, (unsigned long long)g_paths, work.size(), (unsigned long long)g_forks, (unsigned long long)g_instrs, (unsigned long long)g_ss_stats.queries, g_ss_stats.time, g_exprs.size(), s->dead ? "" : locOf(s->st.back().f->insts[s->st.back().pc].I).c_str(), s->depth, s->pc.size()); }
            }
        }
        delete s;
        if (g_paths > opt.maxPaths) { incomplete("path limit"); break; }
        if (g_violKeys.size() >= opt.maxViol || (g_firstViol && now() - g_firstViol > opt.stopAfterViol)) { incomplete("stopped after violations"); break; }
        if (now() - g_t0 > opt.maxTime) { if (!work.empty()) incomplete("time limit"); break; }
    }
}

static void *mainThread(void *)
{
    LLVMContext ctx; CTX = &ctx; SMDiagnostic err;
    auto mod = parseIRFile(opt.bc, err, ctx);
    if (!mod) { err.print("symx", errs()); _exit(2); }
    M = mod.get(); DL = &M->getDataLayout();
    solverInit();
    // globals
    u64 a = GLOBAL_BASE;
    std::vector<std::pair<GlobalVariable *, ObjP>> gs;
    for (auto &g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
        if (g.isDeclaration() && sz < 64) sz = 64;
        u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 1);
        a = (a + al - 1) & ~(al - 1);
        g_gaddr[&g] = a;
        ObjP o = std::make_shared<Obj>(); o->base = a; o->size = sz; o->flags = GLOBAL | (g.isConstant() ? RO : 0); o->site = nullptr; o->c.assign(sz, 0);
        gs.push_back({&g, o});
        g_globals[a] = o; a += sz + 65536; a = (a + 4095) & ~4095ull;
    }
    for (auto &p : gs) if (p.first->hasInitializer()) initBytes(p.first->getInitializer(), p.second->c, 0);
    Function *F = M->getFunction(opt.entry);
    if (!F || F->isDeclaration()) fatal("entry %s not found", opt.entry.c_str());
    State *s = new State; s->model = newModel();
    // constructors first, then the entry: run ctors by pushing a chain of frames
    pushFrame(*s, kfOf(F), {}, -1, -1);
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        // run constructors to completion on this state
        for (auto &op : ca->operands()) if (auto *cf = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) {
            State *c = new State(*s); c->st.clear(); pushFrame(*c, kfOf(cf), {}, -1, -1);
            u64 sp = g_paths; while (!c->dead) step(*c);
            if (!work.empty() || !g_viol.empty()) fatal("global constructor is not concrete");
            g_paths = sp; g_samples.clear();
            s->mem = c->mem; s->gmod = c->gmod; s->bump = c->bump; delete c;
        }
    }
    work.push_back(s);
    g_t0 = now(); g_rng ^= opt.seed * 0x9E3779B97F4A7C15ull;
    runAll();
    report();
    _exit(0);
    return nullptr;
}

int main(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string x = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) fatal("missing value for %s", x.c_str()); return argv[++i]; };
        if (x == "--entry") opt.entry = nx();
        else if (x == "--out") opt.out = nx();
        else if (x == "--max-time") opt.maxTime = atof(nx().c_str());
        else if (x == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), 0, 0);
        else if (x == "--max-paths") opt.maxPaths = strtoull(nx().c_str(), 0, 0);
        else if (x == "--max-viol") opt.maxViol = atoi(nx().c_str());
        else if (x == "--stop-after") opt.stopAfterViol = atof(nx().c_str());
        else if (x == "--samples") opt.samples = atoi(nx().c_str());
        else if (x == "--seed") opt.seed = atoi(nx().c_str());
        else if (x == "--query-timeout") g_timeoutMs = atoi(nx().c_str());
        else if (x == "--src-prefix") opt.srcPrefix = nx();
        else if (x == "--no-nsw") opt.checkNsw = false;
        else if (x == "--no-shift") opt.checkShift = false;
        else if (x == "-v") opt.verbose = true;
        else if (x == "--param") { std::string p = nx(); size_t e = p.find('='); opt.params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
        else opt.bc = x;
    }
    // big stack for recursive DAG walks
    size_t ss = (size_t)2 << 30;
    void *stk = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, ss);
    pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) fatal("thread");
    pthread_join(t, nullptr);
}
