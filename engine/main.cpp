// symx: symbolic execution of LLVM bitcode. Every branch, assertion and memory access whose outcome depends on symbolic data is
// decided by the SMT solver; paths fork, and exploration is exhaustive within the bounds that the harness states.
#include "state.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cmath>
#include <atomic>
#include <chrono>
#include <map>
#include <set>
#include <functional>
using namespace llvm;

#define ASHIFT 28
#define ABASE(i) ((u64)(i) << ASHIFT)
#define AIDX(a) ((a) >> ASHIFT)
#define AOFF(a) ((a) & ((1ULL << ASHIFT) - 1))

// ---- shared between worker processes --------------------------------------------------------------------------------------------
#define MAXLABEL 512
#define MAXFUNC 20000
struct Shared {
    std::atomic<int> active, stop, violations, incomplete, errors, crashed;
    std::atomic<u64> paths, pathsAssumed, pathsErr, forks, steps, queries, sat, unsat, cacheHits, unknown, asserts, assertSolved, samples, maxDepth;
    std::atomic<u64> timeUs, maxQueryUs, procs, seq;
    std::atomic<int> lock;
    int nLabel; char label[MAXLABEL][128]; u64 labelCount[MAXLABEL];
    int nViol; char viol[64][256];
    uint8_t func[MAXFUNC];
};
static Shared *sh;
static void lk() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(100); } }
static void ulk() { sh->lock = 0; }

// ---- options --------------------------------------------------------------------------------------------------------------------
static std::string optOut = "."; static int optProcs = 8; static double optTime = 600; static u64 optMaxSteps = 200000000ULL;
static int optSamples = 12; static bool optAll = false; static bool optTrace = false; static int optMaxViol = 1; static u64 optArg[16];
static std::string optEntry = "harness";
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

// ---- compiled IR ----------------------------------------------------------------------------------------------------------------
enum Op : uint8_t {
    OBin, OICmp, OTrunc, OZExt, OSExt, OMov, OLoad, OStore, OGep, OSelect, OBr, OCondBr, OSwitch, ORet, OCall, OAlloca, OCopyN,
    OInsert, OFBin, OFCmp, OFCast, OFNeg, OUnreach, OBitcast, OUnsup
};
struct Inst { Op op; uint8_t w, w2; uint8_t k; int dst; int a, b, c; uint32_t aux; const Instruction *src; };
struct Edge { uint32_t pc; std::vector<std::pair<int, int>> phi; std::vector<uint8_t> w; };
struct GepInfo { u64 off; std::vector<std::tuple<int, u64, uint8_t>> idx; };     // operand, scale, width
struct SwInfo { std::vector<std::pair<u64, uint32_t>> cases; uint32_t def; };    // value -> edge
struct CallInfo {
    Func *callee = nullptr; int builtin = -1; int fnOp = 0; std::vector<int> args; std::vector<uint8_t> w; std::vector<uint32_t> byval;
    std::vector<uint8_t> isFp; unsigned nFixed = 0; bool vararg = false; int nRet = 0; uint8_t retW = 0; std::string name; unsigned iid = 0;
};
struct MemTy { std::vector<std::pair<uint32_t, uint8_t>> leaf; };                // byte offset, width of each leaf

struct Func {
    Function *F; std::string name; bool compiled = false; uint32_t idx; u64 addr;
    std::vector<Inst> code; std::vector<Val> cpool; std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<SwInfo> sws;
    std::vector<CallInfo> calls; std::vector<MemTy> mts; std::vector<std::vector<int>> lists; int nReg = 0; std::vector<int> argSlot;
    std::vector<uint32_t> argByval; bool isVar = false;
};

static Module *M; static const DataLayout *DL;
static std::map<const Function *, Func *> g_fn;
static std::vector<Func *> g_funcs;
static std::unordered_map<u64, Func *> g_fnAddr;
static std::map<const GlobalVariable *, u64> g_gv;
static State *g_init;

struct EndPath { int kind; };                        // 0 normal, 1 assumed out, 2 error

static std::vector<State *> g_work;

// ---------------------------------------------------------------------------------------------------------------------------------
static std::string locStr(const Instruction *I) {
    std::string r = I && I->getFunction() ? I->getFunction()->getName().str() : "?";
    if (I) if (const DebugLoc &d = I->getDebugLoc()) { const DILocation *l = d.get(); r = l->getScope()->getSubprogram()->getName().str() + " (" + l->getFilename().str() + ":" + std::to_string(l->getLine()) + ")"; }
    return r;
}
static std::string stackStr(State &s) {
    std::string r;
    for (int i = (int)s.fr.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) { Frame *f = s.fr[i]; r += (n ? " < " : "") + locStr(f->pc < f->f->code.size() ? f->f->code[f->pc].src : nullptr); }
    return r;
}

// ---- types ----------------------------------------------------------------------------------------------------------------------
static unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static void leaves(Type *t, std::vector<Type *> &out) {
    if (t->isVoidTy()) return;
    if (auto *s = dyn_cast<StructType>(t)) { for (auto *e : s->elements()) leaves(e, out); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out); return; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), out); return; }
    out.push_back(t);
}
static void leavesOff(Type *t, u64 off, std::vector<std::pair<uint32_t, uint8_t>> &out) {
    if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOff(s->getElementType(i), off + l->getElementOffset(i), out); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leavesOff(a->getElementType(), off + i * sz, out); return; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) leavesOff(v->getElementType(), off + i * sz, out); return; }
    out.push_back({(uint32_t)off, (uint8_t)widthOf(t)});
}
static unsigned nLeaves(Type *t) { std::vector<Type *> v; leaves(t, v); return (unsigned)v.size(); }

// ---- constants ------------------------------------------------------------------------------------------------------------------
static Func *funcOf(const Function *F);
static u64 globalAddr(const GlobalValue *g) {
    if (auto *a = dyn_cast<GlobalAlias>(g)) { if (auto *go = dyn_cast<GlobalValue>(a->getAliasee())) return globalAddr(go); abort(); }
    if (auto *f = dyn_cast<Function>(g)) return funcOf(f)->addr;
    auto it = g_gv.find(cast<GlobalVariable>(g));
    if (it == g_gv.end()) { errs() << "no address for " << g->getName() << "\n"; abort(); }
    return it->second;
}
static u128 constScalar(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { APInt a = i->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
    if (auto *g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) abort();
            return (u64)(constScalar(e->getOperand(0)) + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(e->getOperand(0)) & maskW(widthOf(e->getType()));
        case Instruction::Trunc: return constScalar(e->getOperand(0)) & maskW(widthOf(e->getType()));
        case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & maskW(widthOf(e->getType()));
        case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & maskW(widthOf(e->getType()));
        default: break;
        }
    }
    errs() << "unsupported constant " << *c << "\n"; abort();
}
static void constBytes(const Constant *c, uint8_t *d, Type *t) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); memcpy(d, raw.data(), raw.size()); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) constBytes(cs->getOperand(i), d + l->getElementOffset(i), cs->getOperand(i)->getType()); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) constBytes(ca->getOperand(i), d + i * sz, ca->getOperand(i)->getType()); return; }
    if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 sz = DL->getTypeStoreSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) constBytes(cv->getOperand(i), d + i * sz, cv->getOperand(i)->getType()); return; }
    u128 v = constScalar(c);
    u64 n = DL->getTypeStoreSize(t);
    for (u64 i = 0; i < n && i < 16; i++) d[i] = (uint8_t)(v >> (8 * i));
}

// ---- builtins -------------------------------------------------------------------------------------------------------------------
struct Ctx;
typedef void (*Builtin)(State &, Func &, Inst &, CallInfo &);
static std::map<std::string, int> g_bname; static std::vector<Builtin> g_b;

// ---- compile --------------------------------------------------------------------------------------------------------------------
static Func *funcOf(const Function *F) {
    auto it = g_fn.find(F);
    if (it != g_fn.end()) return it->second;
    Func *f = new Func; f->F = const_cast<Function *>(F); f->name = F->getName().str(); f->idx = (uint32_t)g_funcs.size(); f->addr = 0; f->isVar = F->isVarArg();
    g_fn[F] = f; g_funcs.push_back(f);
    return f;
}

static Kind binKind(unsigned op) {
    switch (op) {
    case Instruction::Add: return KAdd; case Instruction::Sub: return KSub; case Instruction::Mul: return KMul; case Instruction::UDiv: return KUDiv;
    case Instruction::SDiv: return KSDiv; case Instruction::URem: return KURem; case Instruction::SRem: return KSRem; case Instruction::And: return KAnd;
    case Instruction::Or: return KOr; case Instruction::Xor: return KXor; case Instruction::Shl: return KShl; case Instruction::LShr: return KLShr; case Instruction::AShr: return KAShr;
    }
    return KConst;
}

static Function *resolveDecl(Function *F) {
    if (!F->isDeclaration()) {
        // A model overrides a real function when vx_NAME exists
        if (Function *o = M->getFunction(("vx_" + F->getName()).str())) if (!o->isDeclaration()) return o;
        return F;
    }
    std::string n = F->getName().str();
    if (Function *o = M->getFunction("vm_" + n)) if (!o->isDeclaration()) return o;
    if (Function *o = M->getFunction("vx_" + n)) if (!o->isDeclaration()) return o;
    return F;
}

static void compile(Func &f) {
    f.compiled = true;
    Function &F = *f.F;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    auto alloc = [&](const Value *v) { unsigned k = nLeaves(v->getType()); slot[v] = n; n += k; };
    for (auto &a : F.args()) { f.argSlot.push_back(n); f.argByval.push_back(a.hasByValAttr() ? (uint32_t)DL->getTypeAllocSize(a.getParamByValType()) : 0); alloc(&a); }
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) alloc(&I);
    f.nReg = n;
    auto cst = [&](u128 v, unsigned w) { Val x = w > 64 ? Val{0, eConst(v, w)} : vc((u64)v & mask64(w)); f.cpool.push_back(x); return -(int)f.cpool.size(); };
    // operand for leaf k of v
    std::function<int(const Value *, unsigned)> opn = [&](const Value *v, unsigned k) -> int {
        auto it = slot.find(v);
        if (it != slot.end()) return it->second + (int)k;
        if (auto *c = dyn_cast<Constant>(v)) {
            if (!c->getType()->isAggregateType() && !c->getType()->isVectorTy()) return cst(constScalar(c), widthOf(c->getType()));
            std::vector<Type *> ls; leaves(c->getType(), ls);
            std::vector<std::pair<uint32_t, uint8_t>> lo; leavesOff(c->getType(), 0, lo);
            std::vector<uint8_t> buf(DL->getTypeAllocSize(c->getType()) + 16, 0);
            constBytes(c, buf.data(), c->getType());
            u128 val = 0; for (unsigned i = 0; i < (lo[k].second + 7u) / 8; i++) val |= (u128)buf[lo[k].first + i] << (8 * i);
            return cst(val, lo[k].second);
        }
        return cst(0, 64);
    };
    std::unordered_map<const BasicBlock *, uint32_t> bpc;
    struct Fix { uint32_t edge; const BasicBlock *from, *to; };
    std::vector<Fix> fix;
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) { f.edges.emplace_back(); fix.push_back({(uint32_t)f.edges.size() - 1, from, to}); return (uint32_t)f.edges.size() - 1; };
    auto emit = [&](Inst i) { f.code.push_back(i); };
    for (auto &B : F) {
        bpc[&B] = (uint32_t)f.code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Inst x; memset(&x, 0, sizeof x); x.src = &I; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            unsigned w = widthOf(I.getType()); x.w = (uint8_t)w;
            unsigned op = I.getOpcode();
            Kind bk = binKind(op);
            if (I.getType()->isVectorTy() && bk != KConst) {        // element-wise
                auto *vt = cast<FixedVectorType>(I.getType());
                for (unsigned i = 0; i < vt->getNumElements(); i++) { Inst y = x; y.op = OBin; y.k = bk; y.w = (uint8_t)widthOf(vt->getElementType()); y.dst = x.dst + (int)i; y.a = opn(I.getOperand(0), i); y.b = opn(I.getOperand(1), i); emit(y); }
                continue;
            }
            if (bk != KConst) { x.op = OBin; x.k = bk; x.a = opn(I.getOperand(0), 0); x.b = opn(I.getOperand(1), 0); emit(x); continue; }
            switch (op) {
            case Instruction::ICmp: {
                auto p = cast<ICmpInst>(I).getPredicate();
                if (I.getType()->isVectorTy()) { x.op = OUnsup; emit(x); break; }
                x.op = OICmp; x.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); x.a = opn(I.getOperand(0), 0); x.b = opn(I.getOperand(1), 0); x.c = 0;
                switch (p) {
                case CmpInst::ICMP_EQ: x.k = KEq; break;
                case CmpInst::ICMP_NE: x.k = KEq; x.c = 1; break;
                case CmpInst::ICMP_ULT: x.k = KUlt; break; case CmpInst::ICMP_ULE: x.k = KUle; break;
                case CmpInst::ICMP_UGT: x.k = KUlt; std::swap(x.a, x.b); break; case CmpInst::ICMP_UGE: x.k = KUle; std::swap(x.a, x.b); break;
                case CmpInst::ICMP_SLT: x.k = KSlt; break; case CmpInst::ICMP_SLE: x.k = KSle; break;
                case CmpInst::ICMP_SGT: x.k = KSlt; std::swap(x.a, x.b); break; case CmpInst::ICMP_SGE: x.k = KSle; std::swap(x.a, x.b); break;
                default: abort();
                }
                emit(x); break;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
                if (I.getType()->isVectorTy()) { x.op = OUnsup; emit(x); break; }
                unsigned sw = widthOf(I.getOperand(0)->getType());
                x.w2 = (uint8_t)sw; x.a = opn(I.getOperand(0), 0);
                if (op == Instruction::SExt) x.op = OSExt; else x.op = w < sw ? OTrunc : w > sw ? OZExt : OMov;
                emit(x); break;
            }
            case Instruction::BitCast: {
                std::vector<std::pair<uint32_t, uint8_t>> lo, ls; leavesOff(I.getType(), 0, lo); leavesOff(I.getOperand(0)->getType(), 0, ls);
                if (lo.size() == 1 && ls.size() == 1) { x.op = OMov; x.a = opn(I.getOperand(0), 0); emit(x); break; }
                // vector <-> vector/int
                x.op = OBitcast; f.mts.push_back({lo}); f.mts.push_back({ls}); x.aux = (uint32_t)f.mts.size() - 2; std::vector<int> l; for (unsigned i = 0; i < ls.size(); i++) l.push_back(opn(I.getOperand(0), i)); f.lists.push_back(l); x.a = (int)f.lists.size() - 1; emit(x); break;
            }
            case Instruction::AddrSpaceCast: x.op = OMov; x.a = opn(I.getOperand(0), 0); emit(x); break;
            case Instruction::Freeze: for (unsigned i = 0; i < nLeaves(I.getType()); i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = opn(I.getOperand(0), i); emit(y); } break;
            case Instruction::Load: {
                MemTy mt; leavesOff(I.getType(), 0, mt.leaf); f.mts.push_back(mt); x.op = OLoad; x.aux = (uint32_t)f.mts.size() - 1; x.a = opn(I.getOperand(0), 0); x.b = (int)DL->getTypeStoreSize(I.getType()); emit(x); break;
            }
            case Instruction::Store: {
                auto *v = I.getOperand(0); MemTy mt; leavesOff(v->getType(), 0, mt.leaf); f.mts.push_back(mt); x.op = OStore; x.aux = (uint32_t)f.mts.size() - 1; x.a = opn(I.getOperand(1), 0); x.c = (int)DL->getTypeStoreSize(v->getType());
                std::vector<int> l; for (unsigned i = 0; i < mt.leaf.size(); i++) l.push_back(opn(v, i));
                if (l.size() == 1) x.b = l[0]; else { f.lists.push_back(l); x.b = (int)f.lists.size() - 1; }
                x.w = mt.leaf.size() == 1 ? mt.leaf[0].second : 0;
                emit(x); break;
            }
            case Instruction::GetElementPtr: {
                auto *g = cast<GEPOperator>(&I); GepInfo gi; gi.off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *st = it.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) gi.off += (u64)ci->getSExtValue() * sz;
                    else gi.idx.push_back({opn(ix, 0), sz, (uint8_t)widthOf(ix->getType())});
                }
                f.geps.push_back(gi); x.op = OGep; x.a = opn(I.getOperand(0), 0); x.aux = (uint32_t)f.geps.size() - 1; emit(x); break;
            }
            case Instruction::Select: {
                if (I.getOperand(0)->getType()->isVectorTy()) { x.op = OUnsup; emit(x); break; }
                std::vector<Type *> ls; leaves(I.getType(), ls);
                for (unsigned i = 0; i < ls.size(); i++) { Inst y = x; y.op = OSelect; y.k = ls[i]->isPointerTy(); y.w = (uint8_t)widthOf(ls[i]); y.dst = x.dst + (int)i; y.a = opn(I.getOperand(0), 0); y.b = opn(I.getOperand(1), i); y.c = opn(I.getOperand(2), i); emit(y); }
                break;
            }
            case Instruction::Br: {
                auto &br = cast<BranchInst>(I);
                if (br.isUnconditional()) { x.op = OBr; x.aux = edge(&B, br.getSuccessor(0)); }
                else { x.op = OCondBr; x.a = opn(br.getCondition(), 0); x.b = (int)edge(&B, br.getSuccessor(0)); x.c = (int)edge(&B, br.getSuccessor(1)); }
                emit(x); break;
            }
            case Instruction::Switch: {
                auto &sw = cast<SwitchInst>(I); SwInfo si; std::map<const BasicBlock *, uint32_t> em;
                auto ed = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; uint32_t e = edge(&B, t); em[t] = e; return e; };
                si.def = ed(sw.getDefaultDest());
                for (auto &c : sw.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())});
                f.sws.push_back(si); x.op = OSwitch; x.a = opn(sw.getCondition(), 0); x.w = (uint8_t)widthOf(sw.getCondition()->getType()); x.aux = (uint32_t)f.sws.size() - 1; emit(x); break;
            }
            case Instruction::Ret: {
                x.op = ORet; std::vector<int> l; if (auto *rv = cast<ReturnInst>(I).getReturnValue()) for (unsigned i = 0; i < nLeaves(rv->getType()); i++) l.push_back(opn(rv, i));
                f.lists.push_back(l); x.aux = (uint32_t)f.lists.size() - 1; emit(x); break;
            }
            case Instruction::Alloca: {
                auto &al = cast<AllocaInst>(I); x.op = OAlloca; f.geps.emplace_back(); f.geps.back().off = DL->getTypeAllocSize(al.getAllocatedType()); x.aux = (uint32_t)f.geps.size() - 1; x.a = opn(al.getArraySize(), 0); x.w2 = (uint8_t)widthOf(al.getArraySize()->getType()); emit(x); break;
            }
            case Instruction::ExtractValue: {
                auto &ev = cast<ExtractValueInst>(I); Type *t = ev.getAggregateOperand()->getType(); unsigned off = 0;
                for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nLeaves(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * nLeaves(at->getElementType()); t = at->getElementType(); } }
                for (unsigned i = 0; i < nLeaves(t); i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = opn(ev.getAggregateOperand(), off + i); emit(y); }
                break;
            }
            case Instruction::InsertValue: {
                auto &ev = cast<InsertValueInst>(I); Type *t = I.getType(); unsigned off = 0, tot = nLeaves(t);
                for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nLeaves(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * nLeaves(at->getElementType()); t = at->getElementType(); } }
                unsigned k = nLeaves(t);
                for (unsigned i = 0; i < tot; i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = i >= off && i < off + k ? opn(ev.getInsertedValueOperand(), i - off) : opn(ev.getAggregateOperand(), i); emit(y); }
                break;
            }
            case Instruction::ExtractElement: {
                auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { x.op = OUnsup; emit(x); break; }
                x.op = OMov; x.a = opn(I.getOperand(0), (unsigned)ci->getZExtValue()); emit(x); break;
            }
            case Instruction::InsertElement: {
                auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { x.op = OUnsup; emit(x); break; }
                for (unsigned i = 0; i < nLeaves(I.getType()); i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = i == ci->getZExtValue() ? opn(I.getOperand(1), 0) : opn(I.getOperand(0), i); emit(y); }
                break;
            }
            case Instruction::ShuffleVector: {
                auto &sv = cast<ShuffleVectorInst>(I); unsigned n0 = nLeaves(I.getOperand(0)->getType()); auto m = sv.getShuffleMask();
                for (unsigned i = 0; i < m.size(); i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = m[i] < 0 ? cst(0, 64) : (unsigned)m[i] < n0 ? opn(I.getOperand(0), (unsigned)m[i]) : opn(I.getOperand(1), (unsigned)m[i] - n0); emit(y); }
                break;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                x.op = OFBin; x.c = (int)op; x.a = opn(I.getOperand(0), 0); x.b = opn(I.getOperand(1), 0); emit(x); break;
            case Instruction::FNeg: x.op = OFNeg; x.a = opn(I.getOperand(0), 0); emit(x); break;
            case Instruction::FCmp: x.op = OFCmp; x.c = (int)cast<FCmpInst>(I).getPredicate(); x.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); x.a = opn(I.getOperand(0), 0); x.b = opn(I.getOperand(1), 0); emit(x); break;
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                x.op = OFCast; x.c = (int)op; x.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); x.a = opn(I.getOperand(0), 0); emit(x); break;
            case Instruction::Unreachable: x.op = OUnreach; emit(x); break;
            case Instruction::Call: {
                auto &ci = cast<CallInst>(I);
                CallInfo c; x.op = OCall;
                if (auto *ia = dyn_cast<InlineAsm>(ci.getCalledOperand())) {
                    // Only empty asm (compiler barriers) is supported
                    if (!ia->getAsmString().empty()) { x.op = OUnsup; emit(x); break; }
                    if (!I.getType()->isVoidTy()) { for (unsigned i = 0; i < nLeaves(I.getType()); i++) { Inst y = x; y.op = OMov; y.dst = x.dst + (int)i; y.a = ci.arg_size() ? opn(ci.getArgOperand(0), i) : cst(0, 64); emit(y); } }
                    break;
                }
                Function *cf = dyn_cast<Function>(ci.getCalledOperand()->stripPointerCasts());
                if (cf && cf->isIntrinsic()) {
                    auto id = cf->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::vaend || id == Intrinsic::invariant_start || id == Intrinsic::sideeffect || id == Intrinsic::var_annotation) break;
                    c.iid = id; c.name = cf->getName().str();
                } else if (cf) {
                    cf = resolveDecl(cf);
                    c.name = cf->getName().str();
                    auto it = g_bname.find(c.name);
                    if (cf->isDeclaration() && it != g_bname.end()) c.builtin = it->second;
                    else if (!cf->isDeclaration()) c.callee = funcOf(cf);
                    else c.builtin = -2;
                } else { c.fnOp = opn(ci.getCalledOperand(), 0); c.builtin = -3; }
                c.vararg = ci.getFunctionType()->isVarArg(); c.nFixed = 0; 
                for (unsigned i = 0; i < ci.arg_size(); i++) {
                    Value *av = ci.getArgOperand(i);
                    if (av->getType()->isMetadataTy()) continue;
                    std::vector<Type *> ls; leaves(av->getType(), ls);
                    for (unsigned k = 0; k < ls.size(); k++) { c.args.push_back(opn(av, k)); c.w.push_back((uint8_t)widthOf(ls[k])); c.isFp.push_back(ls[k]->isFloatingPointTy()); c.byval.push_back(ci.isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(ci.getParamByValType(i)) : 0); }
                    if (i < ci.getFunctionType()->getNumParams()) c.nFixed = (unsigned)c.args.size();
                }
                c.nRet = (int)nLeaves(I.getType()); c.retW = (uint8_t)w;
                f.calls.push_back(c); x.aux = (uint32_t)f.calls.size() - 1; emit(x); break;
            }
            default: x.op = OUnsup; emit(x); break;
            }
        }
    }
    for (auto &fx : fix) {
        Edge &e = f.edges[fx.edge]; e.pc = bpc[fx.to];
        for (auto &p : fx.to->phis()) { unsigned k = nLeaves(p.getType()); for (unsigned i = 0; i < k; i++) e.phi.push_back({slot[&p] + (int)i, opn(p.getIncomingValueForBlock(fx.from), i)}); }
    }
}

// ---- solver interface -----------------------------------------------------------------------------------------------------------
static u64 g_stamp = 0;
static u128 evalM(State &s, Expr *e) { return evalExpr(e, s.model, ++g_stamp); }

static Expr *simpRec(State &s, Expr *e) {
    if (e->isConst()) return e;
    auto q = s.eq.find(e);
    if (q != s.eq.end()) return q->second;
    if (e->k == KVar) return e;
    auto it = s.simp.find(e);
    if (it != s.simp.end()) return it->second;
    Expr *a = e->a ? simpRec(s, e->a) : nullptr, *b = e->b ? simpRec(s, e->b) : nullptr, *c = e->c ? simpRec(s, e->c) : nullptr;
    Expr *r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
    if (r != e && !r->isConst()) { auto q2 = s.eq.find(r); if (q2 != s.eq.end()) r = q2->second; }
    s.simp[e] = r;
    return r;
}
static Expr *simplify(State &s, Expr *e) { if (s.eq.empty() || e->isConst()) return e; return simpRec(s, e); }

static void slice(State &s, Expr *cond, std::vector<Expr *> &out) {
    // Constraints transitively sharing variables with cond, in order of assertion
    std::vector<CNode *> all; all.reserve(s.pc ? s.pc->n : 0);
    for (CNode *n = s.pc; n; n = n->next) all.push_back(n);
    static std::vector<uint8_t> inSet; 
    if (inSet.size() < g_varName.size()) inSet.resize(g_varName.size() + 256, 0);
    std::vector<uint32_t> touched;
    auto addVars = [&](Expr *e) { for (uint32_t v : e->vars->v) if (!inSet[v]) { inSet[v] = 1; touched.push_back(v); } };
    addVars(cond);
    std::vector<uint8_t> used(all.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < all.size(); i++) if (!used[i]) {
            bool hit = false;
            for (uint32_t v : all[i]->e->vars->v) if (inSet[v]) { hit = true; break; }
            if (hit) { used[i] = 1; size_t n = touched.size(); addVars(all[i]->e); if (touched.size() != n) ch = true; }
        }
    }
    for (size_t i = all.size(); i-- > 0;) if (used[i]) out.push_back(all[i]->e);
    for (uint32_t v : touched) inSet[v] = 0;
}

// Can cond be true on this path? On success newModel satisfies the path condition and cond.
static bool mayBe(State &s, Expr *cond, std::vector<u64> &newModel) {
    if (cond->isConst()) { newModel = s.model; return cond->v; }
    if (evalM(s, cond)) { newModel = s.model; return true; }
    std::vector<Expr *> q; slice(s, cond, q); q.push_back(cond);
    std::vector<std::pair<uint32_t, u64>> m;
    SolveResult r = solve(q, m);
    if (r == SUnknown) { fprintf(stderr, "symx: solver gave up at %s\n", stackStr(s).c_str()); sh->incomplete++; throw EndPath{2}; }
    if (r == SUnsat) return false;
    newModel = s.model;
    for (auto &p : m) { if (newModel.size() <= p.first) newModel.resize(p.first + 1, 0); newModel[p.first] = p.second; }
    return true;
}

static void addEq(State &s, Expr *e) {
    if (e->k == KEq && e->a->isConst() && !e->b->isConst()) { if (s.eq.emplace(e->b, e->a).second) s.simp.clear(); }
    else if (e->k == KVar && e->w == 1) { s.eq[e] = eTrue(); s.simp.clear(); }
    else if (e->k == KXor && e->w == 1 && e->a->isConst()) { s.eq[e->b] = eFalse(); s.simp.clear(); }
    if (e->w == 1 && !e->isConst() && e->k != KVar) { if (s.eq.emplace(e, eTrue()).second) s.simp.clear(); }
}
static void addC(State &s, Expr *e) {
    if (e->isConst()) { if (!e->v) { fprintf(stderr, "symx: adding false\n"); abort(); } return; }
    if (e->k == KAnd && e->w == 1) { addC(s, e->a); addC(s, e->b); return; }
    CNode *n = new CNode{e, s.pc, 1, s.pc ? s.pc->n + 1 : 1};
    s.pc = n;
    addEq(s, e);
}

static State *forkState(State &s) { sh->forks++; State *n = new State(s); n->depth++; s.depth++; return n; }

// Decide a boolean; forks when both outcomes are possible. The fork re-executes the current instruction with the negation assumed.
static bool decide(State &s, Expr *cond) {
    cond = simplify(s, cond);
    if (cond->isConst()) return cond->v;
    bool cur = evalM(s, cond) != 0;
    Expr *c = cur ? cond : eNot(cond), *nc = cur ? eNot(cond) : cond;
    std::vector<u64> nm;
    if (mayBe(s, nc, nm)) { State *n = forkState(s); n->model = nm; addC(*n, nc); g_work.push_back(n); addC(s, c); }
    else { if (s.eq.emplace(c, eTrue()).second) s.simp.clear(); }
    return cur;
}

static u64 concretize(State &s, Expr *e) {
    e = simplify(s, e);
    if (e->isConst()) return e->v;
    u64 v = (u64)evalM(s, e);
    Expr *eq = eEq(eConst(v, e->w), e);
    if (eq->isConst()) return v;
    std::vector<u64> nm;
    if (mayBe(s, eNot(eq), nm)) { State *n = forkState(s); n->model = nm; addC(*n, eNot(eq)); g_work.push_back(n); }
    addC(s, eq);
    return v;
}
static u64 cval(State &s, const Val &v, unsigned) { return v.e ? concretize(s, v.e) : v.c; }

// ---- reporting ------------------------------------------------------------------------------------------------------------------
static void writeCase(State &s, const std::vector<u64> &model, const std::string &file, const std::string &end) {
    FILE *fp = fopen(file.c_str(), "w");
    if (!fp) return;
    u64 st = ++g_stamp;
    for (auto &r : s.sym) { u128 v = evalExpr(r.e, model, st); fprintf(fp, "s %s %d %llx\n", r.name.c_str(), r.e->w, (unsigned long long)v); }
    for (auto &o : s.obs) { u64 v = o.e ? (u64)evalExpr(o.e, model, st) : o.c; fprintf(fp, "o %llx\n", (unsigned long long)v); }
    fprintf(fp, "end %s\n", end.c_str());
    fprintf(fp, "# %s\n", stackStr(s).c_str());
    fclose(fp);
}
static void violation(State &s, const std::vector<u64> &model, const std::string &msg) {
    lk();
    bool isNew = true;
    for (int i = 0; i < sh->nViol; i++) if (!strncmp(sh->viol[i], msg.c_str(), 255)) isNew = false;
    int id = sh->nViol;
    if (isNew && sh->nViol < 64) { strncpy(sh->viol[sh->nViol++], msg.c_str(), 255); }
    ulk();
    sh->violations++;
    if (!isNew) return;
    std::string file = optOut + "/viol" + std::to_string(id) + ".case";
    writeCase(s, model, file, msg);
    fprintf(stderr, "symx: VIOLATION %s\n  at %s\n", msg.c_str(), stackStr(s).c_str());
    if (id + 1 >= optMaxViol) sh->stop = 1;
}
[[noreturn]] static void memErr(State &s, const std::string &msg) { violation(s, s.model, "memory: " + msg + " in " + locStr(s.fr.back()->f->code[s.fr.back()->pc].src)); throw EndPath{2}; }
[[noreturn]] static void unsup(State &s, const std::string &msg) {
    fprintf(stderr, "symx: UNSUPPORTED %s at %s\n", msg.c_str(), stackStr(s).c_str());
    sh->errors++; sh->stop = 1; throw EndPath{2};
}

// ---- memory ---------------------------------------------------------------------------------------------------------------------
static u64 allocObj(State &s, u64 size, ObjKind k, uint8_t fill, const char *name = nullptr) {
    if (size >= (1ULL << ASHIFT)) unsup(s, "allocation too large: " + std::to_string(size));
    Obj *o = new Obj((uint32_t)size, k); o->name = name;
    memset(o->d, fill, size);
    u64 idx = s.mem.next++;
    s.mem.set(idx, o);
    return ABASE(idx);
}
static Expr *byteAt(Obj *o, u64 off) { return o->s && o->s[off] ? o->s[off] : eConst(o->d[off], 8); }

static Val readObj(Obj *o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool sym = false;
    if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) {
        if (n <= 8) { u64 v = 0; memcpy(&v, o->d + off, n); return vc(v & mask64(w)); }
        u128 v = 0; memcpy(&v, o->d + off, n); return Val{0, eConst(v, w)};
    }
    Expr *e = byteAt(o, off);
    for (unsigned i = 1; i < n; i++) e = eConcat(byteAt(o, off + i), e);
    if (e->w != w) e = eExtract(e, 0, w);
    if (w > 64) return Val{0, e};
    return ve(e);
}
static void writeObj(Obj *o, u64 off, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        u64 c = v.c; memcpy(o->d + off, &c, n > 8 ? 8 : n);
        if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (v.e->isConst()) { u128 c = v.e->cv(); memcpy(o->d + off, &c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
    o->symInit();
    Expr *e = v.e->w == n * 8 ? v.e : eZExt(v.e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        Expr *b = eExtract(e, i * 8, 8);
        if (b->isConst()) { o->d[off + i] = (uint8_t)b->v; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}

static std::string addrStr(State &s, u64 a) {
    char b[160]; Obj *o = s.mem.get(AIDX(a));
    snprintf(b, sizeof b, "address 0x%llx (object %llu offset %llu, %s size %u%s%s)", (unsigned long long)a, (unsigned long long)AIDX(a), (unsigned long long)AOFF(a), o ? "live" : "not live", o ? o->size : 0, o && o->name ? " " : "", o && o->name ? o->name : "");
    return b;
}

// Resolve an address for an access of n bytes: returns the object index and the offset (constant or expression)
static u64 resolve(State &s, const Val &p, unsigned n, Expr *&offE, u64 &off, const char *what) {
    offE = nullptr;
    if (!p.e) {
        u64 idx = AIDX(p.c); Obj *o = s.mem.get(idx);
        off = AOFF(p.c);
        if (!o || off + n > o->size || o->kind == OFunc) {
            if (!p.c || AIDX(p.c) == 0) memErr(s, std::string(what) + " of null pointer");
            memErr(s, std::string(what) + " out of bounds: " + addrStr(s, p.c));
        }
        return idx;
    }
    Expr *a = simplify(s, p.e);
    if (a->isConst()) { Val q = vc(a->v); return resolve(s, q, n, offE, off, what); }
    u64 v = (u64)evalM(s, a);
    u64 idx = AIDX(v); Obj *o = s.mem.get(idx);
    if (!o || AOFF(v) + n > o->size || o->kind == OFunc) memErr(s, std::string(what) + " out of bounds (symbolic): " + addrStr(s, v));
    Expr *oe = eBin(KSub, a, eConst(ABASE(idx), 64));
    Expr *in = eCmp(KUle, oe, eConst(o->size - n, 64));
    std::vector<u64> nm;
    if (mayBe(s, eNot(in), nm)) { State *x = forkState(s); x->model = nm; addC(*x, eNot(in)); g_work.push_back(x); addC(s, in); }
    oe = simplify(s, oe);
    if (oe->isConst()) { off = oe->v; return idx; }
    offE = oe; off = AOFF(v);
    return idx;
}

static Expr *mux(Expr *idx, unsigned bit, u64 lo, u64 hi, const std::vector<Expr *> &el) {   // el[lo..hi], hi-lo+1 <= 2^bit
    if (lo == hi) return el[lo];
    u64 half = 1ULL << (bit - 1);
    u64 mid = (lo & ~((1ULL << bit) - 1)) + half;
    if (mid > hi) return mux(idx, bit - 1, lo, hi, el);
    if (mid <= lo) return mux(idx, bit - 1, lo, hi, el);
    Expr *L = mux(idx, bit - 1, lo, mid - 1, el), *H = mux(idx, bit - 1, mid, hi, el);
    return eIte(eExtract(idx, bit - 1, 1), H, L);
}

static Val readMem(State &s, const Val &p, unsigned w) {
    unsigned n = (w + 7) / 8; Expr *oe; u64 off;
    u64 idx = resolve(s, p, n, oe, off, "read");
    Obj *o = s.mem.get(idx);
    if (!oe) return readObj(o, off, w);
    u64 lo = oe->umin, hi = std::min(oe->umax, (u64)o->size - n);
    unsigned tz = trailingZeros(oe); if (tz > 3) tz = 3;
    if (lo > hi) { lo = 0; hi = o->size - n; }
    u64 elLo = lo >> tz, elHi = hi >> tz;
    if (elHi - elLo > 1100) {
        // tighten with the solver: find bounds by bisection would cost queries; enumerate instead
        u64 v = concretize(s, oe); return readObj(o, v, w);
    }
    std::vector<Expr *> el(elHi + 1, nullptr);
    for (u64 i = elLo; i <= elHi; i++) { if ((i << tz) + n > o->size) { el[i] = el[i - 1]; continue; } Val v = readObj(o, i << tz, w); el[i] = toExpr(v, w); }
    unsigned bits = 1; while ((elHi >> bits) != 0) bits++;
    Expr *ix = eExtract(oe, tz, 64 - tz);
    Expr *r = mux(ix, bits, elLo, elHi, el);
    if (w > 64) return Val{0, r};
    return ve(r);
}
static void writeMem(State &s, const Val &p, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8; Expr *oe; u64 off;
    u64 idx = resolve(s, p, n, oe, off, "write");
    Obj *o = s.mem.get(idx);
    if (o->readOnly) memErr(s, "write to constant");
    if (oe) {
        u64 lo = oe->umin, hi = std::min(oe->umax, (u64)o->size - n); unsigned tz = trailingZeros(oe); if (tz > 3) tz = 3;
        if (lo <= hi && ((hi - lo) >> tz) <= 128) {
            o = s.mem.getW(idx);
            for (u64 x = (lo >> tz) << tz; x <= hi; x += 1ULL << tz) {
                if (x < lo) continue;
                Expr *old = toExpr(readObj(o, x, n * 8), n * 8), *nv = eZExt(toExpr(v, w), n * 8);
                Expr *r = eIte(eEq(eConst(x, 64), oe), nv, old);
                writeObj(o, x, n * 8 > 64 ? Val{0, r} : ve(r), n * 8);
            }
            return;
        }
        off = concretize(s, oe);
    }
    writeObj(s.mem.getW(idx), off, v, w);
}

// Copy n bytes; both pointers concrete
static void copyMem(State &s, u64 d, u64 sa, u64 n) {
    if (!n) return;
    Expr *oe; u64 so, dof;
    u64 si = resolve(s, vc(sa), 1, oe, so, "read"); Obj *src = s.mem.get(si);
    if (so + n > src->size) memErr(s, "read out of bounds in copy of " + std::to_string(n) + " bytes: " + addrStr(s, sa));
    u64 di = resolve(s, vc(d), 1, oe, dof, "write"); Obj *dst = s.mem.get(di);
    if (dof + n > dst->size) memErr(s, "write out of bounds in copy of " + std::to_string(n) + " bytes: " + addrStr(s, d));
    if (dst->readOnly) memErr(s, "write to constant");
    dst = s.mem.getW(di); src = s.mem.get(si);
    memmove(dst->d + dof, src->d + so, n);
    bool any = false;
    if (src->s) for (u64 i = 0; i < n; i++) if (src->s[so + i]) { any = true; break; }
    if (any) { dst->symInit(); memmove(dst->s + dof, src->s + so, n * sizeof(Expr *)); }
    else if (dst->s) memset(dst->s + dof, 0, n * sizeof(Expr *));
}
static void freeObj(State &s, u64 idx) { s.mem.set(idx, nullptr); }

static std::string readStr(State &s, u64 a, size_t max = 4096) {
    std::string r;
    while (r.size() < max) { Val v = readMem(s, vc(a++), 8); u64 c = v.e ? concretize(s, v.e) : v.c; if (!c) break; r += (char)c; }
    return r;
}

// ---- interpreter ----------------------------------------------------------------------------------------------------------------
static inline Val &R(Frame *f, int i) { return f->r[i]; }
static inline const Val &opv(Frame *f, int o) { return o >= 0 ? f->r[o] : f->f->cpool[-o - 1]; }

static void setRet(State &s, Inst &x, Val v) { Frame *f = s.top(); if (x.dst >= 0) f->r[x.dst] = v; f->pc++; }
static Val arg(State &s, CallInfo &c, unsigned i) { return opv(s.fr.back(), c.args[i]); }
static u64 argC(State &s, CallInfo &c, unsigned i) { return cval(s, arg(s, c, i), c.w[i]); }
static Expr *argE(State &s, CallInfo &c, unsigned i) { return toExpr(arg(s, c, i), c.w[i]); }

static void popFrame(State &s) {
    Frame *f = s.fr.back();
    for (u64 a : f->allocas) freeObj(s, a);
    s.fr.pop_back();
    if (!--f->ref) delete f;
}
static bool pushCall(State &s, Func *callee, const std::vector<Val> &args, const std::vector<uint8_t> &w, const std::vector<uint32_t> *byval, unsigned nFixed) {
    if (!callee->compiled) compile(*callee);
    if (callee->code.empty()) return false;
    if (callee->idx < MAXFUNC) sh->func[callee->idx] = 1;
    if (s.fr.size() > 600) unsup(s, "stack too deep");
    Frame *f = new Frame; f->ref = 1; f->f = callee; f->uid = s.nextUid++; f->r.resize((size_t)callee->nReg, vc(0));
    size_t nA = callee->argSlot.size();
    s.fr.push_back(f);
    // Arguments: leaves in order (fixed arguments only)
    size_t k = 0; int slot = 0;
    for (size_t i = 0; i < nA && k < args.size(); i++) {
        unsigned lv = (unsigned)((i + 1 < nA ? callee->argSlot[i + 1] : -1) - callee->argSlot[i]);
        if (i + 1 == nA) lv = nLeaves(callee->F->getArg((unsigned)i)->getType());
        for (unsigned j = 0; j < lv && k < args.size(); j++, k++) {
            Val v = args[k];
            if (callee->argByval[i]) { u64 a = allocObj(s, callee->argByval[i], OStack, 0); f->allocas.push_back(AIDX(a)); if (v.e) unsup(s, "symbolic byval"); copyMem(s, a, v.c, callee->argByval[i]); v = vc(a); }
            f->r[callee->argSlot[i] + (int)j] = v;
        }
        slot++;
    }
    if (callee->isVar) {
        u64 total = 0;
        for (size_t i = nFixed; i < args.size(); i++) { u64 sz = byval && (*byval)[i] ? (*byval)[i] : 8; total += (sz + 7) & ~7ULL; }
        u64 a = allocObj(s, total + 8, OStack, 0); f->allocas.push_back(AIDX(a)); f->va = a;
        u64 off = 0;
        for (size_t i = nFixed; i < args.size(); i++) {
            if (byval && (*byval)[i]) { copyMem(s, a + off, args[i].c, (*byval)[i]); off += ((*byval)[i] + 7) & ~7ULL; continue; }
            Val v = args[i];
            if (v.e && v.e->w < 64) v = ve(eZExt(v.e, 64));
            writeObj(s.mem.getW(AIDX(a)), off, v, 64); off += 8;
            (void)w;
        }
    }
    return true;
}

static void takeEdge(Frame *f, uint32_t ei) {
    Edge &e = f->f->edges[ei];
    size_t n = e.phi.size();
    if (n == 1) f->r[e.phi[0].first] = opv(f, e.phi[0].second);
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val *t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = opv(f, e.phi[i].second);
        for (size_t i = 0; i < n; i++) f->r[e.phi[i].first] = t[i];
    }
    f->pc = e.pc;
}

static void doIntrinsic(State &s, Func &, Inst &x, CallInfo &c);

static void checkDiv(State &s, Inst &x, Expr *d) {
    Expr *z = simplify(s, eEq(eConst(0, d->w), d));
    if (z->isConst() && !z->v) return;
    std::vector<u64> nm;
    if (mayBe(s, z, nm)) { s.model = nm; addC(s, z->isConst() ? eTrue() : z); violation(s, nm, "division by zero in " + locStr(x.src)); throw EndPath{2}; }
}

static double asD(u64 v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

static void step(State &s) {
    Frame *f = s.top();
    Inst &x = f->f->code[f->pc];
    switch (x.op) {
    case OBin: {
        const Val &a = opv(f, x.a), &b = opv(f, x.b);
        unsigned w = x.w;
        if (!a.e && !b.e) {
            u64 p = a.c, q = b.c, r; u64 m = mask64(w);
            switch (x.k) {
            case KAdd: r = p + q; break; case KSub: r = p - q; break; case KMul: r = p * q; break; case KAnd: r = p & q; break; case KOr: r = p | q; break; case KXor: r = p ^ q; break;
            case KShl: r = q >= w ? 0 : p << q; break; case KLShr: r = q >= w ? 0 : p >> q; break;
            default: { bool ok; r = (u64)constFold((Kind)x.k, p, q, w, ok); if (!ok) { violation(s, s.model, "division by zero in " + locStr(x.src)); throw EndPath{2}; } }
            }
            f->r[x.dst] = vc(r & m);
        } else {
            Expr *A = toExpr(a, w), *B = toExpr(b, w);
            if (x.k == KUDiv || x.k == KSDiv || x.k == KURem || x.k == KSRem) { if (!B->isConst() || B->cv() == 0) checkDiv(s, x, B); }
            Expr *e = eBin((Kind)x.k, A, B);
            s.top()->r[x.dst] = w > 64 ? Val{0, e} : ve(e);
        }
        s.fr.back()->pc++; return;
    }
    case OICmp: {
        const Val &a = opv(f, x.a), &b = opv(f, x.b);
        if (!a.e && !b.e) {
            bool ok; u64 r = (u64)constFold((Kind)x.k, a.c, b.c, x.w2, ok);
            f->r[x.dst] = vc(r ^ (u64)x.c);
        } else { Expr *e = eCmp((Kind)x.k, toExpr(a, x.w2), toExpr(b, x.w2)); if (x.c) e = eNot(e); f->r[x.dst] = ve(e); }
        f->pc++; return;
    }
    case OTrunc: { const Val &a = opv(f, x.a); f->r[x.dst] = a.e ? (x.w > 64 ? Val{0, eExtract(a.e, 0, x.w)} : ve(eExtract(a.e, 0, x.w))) : vc(a.c & mask64(x.w)); f->pc++; return; }
    case OZExt: { const Val &a = opv(f, x.a); f->r[x.dst] = x.w > 64 ? Val{0, eZExt(toExpr(a, x.w2), x.w)} : a.e ? ve(eZExt(a.e, x.w)) : a; f->pc++; return; }
    case OSExt: { const Val &a = opv(f, x.a); f->r[x.dst] = x.w > 64 ? Val{0, eSExt(toExpr(a, x.w2), x.w)} : a.e ? ve(eSExt(a.e, x.w)) : vc((u64)sx(a.c, x.w2) & mask64(x.w)); f->pc++; return; }
    case OMov: f->r[x.dst] = opv(f, x.a); f->pc++; return;
    case OBitcast: {
        MemTy &to = f->f->mts[x.aux], &fr = f->f->mts[x.aux + 1]; auto &l = f->f->lists[(size_t)x.a];
        Expr *e = nullptr;
        for (size_t i = 0; i < l.size(); i++) { Expr *v = toExpr(opv(f, l[i]), fr.leaf[i].second); e = e ? eConcat(v, e) : v; }
        unsigned off = 0;
        for (size_t i = 0; i < to.leaf.size(); i++) { Expr *v = eExtract(e, off, to.leaf[i].second); off += to.leaf[i].second; f->r[x.dst + (int)i] = to.leaf[i].second > 64 ? Val{0, v} : ve(v); }
        f->pc++; return;
    }
    case OLoad: {
        Val p = opv(f, x.a);
        MemTy &mt = f->f->mts[x.aux];
        if (mt.leaf.size() == 1) { Val v = readMem(s, p, mt.leaf[0].second); s.top()->r[x.dst] = v; }
        else {
            if (p.e) p = vc(concretize(s, p.e));
            for (size_t i = 0; i < mt.leaf.size(); i++) s.top()->r[x.dst + (int)i] = readMem(s, vc(p.c + mt.leaf[i].first), mt.leaf[i].second);
        }
        s.top()->pc++; return;
    }
    case OStore: {
        Val p = opv(f, x.a);
        MemTy &mt = f->f->mts[x.aux];
        if (mt.leaf.size() == 1) writeMem(s, p, opv(f, x.b), mt.leaf[0].second);
        else {
            if (p.e) p = vc(concretize(s, p.e));
            auto &l = f->f->lists[(size_t)x.b];
            for (size_t i = 0; i < mt.leaf.size(); i++) writeMem(s, vc(p.c + mt.leaf[i].first), opv(s.fr.back(), l[i]), mt.leaf[i].second);
        }
        s.top()->pc++; return;
    }
    case OGep: {
        GepInfo &g = f->f->geps[x.aux];
        Val b = opv(f, x.a);
        u64 off = g.off; Expr *oe = nullptr;
        for (auto &t : g.idx) {
            const Val &v = opv(f, std::get<0>(t)); u64 sc = std::get<1>(t); unsigned w = std::get<2>(t);
            if (!v.e) off += (u64)sx(v.c, w) * sc;
            else { Expr *e = eBin(KMul, eSExt(v.e, 64), eConst(sc, 64)); oe = oe ? eBin(KAdd, oe, e) : e; }
        }
        if (!b.e && !oe) f->r[x.dst] = vc(b.c + off);
        else {
            // keep base and constant offset together
            Expr *e = b.e ? eBin(KAdd, b.e, eConst(off, 64)) : eConst(b.c + off, 64);
            if (oe) e = eBin(KAdd, e, oe);
            f->r[x.dst] = ve(e);
        }
        f->pc++; return;
    }
    case OSelect: {
        const Val &c = opv(f, x.a);
        if (!c.e) { f->r[x.dst] = c.c & 1 ? opv(f, x.b) : opv(f, x.c); f->pc++; return; }
        const Val &a = opv(f, x.b), &b = opv(f, x.c);
        if (!a.e && !b.e && a.c == b.c && x.w <= 64) { f->r[x.dst] = a; f->pc++; return; }
        if (x.k) { bool t = decide(s, c.e); Frame *g = s.top(); g->r[x.dst] = t ? opv(g, x.b) : opv(g, x.c); g->pc++; return; }
        Expr *e = eIte(c.e, toExpr(a, x.w), toExpr(b, x.w));
        f->r[x.dst] = x.w > 64 ? Val{0, e} : ve(e); f->pc++; return;
    }
    case OBr: takeEdge(f, x.aux); return;
    case OCondBr: {
        const Val &c = opv(f, x.a);
        bool t = c.e ? decide(s, c.e) : (c.c & 1);
        takeEdge(s.top(), (uint32_t)(t ? x.b : x.c)); return;
    }
    case OSwitch: {
        SwInfo &si = f->f->sws[x.aux];
        Val v = opv(f, x.a);
        if (v.e) { Expr *e = simplify(s, v.e); v = ve(e); }
        if (!v.e) { uint32_t e = si.def; for (auto &p : si.cases) if (p.first == v.c) { e = p.second; break; } takeEdge(f, e); return; }
        // group by target; decide one target at a time
        std::map<uint32_t, Expr *> by; Expr *any = eFalse();
        for (auto &p : si.cases) { Expr *q = eEq(eConst(p.first, x.w), v.e); any = eBin(KOr, any, q); auto it = by.find(p.second); if (it == by.end()) by[p.second] = q; else it->second = eBin(KOr, it->second, q); }
        auto it = by.find(si.def);
        if (it != by.end()) it->second = eBin(KOr, it->second, eNot(any)); else by[si.def] = eNot(any);
        // pick the target the model takes
        for (auto &p : by) {
            Expr *q = simplify(s, p.second);
            if (q->isConst() ? q->v : (evalM(s, q) != 0)) {
                if (!q->isConst()) { std::vector<u64> nm; if (mayBe(s, eNot(q), nm)) { State *n = forkState(s); n->model = nm; addC(*n, eNot(q)); g_work.push_back(n); addC(s, q); } }
                takeEdge(s.top(), p.first); return;
            }
        }
        abort();
    }
    case ORet: {
        auto &l = f->f->lists[x.aux];
        Val rv[16]; size_t n = l.size();
        if (n > 16) unsup(s, "large aggregate return");
        for (size_t i = 0; i < n; i++) rv[i] = opv(f, l[i]);
        popFrame(s);
        if (s.fr.empty()) throw EndPath{0};
        Frame *g = s.top();
        Inst &cx = g->f->code[g->pc];
        if (cx.dst >= 0) for (size_t i = 0; i < n; i++) g->r[cx.dst + (int)i] = rv[i];
        g->pc++;
        return;
    }
    case OAlloca: {
        u64 cnt = cval(s, opv(f, x.a), x.w2);
        u64 a = allocObj(s, f->f->geps[x.aux].off * cnt, OStack, 0xA5);
        f = s.top(); f->allocas.push_back(AIDX(a)); f->r[x.dst] = vc(a); f->pc++; return;
    }
    case OCall: {
        CallInfo &c = f->f->calls[x.aux];
        if (c.iid) { doIntrinsic(s, *f->f, x, c); return; }
        if (c.builtin >= 0) { g_b[(size_t)c.builtin](s, *f->f, x, c); return; }
        Func *callee = c.callee;
        if (c.builtin == -3) {
            u64 a = cval(s, opv(f, c.fnOp), 64);
            auto it = g_fnAddr.find(a);
            if (it == g_fnAddr.end()) memErr(s, "call through invalid function pointer " + addrStr(s, a));
            callee = it->second;
            Function *rf = resolveDecl(callee->F);
            if (rf != callee->F) callee = funcOf(rf);
            if (rf->isDeclaration()) {
                auto bi = g_bname.find(callee->name);
                if (bi == g_bname.end()) unsup(s, "call of external function " + callee->name);
                g_b[(size_t)bi->second](s, *f->f, x, c); return;
            }
        } else if (c.builtin == -2) unsup(s, "call of external function " + c.name);
        std::vector<Val> args; args.reserve(c.args.size());
        for (int o : c.args) args.push_back(opv(f, o));
        if (optTrace) fprintf(stderr, "%*s%s\n", (int)s.fr.size(), "", callee->name.c_str());
        pushCall(s, callee, args, c.w, &c.byval, c.nFixed);
        return;
    }
    case OFBin: {
        u64 a = cval(s, opv(f, x.a), x.w), b = cval(s, opv(s.fr.back(), x.b), x.w); double p = asD(a, x.w), q = asD(b, x.w), r = 0;
        switch ((unsigned)x.c) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; case Instruction::FRem: r = fmod(p, q); break; }
        f = s.top(); f->r[x.dst] = vc(fromD(r, x.w)); f->pc++; return;
    }
    case OFNeg: { u64 a = cval(s, opv(f, x.a), x.w); f = s.top(); f->r[x.dst] = vc(fromD(-asD(a, x.w), x.w)); f->pc++; return; }
    case OFCmp: {
        u64 a = cval(s, opv(f, x.a), x.w2), b = cval(s, opv(s.fr.back(), x.b), x.w2); double p = asD(a, x.w2), q = asD(b, x.w2); bool un = std::isnan(p) || std::isnan(q), r = false;
        switch ((CmpInst::Predicate)x.c) {
        case CmpInst::FCMP_OEQ: r = !un && p == q; break; case CmpInst::FCMP_UEQ: r = un || p == q; break; case CmpInst::FCMP_ONE: r = !un && p != q; break; case CmpInst::FCMP_UNE: r = un || p != q; break;
        case CmpInst::FCMP_OLT: r = !un && p < q; break; case CmpInst::FCMP_ULT: r = un || p < q; break; case CmpInst::FCMP_OLE: r = !un && p <= q; break; case CmpInst::FCMP_ULE: r = un || p <= q; break;
        case CmpInst::FCMP_OGT: r = !un && p > q; break; case CmpInst::FCMP_UGT: r = un || p > q; break; case CmpInst::FCMP_OGE: r = !un && p >= q; break; case CmpInst::FCMP_UGE: r = un || p >= q; break;
        case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; default: break;
        }
        f = s.top(); f->r[x.dst] = vc(r); f->pc++; return;
    }
    case OFCast: {
        u64 a = cval(s, opv(f, x.a), x.w2); u64 r = 0;
        switch ((unsigned)x.c) {
        case Instruction::FPToUI: r = (u64)asD(a, x.w2) & mask64(x.w); break; case Instruction::FPToSI: r = (u64)(int64_t)asD(a, x.w2) & mask64(x.w); break;
        case Instruction::UIToFP: r = fromD((double)a, x.w); break; case Instruction::SIToFP: r = fromD((double)(int64_t)sx(a, x.w2), x.w); break;
        case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(a, x.w2), x.w); break;
        }
        f = s.top(); f->r[x.dst] = vc(r); f->pc++; return;
    }
    case OUnreach: violation(s, s.model, "unreachable code reached in " + locStr(x.src)); throw EndPath{2};
    default: { std::string t; raw_string_ostream os(t); os << *x.src; unsup(s, "instruction " + t); }
    }
}

static void doIntrinsic(State &s, Func &, Inst &x, CallInfo &c) {
    unsigned w = c.retW;
    auto E = [&](unsigned i) { return argE(s, c, i); };
    auto ret = [&](Expr *e) { setRet(s, x, e->w > 64 ? Val{0, e} : ve(e)); };
    switch (c.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = argC(s, c, 2), d = argC(s, c, 0), a = argC(s, c, 1); copyMem(s, d, a, n); s.top()->pc++; return; }
    case Intrinsic::memset: {
        u64 n = argC(s, c, 2), d = argC(s, c, 0); Val v = arg(s, c, 1);
        if (n) { Expr *oe; u64 off; u64 idx = resolve(s, vc(d), 1, oe, off, "write"); Obj *o = s.mem.get(idx); if (off + n > o->size) memErr(s, "memset out of bounds: " + addrStr(s, d)); if (o->readOnly) memErr(s, "write to constant"); o = s.mem.getW(idx); if (!v.e) { memset(o->d + off, (int)v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *)); } else for (u64 i = 0; i < n; i++) writeObj(o, off + i, v, 8); }
        s.top()->pc++; return;
    }
    case Intrinsic::umax: { Expr *a = E(0), *b = E(1); ret(eIte(eCmp(KUlt, a, b), b, a)); return; }
    case Intrinsic::umin: { Expr *a = E(0), *b = E(1); ret(eIte(eCmp(KUlt, a, b), a, b)); return; }
    case Intrinsic::smax: { Expr *a = E(0), *b = E(1); ret(eIte(eCmp(KSlt, a, b), b, a)); return; }
    case Intrinsic::smin: { Expr *a = E(0), *b = E(1); ret(eIte(eCmp(KSlt, a, b), a, b)); return; }
    case Intrinsic::abs: { Expr *a = E(0); ret(eIte(eCmp(KSlt, a, eConst(0, w)), eBin(KSub, eConst(0, w), a), a)); return; }
    case Intrinsic::bswap: { Expr *a = E(0), *r = eExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = eConcat(r, eExtract(a, i, 8)); ret(r); return; }
    case Intrinsic::ctpop: { Expr *a = E(0), *r = eConst(0, w); for (unsigned i = 0; i < w; i++) r = eBin(KAdd, r, eZExt(eExtract(a, i, 1), w)); ret(r); return; }
    case Intrinsic::ctlz: { Expr *a = E(0), *r = eConst(w, w); for (unsigned i = 0; i < w; i++) r = eIte(eExtract(a, i, 1), eConst(w - 1 - i, w), r); ret(r); return; }
    case Intrinsic::cttz: { Expr *a = E(0), *r = eConst(w, w); for (unsigned i = w; i-- > 0;) r = eIte(eExtract(a, i, 1), eConst(i, w), r); ret(r); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Expr *a = E(0), *b = E(1), *n = eBin(KURem, E(2), eConst(w, w)); Expr *cc = eConcat(a, b), *n2 = eZExt(n, 2 * w);
        if (2 * w > 128) { // 64-bit funnel shift fits in 128
            unsup(s, "wide funnel shift");
        }
        Expr *r = c.iid == Intrinsic::fshl ? eExtract(eBin(KShl, cc, n2), w, w) : eExtract(eBin(KLShr, cc, n2), 0, w);
        ret(r); return;
    }
    case Intrinsic::usub_sat: { Expr *a = E(0), *b = E(1); ret(eIte(eCmp(KUlt, a, b), eConst(0, w), eBin(KSub, a, b))); return; }
    case Intrinsic::uadd_sat: { Expr *a = E(0), *b = E(1), *r = eBin(KAdd, a, b); ret(eIte(eCmp(KUlt, r, a), eConst(maskW(w), w), r)); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Expr *a = E(0), *b = E(1); unsigned n = a->w; bool sg = c.iid == Intrinsic::sadd_with_overflow || c.iid == Intrinsic::ssub_with_overflow || c.iid == Intrinsic::smul_with_overflow;
        Kind k = (c.iid == Intrinsic::uadd_with_overflow || c.iid == Intrinsic::sadd_with_overflow) ? KAdd : (c.iid == Intrinsic::umul_with_overflow || c.iid == Intrinsic::smul_with_overflow) ? KMul : KSub;
        unsigned W = k == KMul ? 2 * n : n + 2; if (W > 128) W = 128;
        Expr *p = sg ? eSExt(a, W) : eZExt(a, W), *q = sg ? eSExt(b, W) : eZExt(b, W), *r = eBin(k, p, q), *t = eExtract(r, 0, n);
        Expr *ov = eNot(eEq(sg ? eSExt(t, W) : eZExt(t, W), r));
        Frame *f = s.top(); f->r[x.dst] = ve(t); f->r[x.dst + 1] = ve(ov); f->pc++; return;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::ptr_annotation: setRet(s, x, arg(s, c, 0)); return;
    case Intrinsic::is_constant: setRet(s, x, vc(0)); return;
    case Intrinsic::objectsize: setRet(s, x, vc(argC(s, c, 1) ? 0 : mask64(w))); return;
    case Intrinsic::stacksave: setRet(s, x, vc(0)); return;
    case Intrinsic::stackrestore: s.top()->pc++; return;
    case Intrinsic::vastart: {
        u64 p = argC(s, c, 0); Frame *f = s.top();
        writeMem(s, vc(p), vc(48), 32); writeMem(s, vc(p + 4), vc(176), 32); writeMem(s, vc(p + 8), vc(f->va), 64); writeMem(s, vc(p + 16), vc(0), 64);
        s.top()->pc++; return;
    }
    case Intrinsic::vacopy: { u64 d = argC(s, c, 0), a = argC(s, c, 1); copyMem(s, d, a, 24); s.top()->pc++; return; }
    case Intrinsic::trap: violation(s, s.model, "trap in " + locStr(x.src)); throw EndPath{2};
    case Intrinsic::fabs: setRet(s, x, vc(fromD(fabs(asD(argC(s, c, 0), w)), w))); return;
    case Intrinsic::floor: setRet(s, x, vc(fromD(floor(asD(argC(s, c, 0), w)), w))); return;
    case Intrinsic::ceil: setRet(s, x, vc(fromD(ceil(asD(argC(s, c, 0), w)), w))); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: setRet(s, x, vc(fromD(rint(asD(argC(s, c, 0), w)), w))); return;
    case Intrinsic::fmuladd: { double a = asD(argC(s, c, 0), w), b = asD(argC(s, c, 1), w), d = asD(argC(s, c, 2), w); setRet(s, x, vc(fromD(a * b + d, w))); return; }
    default: unsup(s, "intrinsic " + c.name);
    }
}

// ---- builtin functions ----------------------------------------------------------------------------------------------------------
#define B(name) static void b_##name(State &s, Func &, Inst &x, CallInfo &c)
static Expr *newSym(State &s, const std::string &name, unsigned w) {
    uint32_t n = s.symCount[name]++;
    std::string full = name + "#" + std::to_string(n);
    static std::unordered_map<std::string, Expr *> vars;
    std::string key = full + ":" + std::to_string(w);
    auto it = vars.find(key);
    Expr *e = it != vars.end() ? it->second : (vars[key] = eVar(full, w));
    if (s.model.size() <= e->v) s.model.resize(e->v + 1, 0);
    s.model[e->v] = 0;
    s.sym.push_back({full, e});
    return e;
}
B(vh_u64) { std::string n = readStr(s, argC(s, c, 0)); setRet(s, x, ve(newSym(s, n, 64))); }
B(vh_u32) { std::string n = readStr(s, argC(s, c, 0)); setRet(s, x, ve(newSym(s, n, 32))); }
B(vh_u16) { std::string n = readStr(s, argC(s, c, 0)); setRet(s, x, ve(newSym(s, n, 16))); }
B(vh_u8) { std::string n = readStr(s, argC(s, c, 0)); setRet(s, x, ve(newSym(s, n, 8))); }
B(vh_bool) { std::string n = readStr(s, argC(s, c, 0)); setRet(s, x, ve(eZExt(newSym(s, n, 1), c.retW))); }
B(vh_bytes) {
    u64 p = argC(s, c, 0), n = argC(s, c, 1); std::string nm = readStr(s, argC(s, c, 2));
    for (u64 i = 0; i < n; i++) writeMem(s, vc(p + i), ve(newSym(s, nm + "." + std::to_string(i), 8)), 8);
    s.top()->pc++;
}
B(vh_assume) {
    Val v = arg(s, c, 0); Expr *e = simplify(s, eNot(eEq(eConst(0, c.w[0]), toExpr(v, c.w[0]))));
    std::vector<u64> nm;
    if (!mayBe(s, e, nm)) throw EndPath{1};
    s.model = nm; addC(s, e); s.top()->pc++;
}
B(vh_assert) {
    sh->asserts++;
    Val v = arg(s, c, 0); Expr *e = simplify(s, eNot(eEq(eConst(0, c.w[0]), toExpr(v, c.w[0]))));
    if (e->isConst() && e->v) { s.top()->pc++; return; }
    std::vector<u64> nm; Expr *ne = eNot(e);
    if (!e->isConst()) sh->assertSolved++;
    if (mayBe(s, ne, nm)) {
        std::string msg = readStr(s, argC(s, c, 1));
        violation(s, nm, "assert: " + msg);
        if (!mayBe(s, e, nm)) throw EndPath{2};
        s.model = nm; addC(s, e);
    }
    s.top()->pc++;
}
B(vh_fail) { std::string msg = readStr(s, argC(s, c, 0)); sh->asserts++; violation(s, s.model, "assert: " + msg); throw EndPath{2}; }
B(vh_reach) {
    std::string l = readStr(s, argC(s, c, 0));
    lk(); int i; for (i = 0; i < sh->nLabel; i++) if (!strcmp(sh->label[i], l.c_str())) break;
    if (i == sh->nLabel && sh->nLabel < MAXLABEL) { strncpy(sh->label[sh->nLabel++], l.c_str(), 127); }
    if (i < MAXLABEL) sh->labelCount[i]++;
    ulk(); s.top()->pc++;
}
B(vh_observe) { Val v = arg(s, c, 0); s.obs.push_back(v); s.top()->pc++; }
B(vh_end) { throw EndPath{0}; }
B(vh_concretize) { u64 v = argC(s, c, 0); setRet(s, x, vc(v)); }
B(vh_is_symbolic) { Val v = arg(s, c, 0); setRet(s, x, vc(v.e && !simplify(s, v.e)->isConst())); }
B(vh_arg) { setRet(s, x, vc(optArg[argC(s, c, 0) & 15])); }
B(vh_symbolic_run) { setRet(s, x, vc(1)); }
B(vh_print) { std::string m = readStr(s, argC(s, c, 0)); Val v = arg(s, c, 1); fprintf(stderr, "[print] %s %s\n", m.c_str(), v.e ? exprStr(simplify(s, v.e), 6).c_str() : std::to_string(v.c).c_str()); s.top()->pc++; }
B(vh_prints) { std::string m = readStr(s, argC(s, c, 0)); u64 p = argC(s, c, 1); fprintf(stderr, "[print] %s %s\n", m.c_str(), p ? readStr(s, p).c_str() : "(null)"); s.top()->pc++; }
// Boolean combination without forking
B(vh_and) { setRet(s, x, ve(eZExt(eBin(KAnd, eNot(eEq(eConst(0, c.w[0]), argE(s, c, 0))), eNot(eEq(eConst(0, c.w[1]), argE(s, c, 1)))), c.retW))); }
B(vh_or) { setRet(s, x, ve(eZExt(eBin(KOr, eNot(eEq(eConst(0, c.w[0]), argE(s, c, 0))), eNot(eEq(eConst(0, c.w[1]), argE(s, c, 1)))), c.retW))); }
B(vh_ite) { setRet(s, x, ve(eIte(eNot(eEq(eConst(0, c.w[0]), argE(s, c, 0))), argE(s, c, 1), argE(s, c, 2)))); }
// Is the whole range concrete?
B(vh_range_concrete) {
    u64 p = argC(s, c, 0), n = argC(s, c, 1); bool ok = true;
    if (n) { Expr *oe; u64 off; u64 i = resolve(s, vc(p), 1, oe, off, "read"); Obj *o = s.mem.get(i); if (off + n > o->size) memErr(s, "read out of bounds: " + addrStr(s, p)); if (o->s) for (u64 k = 0; k < n; k++) if (o->s[off + k]) { ok = false; break; } }
    setRet(s, x, vc(ok));
}

B(malloc) { u64 n = argC(s, c, 0); u64 a = allocObj(s, n, OHeap, 0xA5); setRet(s, x, vc(a)); }
B(calloc) { u64 n = argC(s, c, 0) * argC(s, c, 1); u64 a = allocObj(s, n, OHeap, 0); setRet(s, x, vc(a)); }
static void heapCheck(State &s, u64 p) { Obj *o = s.mem.get(AIDX(p)); if (!o || AOFF(p) || o->kind != OHeap) memErr(s, "invalid free of " + addrStr(s, p)); }
B(free) { u64 p = argC(s, c, 0); if (p) { heapCheck(s, p); freeObj(s, AIDX(p)); } s.top()->pc++; }
B(realloc) {
    u64 p = argC(s, c, 0), n = argC(s, c, 1);
    if (p) heapCheck(s, p);
    u64 a = allocObj(s, n, OHeap, 0xA5);
    if (p) { u64 os = s.mem.get(AIDX(p))->size; copyMem(s, a, p, std::min(os, n)); freeObj(s, AIDX(p)); }
    setRet(s, x, vc(a));
}
B(memcpy) { u64 n = argC(s, c, 2), d = argC(s, c, 0), a = argC(s, c, 1); copyMem(s, d, a, n); setRet(s, x, vc(d)); }
B(memset) {
    u64 n = argC(s, c, 2), d = argC(s, c, 0); Val v = arg(s, c, 1);
    if (v.e) v = ve(eExtract(v.e, 0, 8));
    if (n && !v.e) {
        Expr *oe; u64 off, i = resolve(s, vc(d), 1, oe, off, "write"); Obj *o = s.mem.get(i);
        if (off + n > o->size) memErr(s, "write out of bounds in memset of " + std::to_string(n) + " bytes: " + addrStr(s, d));
        if (o->readOnly) memErr(s, "write to constant");
        o = s.mem.getW(i); memset(o->d + off, (int)(v.c & 0xff), n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *));
    }
    else for (u64 i = 0; i < n; i++) writeMem(s, vc(d + i), v.e ? v : vc(v.c & 0xff), 8);
    setRet(s, x, vc(d));
}
static void boundsN(State &s, u64 p, u64 n) { if (!n) return; Expr *oe; u64 off; u64 i = resolve(s, vc(p), 1, oe, off, "read"); if (off + n > s.mem.get(i)->size) memErr(s, "read out of bounds: " + addrStr(s, p)); }
B(memcmp) {
    u64 a = argC(s, c, 0), b = argC(s, c, 1), n = argC(s, c, 2); boundsN(s, a, n); boundsN(s, b, n);
    Expr *r = eConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr *p = toExpr(readMem(s, vc(a + i), 8), 8), *q = toExpr(readMem(s, vc(b + i), 8), 8);
        if (p == q) continue;
        r = eIte(eEq(p, q), r, eBin(KSub, eZExt(p, 32), eZExt(q, 32)));
    }
    setRet(s, x, ve(r));
}
B(bcmp) {
    u64 a = argC(s, c, 0), b = argC(s, c, 1), n = argC(s, c, 2); boundsN(s, a, n); boundsN(s, b, n);
    Expr *r = eTrue();
    for (u64 i = 0; i < n; i++) { Expr *p = toExpr(readMem(s, vc(a + i), 8), 8), *q = toExpr(readMem(s, vc(b + i), 8), 8); r = eBin(KAnd, r, eEq(p, q)); if (r->isConst()) { if (!r->v) break; } }
    setRet(s, x, ve(eZExt(eNot(r), 32)));
}
// strlen when the bytes up to the terminator are concrete; -1 otherwise
// Digest model, whole buffers of concrete bytes at once: (data, n, position, first, size - 2, fold, lanes, sum). False where a byte is symbolic.
B(vh_hash_bulk) {
    u64 d = argC(s, c, 0), n = argC(s, c, 1), pos = argC(s, c, 2), first = argC(s, c, 3), fn = argC(s, c, 4), fold = argC(s, c, 5), lanes = argC(s, c, 6), sum = argC(s, c, 7);
    if (n < 16) { setRet(s, x, vc(0)); return; }
    Expr *oe; u64 off; u64 i = resolve(s, vc(d), 1, oe, off, "read"); Obj *o = s.mem.get(i);
    if (off + n > o->size) memErr(s, "read out of bounds: " + addrStr(s, d));
    if (o->s) for (u64 k = 0; k < n; k++) if (o->s[off + k]) { setRet(s, x, vc(0)); return; }
    std::vector<uint8_t> f(lanes);
    for (u64 k = 0; k < lanes; k++) { Val v = readMem(s, vc(fold + k), 8); if (v.e) { setRet(s, x, vc(0)); return; } f[k] = (uint8_t)v.c; }
    Val sv = readMem(s, vc(sum), 64); if (sv.e) { setRet(s, x, vc(0)); return; }
    u64 t = sv.c; o = s.mem.get(i);
    std::vector<uint8_t> buf(n); for (u64 k = 0; k < n; k++) buf[k] = o->d[off + k];
    for (u64 k = 0; k < n; k++) {
        u64 p = pos + k, w = (p + 1) * 0x9E3779B97F4A7C15ULL; w ^= w >> 30; w *= 0xBF58476D1CE4E5B9ULL; w ^= w >> 27; w |= 1;
        uint8_t v = buf[k]; unsigned r = (unsigned)(p / lanes) & 7;
        if (p < fn) writeMem(s, vc(first + p), vc(v), 8);
        f[p % lanes] ^= (uint8_t)((v << r) | (v >> ((8 - r) & 7))); t += v * w;
    }
    for (u64 k = 0; k < lanes; k++) writeMem(s, vc(fold + k), vc(f[k]), 8);
    writeMem(s, vc(sum), vc(t), 64);
    setRet(s, x, vc(1));
}
B(vh_strlen_fast) {
    u64 p = argC(s, c, 0); Expr *oe; u64 off; u64 i = resolve(s, vc(p), 1, oe, off, "read"); Obj *o = s.mem.get(i);
    u64 n = 0; long r = -1;
    for (;; n++) { if (off + n >= o->size) { memErr(s, "string not terminated: " + addrStr(s, p)); } if (o->s && o->s[off + n]) break; if (!o->d[off + n]) { r = (long)n; break; } }
    setRet(s, x, vc((u64)r));
}
// (a, b, n, icase, okOut): string comparison as one expression. ok = 0 when the end of an object could be reached first.
static Expr *lowerE(Expr *e) { return eIte(eBin(KAnd, eCmp(KUle, eConst('A', 8), e), eCmp(KUle, e, eConst('Z', 8))), eBin(KAdd, e, eConst(32, 8)), e); }
B(vh_strncmp_expr) {
    u64 a = argC(s, c, 0), b = argC(s, c, 1), n = argC(s, c, 2); bool ic = argC(s, c, 3); u64 okp = argC(s, c, 4);
    Expr *oe; u64 ao = 0, bo = 0; Obj *x1 = nullptr, *x2 = nullptr;
    if (n) { x1 = s.mem.get(resolve(s, vc(a), 1, oe, ao, "read")); x2 = s.mem.get(resolve(s, vc(b), 1, oe, bo, "read")); }
    std::vector<std::pair<Expr *, Expr *>> ch; bool ok = true;
    for (u64 i = 0; i < n; i++) {
        if (ao + i >= x1->size || bo + i >= x2->size) { ok = false; break; }
        Expr *p = simplify(s, byteAt(x1, ao + i)), *q = simplify(s, byteAt(x2, bo + i));
        ch.push_back({p, q});
        if ((p->isConst() && !p->v) || (q->isConst() && !q->v)) break;
        if (p->isConst() && q->isConst() && (ic ? tolower((int)p->v) != tolower((int)q->v) : p->v != q->v)) break;
    }
    Expr *r = eConst(0, 32);
    for (size_t i = ch.size(); i-- > 0;) {
        Expr *p = ch[i].first, *q = ch[i].second; Expr *z = eEq(eConst(0, 8), p);
        if (ic) { p = lowerE(p); q = lowerE(q); }
        r = eIte(eEq(p, q), eIte(z, eConst(0, 32), r), eBin(KSub, eZExt(p, 32), eZExt(q, 32)));
    }
    writeMem(s, vc(okp), vc(ok), 32);
    setRet(s, x, ve(r));
}
B(_setjmp) {
    u64 p = argC(s, c, 0); Frame *f = s.top();
    writeMem(s, vc(p), vc(s.fr.size() - 1), 64); writeMem(s, vc(p + 8), vc(f->uid), 64); writeMem(s, vc(p + 16), vc(f->pc), 64);
    setRet(s, x, vc(0));
}
B(longjmp) {
    u64 p = argC(s, c, 0), v = argC(s, c, 1);
    u64 depth = readMem(s, vc(p), 64).c, uid = readMem(s, vc(p + 8), 64).c, pc = readMem(s, vc(p + 16), 64).c;
    if (depth >= s.fr.size() || s.fr[depth]->uid != uid) memErr(s, "longjmp to a frame that has returned");
    while (s.fr.size() > depth + 1) popFrame(s);
    Frame *f = s.top(); f->pc = (uint32_t)pc;
    Inst &sj = f->f->code[f->pc];
    if (sj.dst >= 0) f->r[sj.dst] = vc(v ? v : 1);
    f->pc++;
    (void)x;
}
B(exit) { violation(s, s.model, "process exit: uncaught error"); throw EndPath{2}; }
B(abort) { violation(s, s.model, "abort called: " + locStr(x.src)); throw EndPath{2}; }
B(vh_fmt_double) {       // (buf, size, fmt, double) -> length
    u64 p = argC(s, c, 0), n = argC(s, c, 1); std::string fm = readStr(s, argC(s, c, 2)); double d = asD(argC(s, c, 3), 64);
    char b[512]; int l = snprintf(b, sizeof b, fm.c_str(), d);
    for (int i = 0; i <= l && (u64)i < n; i++) writeMem(s, vc(p + (u64)i), vc((uint8_t)((u64)i == n - 1 ? 0 : b[i])), 8);
    setRet(s, x, vc((u64)l));
}
B(vh_strtod) { std::string t = readStr(s, argC(s, c, 0)); char *e; double d = strtod(t.c_str(), &e); u64 ep = argC(s, c, 1); if (ep) writeMem(s, vc(ep), vc((u64)(e - t.c_str())), 64); setRet(s, x, vc(fromD(d, 64))); }

static void regBuiltins() {
#define RB_(n) g_bname[#n] = (int)g_b.size(); g_b.push_back(b_##n)
    RB_(vh_u64); RB_(vh_u32); RB_(vh_u16); RB_(vh_u8); RB_(vh_bool); RB_(vh_bytes); RB_(vh_assume); RB_(vh_assert); RB_(vh_fail); RB_(vh_reach); RB_(vh_observe);
    RB_(vh_end); RB_(vh_concretize); RB_(vh_is_symbolic); RB_(vh_arg); RB_(vh_symbolic_run); RB_(vh_print); RB_(vh_prints); RB_(vh_and); RB_(vh_or); RB_(vh_ite); RB_(vh_range_concrete); RB_(malloc); RB_(calloc); RB_(free);
    RB_(realloc); RB_(memcpy); RB_(memset); RB_(memcmp); RB_(bcmp); RB_(vh_strlen_fast); RB_(vh_hash_bulk); RB_(_setjmp); RB_(longjmp); RB_(exit); RB_(abort); RB_(vh_fmt_double); RB_(vh_strtod); RB_(vh_strncmp_expr);
    g_bname["memmove"] = g_bname["memcpy"]; g_bname["setjmp"] = g_bname["_setjmp"]; g_bname["_exit"] = g_bname["exit"]; g_bname["__assert_fail"] = g_bname["abort"];
}

// ---- exploration ----------------------------------------------------------------------------------------------------------------
static bool g_root = true;
static u64 lastSteps = 0;
static void flushStats() {
    static SolverStats prev; 
    sh->queries += g_solver.queries - prev.queries; sh->sat += g_solver.sat - prev.sat; sh->unsat += g_solver.unsat - prev.unsat; sh->cacheHits += g_solver.cacheHits - prev.cacheHits; sh->unknown += g_solver.unknown - prev.unknown;
    sh->timeUs += (u64)((g_solver.time - prev.time) * 1e6);
    u64 m = (u64)(g_solver.maxTime * 1e6), o = sh->maxQueryUs; while (m > o && !sh->maxQueryUs.compare_exchange_weak(o, m)) {}
    prev = g_solver;
}

static void runState(State *s) {
    u64 n = 0; int kind = 0;
    try {
        for (;;) {
            step(*s);
            n++; s->steps++;
            if ((n & 0x3fff) == 0) {
                if (sh->stop) { delete s; sh->steps += n; return; }
                if (elapsed() > optTime) { if (!sh->stop.exchange(1)) { sh->incomplete++; fprintf(stderr, "symx: time limit\n  at %s\n", stackStr(*s).c_str()); } delete s; sh->steps += n; return; }
                if (s->steps > optMaxSteps) { violation(*s, s->model, "step limit: no termination within " + std::to_string(optMaxSteps) + " steps"); throw EndPath{2}; }
                flushStats();
            }
        }
    } catch (EndPath &e) { kind = e.kind; }
    sh->steps += n;
    if (kind == 0) {
        u64 p = ++sh->paths;
        u64 d = s->depth, o = sh->maxDepth; while (d > o && !sh->maxDepth.compare_exchange_weak(o, d)) {}
        // Sample: early paths, then increasingly sparse
        bool take = p <= 4 || (p & (p - 1)) == 0 || (p % 997) == 0;
        if (take && sh->samples < (u64)optSamples) { u64 i = sh->samples++; if (i < (u64)optSamples) writeCase(*s, s->model, optOut + "/sample" + std::to_string(i) + ".case", "ok"); }
    } else if (kind == 1) sh->pathsAssumed++;
    else sh->pathsErr++;
    delete s;
}

static void trySplit() {
    if (g_work.size() < 2) return;
    int a = sh->active;
    if (a >= optProcs) return;
    if (!sh->active.compare_exchange_strong(a, a + 1)) return;
    flushStats();
    size_t half = g_work.size() / 2;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { sh->active--; return; }
    if (pid == 0) {
        g_root = false; sh->procs++;
        // child: oldest states
        std::vector<State *> keep(g_work.begin(), g_work.begin() + (long)half);
        g_work.swap(keep);
    } else {
        std::vector<State *> keep(g_work.begin() + (long)half, g_work.end());
        for (size_t i = 0; i < half; i++) delete g_work[i];
        g_work.swap(keep);
    }
}

static void explore() {
    u64 tick = 0;
    while (!g_work.empty()) {
        if (sh->stop) break;
        if ((tick++ & 1) == 0) trySplit();
        if (g_work.empty()) break;
        State *s = g_work.back(); g_work.pop_back();
        runState(s);
    }
    flushStats();
}

int main(int argc, char **argv) {
    std::string bc;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") optOut = argv[++i]; else if (a == "--procs") optProcs = atoi(argv[++i]); else if (a == "--time") optTime = atof(argv[++i]);
        else if (a == "--max-steps") optMaxSteps = strtoull(argv[++i], nullptr, 10); else if (a == "--samples") optSamples = atoi(argv[++i]); else if (a == "--entry") optEntry = argv[++i];
        else if (a == "--trace") optTrace = true; else if (a == "--max-viol") optMaxViol = atoi(argv[++i]);
        else if (a == "--arg") { int k = atoi(argv[++i]); optArg[k & 15] = strtoull(argv[++i], nullptr, 10); }
        else bc = a;
    }
    tStart = std::chrono::steady_clock::now();
    struct rlimit rl = {1ULL << 30, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl); 
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    LLVMContext lc; SMDiagnostic diag;
    std::unique_ptr<Module> mod = parseIRFile(bc, diag, lc);
    if (!mod) { diag.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    regBuiltins();
    // Addresses
    g_init = new State;
    for (auto &F : *M) { Func *f = funcOf(&F); Obj *o = new Obj(16, OFunc); memset(o->d, 0, 16); o->readOnly = true; u64 i = g_init->mem.next++; g_init->mem.set(i, o); f->addr = ABASE(i); g_fnAddr[f->addr] = f; o->name = f->name.c_str(); }
    std::vector<std::pair<const GlobalVariable *, u64>> gl;
    for (auto &G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 64) sz = 64;
        Obj *o = new Obj((uint32_t)sz, OGlobal); memset(o->d, 0, sz); o->name = strdup(G.getName().str().c_str());
        u64 i = g_init->mem.next++; g_init->mem.set(i, o); g_gv[&G] = ABASE(i);
    }
    for (auto &G : M->globals()) if (G.isDeclaration()) for (const char *pre : {"vm_", "vx_"}) if (auto *T = M->getNamedGlobal((pre + G.getName()).str())) if (!T->isDeclaration()) { g_gv[&G] = g_gv[T]; break; }
    for (auto &G : M->globals()) if (G.hasInitializer()) { Obj *o = g_init->mem.getW(AIDX(g_gv[&G])); constBytes(G.getInitializer(), o->d, G.getValueType()); o->readOnly = G.isConstant(); }
    Function *H = M->getFunction(optEntry);
    if (!H || H->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 3; }
    sh->active = 1; sh->procs = 1;
    State *s = new State(*g_init);
    pushCall(*s, funcOf(H), {}, {}, nullptr, 0);
    g_work.push_back(s);
    explore();
    sh->active--;
    fflush(stderr);
    if (!g_root) _exit(0);
    int st; pid_t p;
    while ((p = waitpid(-1, &st, 0)) > 0 || (p < 0 && errno == EINTR)) if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->crashed++; sh->incomplete++; fprintf(stderr, "symx: worker ended abnormally (%d)\n", st); }
    // Report
    FILE *fp = fopen((optOut + "/result.json").c_str(), "w");
    if (!fp) { perror("result.json"); return 3; }
    bool complete = !sh->incomplete && !sh->errors && !sh->crashed;
    fprintf(fp, "{\"complete\": %s, \"violations\": %d, \"errors\": %d, \"incomplete\": %d, \"paths\": %llu, \"paths_assumed_out\": %llu, \"paths_error\": %llu, \"forks\": %llu, \"instructions\": %llu,\n", complete ? "true" : "false", (int)sh->violations, (int)sh->errors, (int)sh->incomplete, (unsigned long long)sh->paths, (unsigned long long)sh->pathsAssumed, (unsigned long long)sh->pathsErr, (unsigned long long)sh->forks, (unsigned long long)sh->steps);
    fprintf(fp, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"cache_hits\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"asserts\": %llu, \"asserts_by_solver\": %llu, \"max_fork_depth\": %llu, \"processes\": %llu, \"wall_s\": %.3f,\n", (unsigned long long)sh->queries, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->cacheHits, (unsigned long long)sh->unknown, sh->timeUs / 1e6, sh->maxQueryUs / 1e6, (unsigned long long)sh->asserts, (unsigned long long)sh->assertSolved, (unsigned long long)sh->maxDepth, (unsigned long long)sh->procs, elapsed());
    auto esc = [](const char *t) { std::string r; for (; *t; t++) { if (*t == '"' || *t == '\\') r += '\\'; if ((unsigned char)*t < 32) { r += ' '; continue; } r += *t; } return r; };
    fprintf(fp, " \"violation_messages\": ["); for (int i = 0; i < sh->nViol; i++) fprintf(fp, "%s\"%s\"", i ? ", " : "", esc(sh->viol[i]).c_str());
    fprintf(fp, "],\n \"labels\": {"); for (int i = 0; i < sh->nLabel; i++) fprintf(fp, "%s\"%s\": %llu", i ? ", " : "", esc(sh->label[i]).c_str(), (unsigned long long)sh->labelCount[i]);
    fprintf(fp, "},\n \"functions\": ["); bool first = true;
    for (auto *f : g_funcs) if (f->idx < MAXFUNC && sh->func[f->idx]) { std::string file; if (auto *sp = f->F->getSubprogram()) file = sp->getFilename().str(); fprintf(fp, "%s\"%s:%s\"", first ? "" : ", ", esc(file.c_str()).c_str(), esc(f->name.c_str()).c_str()); first = false; }
    fprintf(fp, "]}\n");
    fclose(fp);
    printf("paths=%llu assumed=%llu err=%llu forks=%llu steps=%llu queries=%llu solver=%.1fs wall=%.1fs violations=%d complete=%d procs=%llu\n", (unsigned long long)sh->paths, (unsigned long long)sh->pathsAssumed, (unsigned long long)sh->pathsErr, (unsigned long long)sh->forks, (unsigned long long)sh->steps, (unsigned long long)sh->queries, sh->timeUs / 1e6, elapsed(), (int)sh->violations, complete, (unsigned long long)sh->procs);
    fflush(stdout);
    _exit(sh->errors || sh->crashed ? 3 : sh->violations ? 1 : sh->incomplete ? 2 : 0);
}
