// Symbolic executor for LLVM IR: explores every feasible path of a harness
// and lets the solver decide branches, memory safety and assertions.
#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "expr.h"
#include "memory.h"
#include "solver.h"
using namespace llvm;

struct Val { u64 c; Expr *e; };
static inline Val cv(u64 c) { return {c, nullptr}; }
static Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(Expr *e) { if (e->op == OConst && e->width <= 64) return {e->lo, nullptr}; return {0, e}; }

// ------------------------------------------------------------ shared state
struct Shm {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<int> failed; std::atomic<int> incomplete;
  std::atomic<u64> paths, killed, instrs, forks, branches, asserts, asserts_const, asserts_table, asserts_z3, memchecks_sym;
  std::atomic<u64> z3q, z3sat, z3unsat, cache, table, modelhits, crosscheck, z3us, workers, samples, maxsteps;
  std::atomic<int> nviol; std::atomic<int> lock; std::atomic<u64> next_report;
  char cover[128][64]; std::atomic<u64> covern[128]; int ncover;
  char viol[64][512];
  u8 fused[1 << 16];
};
static Shm *shm;
static void lockS() { int z; do { z = 0; } while (!shm->lock.compare_exchange_weak(z, 1)); }
static void unlockS() { shm->lock = 0; }

static std::string g_out = ".";
static double g_deadline = 1e18; static int g_maxproc = 8; static u64 g_maxsteps = 20000000; static int g_maxviol = 3; static u64 g_crosscheck = 997;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
[[noreturn]] static void engineError(const std::string &m) {
  fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str()); shm->failed = 1; shm->stop = 1; _exit(2);
}

// ------------------------------------------------------------ decoded code
struct Operand { int slot; Val c; };
struct PhiCopy { u32 dst; Operand src; };
struct Edge { u32 target; u32 cov = 0; std::vector<PhiCopy> copies; };
static u8 *g_cov = nullptr;  // --cov: which control flow edges were taken (shared)
static DenseMap<const BasicBlock *, u32> g_cov_first;  // number of a block's first outgoing edge
enum IOp : u8 { IBin, ICmpI, ISelect, IZExtI, ISExtI, ITrunc, ICopy, ILoad, IStore, IGep, IAlloca, ICall, IBr, ICondBr, ISwitchI, IRet, IUnreach, INop, IFBin, IFCmp, IFCast, IAtomicRmw, ICmpXchg, IFNeg };
struct DFunc;
struct Leaf { u32 off; u16 w; };
struct Inst {
  IOp op; Op bop = OConst; u8 pred = 0; u16 w = 0, w2 = 0; u32 dst = 0, ndst = 0;
  std::vector<Operand> ops; std::vector<u64> aux; std::vector<Edge> edges; std::vector<Leaf> leaves;
  DFunc *callee = nullptr; int intrin = 0; std::vector<u16> argw;
  const Instruction *orig = nullptr;
};
struct DFunc { Function *F; bool decoded = false; std::vector<Inst> insts; u32 nslots = 0, nargs = 0; u32 index = 0; std::vector<u16> argw; int intrin = 0; u64 addr; };

static LLVMContext *ctx; static Module *M; static const DataLayout *DL;
static std::map<Function *, DFunc *> g_funcs; static std::vector<DFunc *> g_func_by_id;
static DenseMap<const GlobalVariable *, u64> g_gaddr;

struct Frame { DFunc *f; u32 pc, base, stackMark, retDst, nret; u64 va = 0; };
struct Ctx { std::vector<Frame> fr; std::vector<Val> regs; std::vector<u64> stk; };  // a suspended thread
struct Input { std::string name; u32 n; std::vector<u32> vars; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Memory mem;
  std::vector<Expr *> cons; std::vector<const Set256 *> dom; std::vector<bool> multi; std::vector<u64> model;
  std::vector<Input> inputs; std::vector<std::pair<Val, u16>> trace; u64 steps = 0; int forced = -1; u32 uninit = 0; u32 nmalloc = 0;
  u64 allocated = 0; std::vector<Ctx> th; u32 cur = 0; std::vector<u64> stk;  // thread 0 has the LIFO stack table, others list their stack objects
  std::map<u32, Expr *> symsz;  // objects whose size is symbolic
};
static std::vector<State *> g_q;
static std::vector<const Set256 *> g_fullp;

static DFunc *dfuncFor(Function *F) {
  auto it = g_funcs.find(F); if (it != g_funcs.end()) return it->second;
  DFunc *d = new DFunc; d->F = F; d->index = g_func_by_id.size(); d->addr = ((u64)(kFuncIdBase + d->index) << 32) | kObjOff;
  g_func_by_id.push_back(d); g_funcs[F] = d; return d;
}

static void flatten(Type *T, u32 off, std::vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) flatten(S->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * es, out); return; }
  if (T->isVoidTy()) return;
  if (T->isPointerTy()) { out.push_back({off, 64}); return; }
  if (T->isIntegerTy()) { out.push_back({off, (u16)T->getIntegerBitWidth()}); return; }
  if (T->isDoubleTy()) { out.push_back({off, 64}); return; }
  if (T->isFloatTy()) { out.push_back({off, 32}); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); ++i) flatten(V->getElementType(), off + i * es, out); return; }
  std::string s; raw_string_ostream o(s); T->print(o); engineError("unsupported type " + o.str());
}
static std::vector<Leaf> leavesOf(Type *T) { std::vector<Leaf> l; flatten(T, 0, l); return l; }

// ------------------------------------------------------------ constants
static u64 constAddr(const Constant *C);
static u64 constInt(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return I->getValue().getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (isa<GlobalValue>(C)) return constAddr(C);
  if (auto *F = dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constInt(E->getOperand(0));
    case Instruction::Trunc: return constInt(E->getOperand(0)) & maskw(E->getType()->getIntegerBitWidth());
    case Instruction::Add: return (constInt(E->getOperand(0)) + constInt(E->getOperand(1))) & maskw(E->getType()->getIntegerBitWidth());
    case Instruction::Sub: return (constInt(E->getOperand(0)) - constInt(E->getOperand(1))) & maskw(E->getType()->getIntegerBitWidth());
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(E); APInt off(64, 0);
      if (!G->accumulateConstantOffset(*DL, off)) engineError("const gep"); return constInt(cast<Constant>(G->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::ICmp: engineError("const icmp");
    default: break;
    }
  }
  std::string s; raw_string_ostream o(s); C->print(o); engineError("unsupported constant " + o.str());
}
static u64 constAddr(const Constant *C) {
  if (auto *F = dyn_cast<Function>(C)) return dfuncFor(const_cast<Function *>(F))->addr;
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constInt(A->getAliasee());
  auto *G = dyn_cast<GlobalVariable>(C); if (!G) engineError("const addr");
  auto it = g_gaddr.find(G); if (it == g_gaddr.end()) engineError("unknown global " + G->getName().str()); return it->second;
}
static void constVals(const Constant *C, std::vector<Operand> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto &l : leavesOf(T)) { (void)l; out.push_back({-1, cv(0)}); } return; }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i) constVals(C->getAggregateElement(i), out); return;
  }
  if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) {
    if (auto *I = dyn_cast<ConstantInt>(C)) { APInt v = I->getValue().zext(128); out.push_back({-1, {0, mkConstWide(((u128)v.extractBitsAsZExtValue(64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), T->getIntegerBitWidth())}}); return; }
    if (isa<UndefValue>(C)) { out.push_back({-1, {0, mkConstWide(0, T->getIntegerBitWidth())}}); return; }
  }
  out.push_back({-1, cv(constInt(C))});
}

// ------------------------------------------------------------ intrinsics table
enum Intr { XNone, XUser, XMalloc, XFree, XCalloc, XRealloc, XNew, XNewArr, XDel, XDelArr, XMemcpy, XMemset, XMemcmp, XBcmp, XAbort, XAtexit, XGuardAcq, XGuardRel, XIgnore0,
  XSymMake, XSymChoose, XSymAssume, XSymAssert, XSymCover, XSymTrace, XSymIsSymbolic, XSymFail, XSymLog, XSymDone, XSymConcretize, XSymTier, XSymRange,
  XUMax, XUMin, XSMax, XSMin, XAbs, XCtpop, XCtlz, XCttz, XBswap, XUAddO, XUSubO, XUMulO, XSAddO, XSSubO, XSMulO, XUSubSat, XUAddSat, XFshl, XFshr, XCopyArg, XNop, XObjSize, XIsConst, XTrap, XSwapU, XStackSave, XFAbs, XVaStart, XVaCopy, XThreadNew, XThreadSwitch };
static std::map<std::string, int> g_intr = {
  {"malloc", XMalloc}, {"free", XFree}, {"calloc", XCalloc}, {"realloc", XRealloc},
  {"_Znwm", XNew}, {"_ZnwmSt11align_val_t", XNew}, {"_ZnwmRKSt9nothrow_t", XNew}, {"_Znam", XNewArr}, {"_ZnamSt11align_val_t", XNewArr}, {"_ZnamRKSt9nothrow_t", XNewArr},
  {"_ZdlPv", XDel}, {"_ZdlPvm", XDel}, {"_ZdlPvSt11align_val_t", XDel}, {"_ZdlPvmSt11align_val_t", XDel}, {"_ZdaPv", XDelArr}, {"_ZdaPvm", XDelArr}, {"_ZdaPvSt11align_val_t", XDelArr},
  {"memcpy", XMemcpy}, {"memmove", XMemcpy}, {"memset", XMemset}, {"memcmp", XMemcmp}, {"bcmp", XBcmp},
  {"abort", XAbort}, {"__assert_fail", XAbort}, {"__cxa_pure_virtual", XAbort}, {"_ZSt9terminatev", XAbort}, {"exit", XAbort}, {"_exit", XAbort}, {"_Exit", XAbort}, {"__stack_chk_fail", XAbort},
  {"__cxa_atexit", XAtexit}, {"__cxa_thread_atexit", XAtexit}, {"atexit", XAtexit}, {"__cxa_guard_acquire", XGuardAcq}, {"__cxa_guard_release", XGuardRel},
  {"sym_make", XSymMake}, {"sym_choose", XSymChoose}, {"sym_assume", XSymAssume}, {"sym_assert", XSymAssert}, {"sym_cover", XSymCover}, {"sym_trace", XSymTrace},
  {"sym_is_symbolic", XSymIsSymbolic}, {"sym_fail", XSymFail}, {"sym_log", XSymLog}, {"sym_done", XSymDone}, {"sym_concretize", XSymConcretize}, {"sym_tier", XSymTier}, {"sym_check_range", XSymRange}, {"sym_thread_new", XThreadNew}, {"sym_thread_switch", XThreadSwitch},
};
static int g_tier = 0;
static int intrinFor(Function *F) {
  if (!F->isDeclaration()) return XUser;
  StringRef n = F->getName();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return XMemcpy;
    case Intrinsic::memset: return XMemset;
    case Intrinsic::umax: return XUMax; case Intrinsic::umin: return XUMin; case Intrinsic::smax: return XSMax; case Intrinsic::smin: return XSMin;
    case Intrinsic::abs: return XAbs; case Intrinsic::ctpop: return XCtpop; case Intrinsic::ctlz: return XCtlz; case Intrinsic::cttz: return XCttz; case Intrinsic::bswap: return XBswap;
    case Intrinsic::uadd_with_overflow: return XUAddO; case Intrinsic::usub_with_overflow: return XUSubO; case Intrinsic::umul_with_overflow: return XUMulO;
    case Intrinsic::sadd_with_overflow: return XSAddO; case Intrinsic::ssub_with_overflow: return XSSubO; case Intrinsic::smul_with_overflow: return XSMulO;
    case Intrinsic::usub_sat: return XUSubSat; case Intrinsic::uadd_sat: return XUAddSat; case Intrinsic::fshl: return XFshl; case Intrinsic::fshr: return XFshr;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptrmask: return F->getIntrinsicID() == Intrinsic::ptrmask ? XNone : XCopyArg;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return XNop;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return XStackSave;
    case Intrinsic::objectsize: return XObjSize; case Intrinsic::is_constant: return XIsConst; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return XTrap;
    case Intrinsic::fabs: return XFAbs; case Intrinsic::vastart: return XVaStart; case Intrinsic::vacopy: return XVaCopy; case Intrinsic::vaend: return XNop;
    default: return XNone;
    }
  }
  auto it = g_intr.find(n.str()); if (it != g_intr.end()) return it->second;
  if (n.starts_with("_ZSt") && n.contains("__throw_")) return XAbort;
  if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") return XAbort;
  return XNone;
}

// ------------------------------------------------------------ decoder
struct Decoder {
  DFunc *d; DenseMap<const Value *, std::pair<u32, u32>> slots; u32 n = 0; DenseMap<const BasicBlock *, u32> bbpc; std::vector<std::tuple<u32, u32, const BasicBlock *>> fix;
  u32 slotOf(const Value *v) {
    auto it = slots.find(v); if (it != slots.end()) return it->second.first;
    u32 k = leavesOf(v->getType()).size(); u32 s = n; slots[v] = {s, k}; n += k; return s;
  }
  void opnd(const Value *v, std::vector<Operand> &out) {
    if (auto *C = dyn_cast<Constant>(v)) { constVals(C, out); return; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { return; }
    u32 s = slotOf(v); u32 k = slots[v].second; for (u32 i = 0; i < k; ++i) out.push_back({(int)(s + i), cv(0)});
  }
  u16 widthOf(Type *T) { return leavesOf(T)[0].w; }
  Edge edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0;
    for (const PHINode &P : to->phis()) { std::vector<Operand> o; opnd(P.getIncomingValueForBlock(from), o); u32 s = slotOf(&P); for (size_t i = 0; i < o.size(); ++i) e.copies.push_back({s + (u32)i, o[i]}); }
    return e;
  }
  u32 aggOffset(Type *T, ArrayRef<unsigned> idx) {
    u32 off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) off += leavesOf(S->getElementType(k)).size(); T = S->getElementType(i); }
      else { auto *A = cast<ArrayType>(T); off += i * leavesOf(A->getElementType()).size(); T = A->getElementType(); }
    }
    return off;
  }
  void run(DFunc *df) {
    d = df; Function &F = *d->F;
    for (Argument &A : F.args()) { slotOf(&A); for (auto &l : leavesOf(A.getType())) d->argw.push_back(l.w); }
    d->nargs = n;
    for (BasicBlock &B : F) {
      bbpc[&B] = d->insts.size();
      for (Instruction &I : B) decode(I);
    }
    for (auto &[i, e, bb] : fix) d->insts[i].edges[e].target = bbpc[bb];
    d->nslots = n; d->decoded = true;
    if (d->index < sizeof(shm->fused)) shm->fused[d->index] = 1;
  }
  void addEdge(Inst &in, const BasicBlock *from, const BasicBlock *to) { in.edges.push_back(edge(from, to)); if (g_cov) { const Instruction *t = from->getTerminator(); for (unsigned k = 0; k < t->getNumSuccessors(); ++k) if (t->getSuccessor(k) == to) { in.edges.back().cov = g_cov_first[from] + k; if (!isa<BranchInst>(t) || in.edges.size() == k + 1) break; } } fix.emplace_back(d->insts.size(), in.edges.size() - 1, to); }
  void decode(Instruction &I) {
    if (isa<PHINode>(I)) { slotOf(&I); return; }
    Inst in; in.orig = &I; in.op = INop;
    Type *T = I.getType();
    if (!T->isVoidTy()) { in.dst = slotOf(&I); in.ndst = slots[&I].second; if (in.ndst) in.w = widthOf(T); }
    if (T->isVectorTy() ) { bool ok = isa<LoadInst>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I); if (!ok) unsupported(I); }
    switch (I.getOpcode()) {
    case Instruction::Add: bin(in, I, OAdd); break; case Instruction::Sub: bin(in, I, OSub); break; case Instruction::Mul: bin(in, I, OMul); break;
    case Instruction::UDiv: bin(in, I, OUDiv); break; case Instruction::SDiv: bin(in, I, OSDiv); break; case Instruction::URem: bin(in, I, OURem); break; case Instruction::SRem: bin(in, I, OSRem); break;
    case Instruction::And: bin(in, I, OAnd); break; case Instruction::Or: bin(in, I, OOr); break; case Instruction::Xor: bin(in, I, OXor); break;
    case Instruction::Shl: bin(in, I, OShl); break; case Instruction::LShr: bin(in, I, OLShr); break; case Instruction::AShr: bin(in, I, OAShr); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      in.op = IFBin; in.pred = I.getOpcode(); opnd(I.getOperand(0), in.ops); opnd(I.getOperand(1), in.ops); break;
    case Instruction::FNeg: in.op = IFNeg; opnd(I.getOperand(0), in.ops); break;
    case Instruction::FCmp: in.op = IFCmp; in.w2 = widthOf(I.getOperand(0)->getType()); in.pred = cast<FCmpInst>(I).getPredicate(); opnd(I.getOperand(0), in.ops); opnd(I.getOperand(1), in.ops); break;
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
      in.op = IFCast; in.pred = I.getOpcode(); in.w2 = widthOf(I.getOperand(0)->getType()); opnd(I.getOperand(0), in.ops); break;
    case Instruction::ICmp: in.op = ICmpI; in.pred = cast<ICmpInst>(I).getPredicate(); in.w2 = widthOf(I.getOperand(0)->getType()); opnd(I.getOperand(0), in.ops); opnd(I.getOperand(1), in.ops); break;
    case Instruction::Select: in.op = ISelect; in.pred = T->isPointerTy(); for (auto &l : leavesOf(T)) in.leaves.push_back(l); for (int i = 0; i < 3; ++i) opnd(I.getOperand(i), in.ops); break;
    case Instruction::ZExt: in.op = IZExtI; in.w2 = widthOf(I.getOperand(0)->getType()); opnd(I.getOperand(0), in.ops); break;
    case Instruction::SExt: in.op = ISExtI; in.w2 = widthOf(I.getOperand(0)->getType()); opnd(I.getOperand(0), in.ops); break;
    case Instruction::Trunc: in.op = ITrunc; in.w2 = widthOf(I.getOperand(0)->getType()); opnd(I.getOperand(0), in.ops); break;
    case Instruction::PtrToInt: { in.w2 = 64; in.op = in.w < 64 ? ITrunc : in.w > 64 ? IZExtI : ICopy; opnd(I.getOperand(0), in.ops); break; }
    case Instruction::IntToPtr: { in.w2 = widthOf(I.getOperand(0)->getType()); in.op = in.w2 < 64 ? IZExtI : in.w2 > 64 ? ITrunc : ICopy; opnd(I.getOperand(0), in.ops); break; }
    case Instruction::BitCast: if (leavesOf(T).size() != leavesOf(I.getOperand(0)->getType()).size()) unsupported(I); in.op = ICopy; opnd(I.getOperand(0), in.ops); break;
    case Instruction::Freeze: in.op = ICopy; opnd(I.getOperand(0), in.ops); break;
    case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); std::vector<Operand> all; opnd(E.getAggregateOperand(), all); u32 o = aggOffset(E.getAggregateOperand()->getType(), E.getIndices()); in.op = ICopy; in.ops.assign(all.begin() + o, all.begin() + o + in.ndst); break; }
    case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); in.op = ICopy; opnd(E.getAggregateOperand(), in.ops); std::vector<Operand> v; opnd(E.getInsertedValueOperand(), v); u32 o = aggOffset(T, E.getIndices()); for (size_t i = 0; i < v.size(); ++i) in.ops[o + i] = v[i]; break; }
    case Instruction::Load: in.op = ILoad; in.leaves = leavesOf(T); opnd(I.getOperand(0), in.ops); break;
    case Instruction::Store: in.op = IStore; in.leaves = leavesOf(I.getOperand(0)->getType()); opnd(I.getOperand(1), in.ops); opnd(I.getOperand(0), in.ops); break;
    case Instruction::GetElementPtr: {
      auto &G = cast<GetElementPtrInst>(I); in.op = IGep; opnd(G.getPointerOperand(), in.ops); u64 k = 0;
      std::vector<u64> scales; 
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *S = it.getStructTypeOrNull()) { k += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *C = dyn_cast<ConstantInt>(ix)) { k += (u64)C->getSExtValue() * sz; continue; }
        opnd(ix, in.ops); scales.push_back(sz); scales.push_back(widthOf(ix->getType()));
      }
      in.aux.push_back(k); for (u64 s : scales) in.aux.push_back(s); break; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); in.op = IAlloca; in.aux.push_back(DL->getTypeAllocSize(A.getAllocatedType())); opnd(A.getArraySize(), in.ops); break; }
    case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { in.op = ICondBr; opnd(B.getCondition(), in.ops); addEdge(in, I.getParent(), B.getSuccessor(0)); addEdge(in, I.getParent(), B.getSuccessor(1)); } else { in.op = IBr; addEdge(in, I.getParent(), B.getSuccessor(0)); } break; }
    case Instruction::Switch: { auto &S = cast<SwitchInst>(I); in.op = ISwitchI; in.w2 = widthOf(S.getCondition()->getType()); opnd(S.getCondition(), in.ops); addEdge(in, I.getParent(), S.getDefaultDest());
      std::map<const BasicBlock *, int> seen;
      for (auto &c : S.cases()) { auto it = seen.find(c.getCaseSuccessor()); int ei; if (it == seen.end()) { addEdge(in, I.getParent(), c.getCaseSuccessor()); ei = in.edges.size() - 1; seen[c.getCaseSuccessor()] = ei; } else ei = it->second; in.aux.push_back(c.getCaseValue()->getZExtValue()); in.aux.push_back(ei); } break; }
    case Instruction::Ret: in.op = IRet; if (I.getNumOperands()) opnd(I.getOperand(0), in.ops); break;
    case Instruction::Unreachable: in.op = IUnreach; break;
    case Instruction::Fence: in.op = INop; break;
    case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); in.op = IAtomicRmw; in.pred = A.getOperation(); opnd(A.getPointerOperand(), in.ops); opnd(A.getValOperand(), in.ops); break; }
    case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); in.op = ICmpXchg; in.w = widthOf(A.getCompareOperand()->getType()); for (int i = 0; i < 3; ++i) opnd(I.getOperand(i), in.ops); break; }
    case Instruction::Call: {
      auto &C = cast<CallInst>(I); in.op = ICall;
      if (C.isInlineAsm()) { in.op = INop; if (!T->isVoidTy()) unsupported(I); break; }
      Value *cal = C.getCalledOperand()->stripPointerCasts();
      if (auto *GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliaseeObject();
      if (auto *CF = dyn_cast<Function>(cal)) {
        in.callee = dfuncFor(CF); in.intrin = intrinFor(CF); in.callee->intrin = in.intrin;
        if (in.intrin == XNop && CF->isIntrinsic()) { in.op = INop; break; }
      } else { opnd(cal, in.ops); }
      for (auto &A : C.args()) { opnd(A.get(), in.ops); if (!A->getType()->isMetadataTy()) for (auto &l : leavesOf(A->getType())) in.argw.push_back(l.w); 
        if (C.isByValArgument(C.getArgOperandNo(&A))) in.aux.push_back(((u64)(in.argw.size() - 1) << 32) | DL->getTypeAllocSize(C.getParamByValType(C.getArgOperandNo(&A)))); }
      break; }
    default: unsupported(I);
    }
    d->insts.push_back(std::move(in));
  }
  void bin(Inst &in, Instruction &I, Op o) { if (I.getType()->isVectorTy()) unsupported(I); in.op = IBin; in.bop = o; opnd(I.getOperand(0), in.ops); opnd(I.getOperand(1), in.ops); }
  [[noreturn]] void unsupported(Instruction &I) { std::string s; raw_string_ostream o(s); I.print(o); engineError("unsupported instruction in " + demangle(d->F->getName().str()) + ": " + o.str()); }
};

// ------------------------------------------------------------ executor
#include "exec.inc"
