// sym-instr: LLVM 18 new-PM plugin.  Adds to every function of a module the
// computation of a "shadow" (the id of a symbolic expression node, 0 =
// concrete) next to every scalar SSA value, so that running the program
// executes it symbolically along the concrete path (see DESIGN.md, "Engine").
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

// op codes: keep in sync with rt.cpp
enum Op : unsigned {
  FADD = 1, FSUB, FMUL, FDIV, FREM, FNEG,
  IADD = 10, ISUB, IMUL, ISDIV, IUDIV, ISREM, IUREM, ISHL, ILSHR, IASHR, IAND, IOR, IXOR,
  FCMP = 40,  // + predicate
  ICMP = 60,  // + predicate
  C_TRUNC = 110, C_ZEXT, C_SEXT, C_FPTOSI, C_FPTOUI, C_SITOFP, C_UITOFP, C_FPTRUNC, C_FPEXT,
};

static const int MAXARG = 64;

struct Instr {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I32, *I64, *I1, *F80, *Ptr, *Void;
  GlobalVariable *Argv, *ArgBv, *Callee, *Ret, *RetFn;
  FunctionCallee slowF, slowSel, slowI, slowFC, slowIC, slowCast, slowLibm, slowIntr, doBr, doConc, doLost, loadSlow, doStore, memCpy, memSet, clearF, doSwitch, wLoad, wStore;
  std::map<std::string, Function *> wrappers;

  Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C);
    F80 = Type::getX86_FP80Ty(C); Ptr = PointerType::getUnqual(C); Void = Type::getVoidTy(C);
    auto G = [&](const char *n, Type *T) {
      auto *g = M.getNamedGlobal(n);
      if (!g) g = new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
      return g;
    };
    Argv = G("__sym_argv", ArrayType::get(I32, MAXARG * 4));
    ArgBv = G("__sym_argbv", ArrayType::get(Ptr, MAXARG * 4));
    Callee = G("__sym_callee", Ptr);
    Ret = G("__sym_ret", ArrayType::get(I32, 16));
    RetFn = G("__sym_retfn", Ptr);
    slowF = M.getOrInsertFunction("__sym_fop", I32, I32, I32, I32, F80, F80, F80, I32);
    slowI = M.getOrInsertFunction("__sym_iop", I32, I32, I32, I32, I64, I64, I64, I32);
    slowFC = M.getOrInsertFunction("__sym_fcmp", I32, I32, I32, I32, F80, F80, I32);
    slowIC = M.getOrInsertFunction("__sym_icmp", I32, I32, I32, I32, I64, I64, I32, I32);
    slowCast = M.getOrInsertFunction("__sym_cast", I32, I32, I32, F80, I64, F80, I64, I32, I32);
    slowLibm = M.getOrInsertFunction("__sym_libm", I32, Ptr, I32, I32, I32, F80, F80, F80, F80, I32);
    slowIntr = M.getOrInsertFunction("__sym_iintr", I32, Ptr, I32, I32, I64, I64, I64, I32);
    slowSel = M.getOrInsertFunction("__sym_fselect", I32, I32, I32, I32, I32, F80, F80, I32);
    doBr = M.getOrInsertFunction("__sym_branch", Void, I32, I32);
    doSwitch = M.getOrInsertFunction("__sym_switch", Void, I32, I64);
    doConc = M.getOrInsertFunction("__sym_conc", Void, I32, I64);
    doLost = M.getOrInsertFunction("__sym_lost", Void, Ptr, I32);
    loadSlow = M.getOrInsertFunction("__sym_load", I32, Ptr, I32);
    doStore = M.getOrInsertFunction("__sym_store", Void, Ptr, I32, I32);
    memCpy = M.getOrInsertFunction("__sym_memcpy", Void, Ptr, Ptr, I64);
    memSet = M.getOrInsertFunction("__sym_memset", Void, Ptr, I64);
  }

  bool isScalar(Type *T) { return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) || T->isDoubleTy() || T->isFloatTy() || T->isX86_FP80Ty(); }
  bool isFP(Type *T) { return T->isDoubleTy() || T->isFloatTy() || T->isX86_FP80Ty(); }
  bool isInt(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() <= 64; }
  // shadow type or null
  Type *shTy(Type *T) {
    if (isScalar(T)) return I32;
    if (auto *S = dyn_cast<StructType>(T)) {
      if (S->isOpaque()) return nullptr;
      std::vector<Type *> e;
      bool any = false;
      for (auto *x : S->elements()) { Type *s = shTy(x); any |= s != nullptr; e.push_back(s ? s : I32); }
      return any ? StructType::get(C, e) : nullptr;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      Type *s = shTy(A->getElementType());
      return s ? ArrayType::get(s, A->getNumElements()) : nullptr;
    }
    return nullptr;
  }
  int fpk(Type *T) { return T->isFloatTy() ? 32 : T->isDoubleTy() ? 64 : 80; }

  std::vector<CallBase *> toInline;
  MapVector<Value *, Value *> sh;
  DominatorTree *DT = nullptr;
  std::vector<std::pair<PHINode *, PHINode *>> phis;

  Value *S(Value *V) {
    Type *t = shTy(V->getType());
    if (!t) return ConstantInt::get(I32, 0);
    if (isa<Constant>(V)) return Constant::getNullValue(t);
    auto it = sh.find(V);
    if (it == sh.end()) return Constant::getNullValue(t);
    return it->second;
  }
  static bool isZero(Value *v) { auto *c = dyn_cast<Constant>(v); return c && c->isNullValue(); }
  Value *f80(IRBuilder<> &B, Value *v) { return v->getType()->isX86_FP80Ty() ? v : B.CreateFPExt(v, F80); }
  Value *i64(IRBuilder<> &B, Value *v) { return v->getType()->isIntegerTy(64) ? v : (v->getType()->isIntegerTy(1) ? B.CreateZExt(v, I64) : B.CreateSExt(v, I64)); }
  Constant *ci(unsigned x) { return ConstantInt::get(I32, x); }

  // emit   r = (guard != 0) ? slow() : 0   as real control flow
  template <class Fn> Value *guarded(Instruction *before, ArrayRef<Value *> guards, Fn slow) {
    std::vector<Value *> g;
    for (auto *x : guards) if (!isZero(x)) g.push_back(x);
    if (g.empty()) return ci(0);
    IRBuilder<> B(before);
    Value *o = g[0];
    for (size_t i = 1; i < g.size(); i++) o = B.CreateOr(o, g[i]);
    Value *c = B.CreateICmpNE(o, ci(0));
    BasicBlock *head = before->getParent();
    MDNode *w = MDNode::get(C, {MDString::get(C, "branch_weights"), ConstantAsMetadata::get(ci(1)), ConstantAsMetadata::get(ci(2000))});
    Instruction *T = SplitBlockAndInsertIfThen(c, before, false, w);
    IRBuilder<> TB(T);
    Value *r = slow(TB);
    if (!r) return nullptr;
    BasicBlock *tb = T->getParent();
    IRBuilder<> NB(&before->getParent()->front());
    PHINode *p = NB.CreatePHI(I32, 2);
    p->addIncoming(ci(0), head);
    p->addIncoming(r, tb);
    return p;
  }

  void flattenStore(IRBuilder<> &B, Value *ptr, Value *shv, Type *T, uint64_t off) {
    if (isScalar(T)) {
      Value *p = off ? B.CreateConstGEP1_64(Type::getInt8Ty(C), ptr, off) : ptr;
      B.CreateCall(doStore, {p, shv, ci(DL.getTypeStoreSize(T))});
    } else if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
        if (shTy(S->getElementType(i))) flattenStore(B, ptr, B.CreateExtractValue(shv, i), S->getElementType(i), off + L->getElementOffset(i));
        else if (S->getElementType(i)->isPointerTy()) B.CreateCall(memSet, {B.CreateConstGEP1_64(Type::getInt8Ty(C), ptr, off + L->getElementOffset(i)), ConstantInt::get(I64, 8)});
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements(); i++)
        flattenStore(B, ptr, B.CreateExtractValue(shv, i), A->getElementType(), off + i * es);
    }
  }
  Value *flattenLoad(IRBuilder<> &B, Value *ptr, Type *T, uint64_t off) {
    Type *st = shTy(T);
    if (isScalar(T)) {
      Value *p = off ? B.CreateConstGEP1_64(Type::getInt8Ty(C), ptr, off) : ptr;
      return B.CreateCall(loadSlow, {p, ci(DL.getTypeStoreSize(T))});
    }
    Value *r = Constant::getNullValue(st);
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
        if (shTy(S->getElementType(i))) r = B.CreateInsertValue(r, flattenLoad(B, ptr, S->getElementType(i), off + L->getElementOffset(i)), i);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements(); i++)
        r = B.CreateInsertValue(r, flattenLoad(B, ptr, A->getElementType(), off + i * es), i);
    }
    return r;
  }
  unsigned nflat(Type *st) {
    if (st->isIntegerTy()) return 1;
    unsigned n = 0;
    if (auto *S = dyn_cast<StructType>(st)) for (auto *e : S->elements()) n += nflat(e);
    else if (auto *A = dyn_cast<ArrayType>(st)) n = A->getNumElements() * nflat(A->getElementType());
    return n;
  }
  void putSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &slot, Value *v, unsigned max) {
    Type *t = v->getType();
    if (t->isIntegerTy()) {
      if (slot < max) B.CreateStore(v, B.CreateConstInBoundsGEP2_32(G->getValueType(), G, 0, slot));
      slot++;
    } else {
      unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) putSlots(B, G, slot, B.CreateExtractValue(v, i), max);
    }
  }
  Value *getSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &slot, Type *t, Value *ok, unsigned max) {
    if (t->isIntegerTy()) {
      Value *v = ci(0);
      if (slot < max) v = B.CreateSelect(ok, B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(G->getValueType(), G, 0, slot)), ci(0));
      slot++;
      return v;
    }
    Value *r = Constant::getNullValue(t);
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType();
      r = B.CreateInsertValue(r, getSlots(B, G, slot, et, ok, max), i);
    }
    return r;
  }

  Value *strp(StringRef s) {
    std::string n = ("__sym_s_" + s).str();
    if (auto *g = M.getNamedGlobal(n)) return g;
    auto *cst = ConstantDataArray::getString(C, s);
    auto *g = new GlobalVariable(M, cst->getType(), true, GlobalValue::PrivateLinkage, cst, n);
    return g;
  }

  static const std::set<std::string> &libm() {
    static const std::set<std::string> s = {
        "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sqrt", "cbrt", "hypot", "erf", "erfc", "tgamma", "lgamma", "fabs", "floor", "ceil", "round", "trunc", "rint", "nearbyint", "fmod", "fmin", "fmax", "fma", "copysign", "fdim", "j0", "j1", "y0", "y1", "ldexp", "scalbn", "scalbln", "remainder", "lround", "llround", "lrint", "llrint"};
    return s;
  }

  void fpCall(Instruction *I, CallBase *CB, StringRef name) {
    // args: up to three fp or int args
    std::vector<Value *> a;
    for (auto &x : CB->args()) a.push_back(x);
    std::vector<Value *> shs;
    for (unsigned i = 0; i < a.size() && i < 3; i++) shs.push_back(S(a[i]));
    Type *RT = CB->getType();
    bool fpres = isFP(RT);
    Instruction *after = I->getNextNode();
    if (auto *inv = dyn_cast<InvokeInst>(I)) after = &*inv->getNormalDest()->getFirstInsertionPt();
    Value *r = guarded(after, shs, [&](IRBuilder<> &B) -> Value * {
      auto V = [&](unsigned i) -> Value * {
        if (i >= a.size()) return ConstantFP::get(F80, 0.0);
        if (isFP(a[i]->getType())) return f80(B, a[i]);
        if (isInt(a[i]->getType())) return B.CreateSIToFP(a[i], F80);
        return ConstantFP::get(F80, 0.0);
      };
      auto H = [&](unsigned i) -> Value * { return i < shs.size() ? shs[i] : ci(0); };
      Value *res = fpres ? f80(B, CB) : B.CreateSIToFP(CB, F80);
      return B.CreateCall(slowLibm, {strp(name), H(0), H(1), H(2), V(0), V(1), V(2), res, ci(fpres ? fpk(RT) : RT->getIntegerBitWidth() + 1000)});
    });
    sh[CB] = r;
  }

  void genericCall(CallBase *CB) {
    if (isa<InlineAsm>(CB->getCalledOperand())) return;
    IRBuilder<> B(CB);
    Value *callee = CB->getCalledOperand();
    unsigned slot = 0;
    std::vector<Value *> given;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      Value *A = CB->getArgOperand(i);
      if (CB->isByValArgument(i)) {
        if (slot < MAXARG * 4) B.CreateStore(A, B.CreateConstInBoundsGEP2_32(ArgBv->getValueType(), ArgBv, 0, slot));
        slot++;
        continue;
      }
      if (!shTy(A->getType())) { slot++; continue; }
      Value *s = S(A);
      if (s->getType()->isIntegerTy() && !isZero(s)) given.push_back(s);
      putSlots(B, Argv, slot, s, MAXARG * 4);
    }
    B.CreateStore(callee, Callee);
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), RetFn);
    Instruction *after;
    if (auto *inv = dyn_cast<InvokeInst>(CB)) {
      // split the normal edge so that the reading code runs only after this call
      BasicBlock *nd = inv->getNormalDest();
      BasicBlock *nb = BasicBlock::Create(C, "", inv->getFunction(), nd);
      BranchInst *br = BranchInst::Create(nd, nb);
      for (auto &ph : nd->phis()) {
        for (unsigned k = 0; k < ph.getNumIncomingValues(); k++)
          if (ph.getIncomingBlock(k) == inv->getParent()) ph.setIncomingBlock(k, nb);
      }
      inv->setNormalDest(nb);
      after = br;
    } else if (isa<CallInst>(CB)) after = CB->getNextNode();
    else return;
    if (auto *ci_ = dyn_cast<CallInst>(CB)) { if (ci_->isMustTailCall()) return; ci_->setTailCall(false); }
    IRBuilder<> A(after);
    if (!given.empty()) {
      Function *f = CB->getCalledFunction();
      if (!f || f->isDeclaration()) {
        Value *o = given[0];
        for (size_t k = 1; k < given.size(); k++) o = A.CreateOr(o, given[k]);
        Value *cur = A.CreateLoad(Ptr, Callee);
        Value *cond = A.CreateAnd(A.CreateICmpEQ(cur, callee), A.CreateICmpNE(o, ci(0)));
        Instruction *T = SplitBlockAndInsertIfThen(cond, after, false);
        IRBuilder<> TB(T);
        TB.CreateCall(doLost, {strp(f ? f->getName() : "<indirect>"), o});
        A.SetInsertPoint(after);
      }
    }
    Type *st = CB->getType()->isVoidTy() ? nullptr : shTy(CB->getType());
    if (st && nflat(st) <= 16) {
      Value *rf = A.CreateLoad(Ptr, RetFn);
      Value *ok = A.CreateICmpEQ(rf, callee);
      unsigned s0 = 0;
      sh[CB] = getSlots(A, Ret, s0, st, ok, 16);
    }
  }

  bool run(Function &F) {
    sh.clear(); phis.clear();
    std::vector<Instruction *> insts;
    ReversePostOrderTraversal<Function *> RPO(&F);
    for (auto *BB : RPO) for (auto &I : *BB) insts.push_back(&I);
    // entry: argument shadows
    {
      Instruction *ip = &*F.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      bool need = false;
      for (auto &A : F.args()) if (A.hasByValAttr() || shTy(A.getType())) need = true;
      Value *cur = B.CreateLoad(Ptr, Callee);
      Value *ok = B.CreateICmpEQ(cur, &F);
      B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), Callee);
      if (need) {
        unsigned slot = 0;
        std::vector<std::pair<Value *, std::pair<unsigned, uint64_t>>> bv;
        for (auto &A : F.args()) {
          if (A.hasByValAttr()) { bv.push_back({&A, {slot, DL.getTypeAllocSize(A.getParamByValType())}}); slot++; continue; }
          if (!shTy(A.getType())) { slot++; continue; }
          sh[&A] = getSlots(B, Argv, slot, shTy(A.getType()), ok, MAXARG * 4);
        }
        for (auto &b : bv) {
          if (b.second.first >= MAXARG * 4) continue;
          Value *src = B.CreateSelect(ok, B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_32(ArgBv->getValueType(), ArgBv, 0, b.second.first)), b.first);
          B.CreateCall(memCpy, {b.first, src, ConstantInt::get(I64, b.second.second)});
        }
      }
    }
    // shadow phis first
    for (auto *I : insts)
      if (auto *P = dyn_cast<PHINode>(I)) {
        Type *st = shTy(P->getType());
        if (!st) continue;
        PHINode *n = PHINode::Create(st, P->getNumIncomingValues(), "", P);
        sh[P] = n;
        phis.push_back({P, n});
      }
    for (auto *I : insts) visit(I);
    for (auto &pr : phis)
      for (unsigned k = 0; k < pr.first->getNumIncomingValues(); k++)
        pr.second->addIncoming(S(pr.first->getIncomingValue(k)), pr.first->getIncomingBlock(k));
    return true;
  }

  void visit(Instruction *I) {
    Type *T = I->getType();
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (!isScalar(T)) return;
      Value *a = BO->getOperand(0), *b = BO->getOperand(1), *sa = S(a), *sb = S(b);
      Instruction *after = I->getNextNode();
      if (isFP(T)) {
        unsigned op;
        switch (BO->getOpcode()) {
          case Instruction::FAdd: op = FADD; break;
          case Instruction::FSub: op = FSUB; break;
          case Instruction::FMul: op = FMUL; break;
          case Instruction::FDiv: op = FDIV; break;
          default: op = FREM; break;
        }
        sh[I] = guarded(after, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(slowF, {ci(op), sa, sb, f80(B, a), f80(B, b), f80(B, I), ci(fpk(T))});
        });
      } else {
        unsigned op = 0;
        switch (BO->getOpcode()) {
          case Instruction::Add: op = IADD; break; case Instruction::Sub: op = ISUB; break;
          case Instruction::Mul: op = IMUL; break; case Instruction::SDiv: op = ISDIV; break;
          case Instruction::UDiv: op = IUDIV; break; case Instruction::SRem: op = ISREM; break;
          case Instruction::URem: op = IUREM; break; case Instruction::Shl: op = ISHL; break;
          case Instruction::LShr: op = ILSHR; break; case Instruction::AShr: op = IASHR; break;
          case Instruction::And: op = IAND; break; case Instruction::Or: op = IOR; break;
          case Instruction::Xor: op = IXOR; break; default: return;
        }
        sh[I] = guarded(after, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(slowI, {ci(op), sa, sb, i64(B, a), i64(B, b), i64(B, I), ci(T->getIntegerBitWidth())});
        });
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      if (!isFP(T)) return;
      Value *a = U->getOperand(0), *sa = S(a);
      sh[I] = guarded(I->getNextNode(), {sa}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(slowF, {ci(FNEG), sa, ci(0), f80(B, a), ConstantFP::get(F80, 0.0), f80(B, I), ci(fpk(T))});
      });
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      Value *a = FC->getOperand(0), *b = FC->getOperand(1);
      if (!isFP(a->getType())) return;
      Value *sa = S(a), *sb = S(b);
      sh[I] = guarded(I->getNextNode(), {sa, sb}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(slowFC, {ci(FC->getPredicate()), sa, sb, f80(B, a), f80(B, b), B.CreateZExt(I, I32)});
      });
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (!isInt(a->getType())) return;
      Value *sa = S(a), *sb = S(b);
      sh[I] = guarded(I->getNextNode(), {sa, sb}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(slowIC, {ci(IC->getPredicate()), sa, sb, i64(B, a), i64(B, b), B.CreateZExt(I, I32), ci(a->getType()->getIntegerBitWidth())});
      });
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *a = CI->getOperand(0);
      if (!isScalar(T) || !isScalar(a->getType())) return;
      Value *sa = S(a);
      if (isa<BitCastInst>(CI)) { sh[I] = sa; return; }
      unsigned op;
      switch (CI->getOpcode()) {
        case Instruction::Trunc: op = C_TRUNC; break; case Instruction::ZExt: op = C_ZEXT; break;
        case Instruction::SExt: op = C_SEXT; break; case Instruction::FPToSI: op = C_FPTOSI; break;
        case Instruction::FPToUI: op = C_FPTOUI; break; case Instruction::SIToFP: op = C_SITOFP; break;
        case Instruction::UIToFP: op = C_UITOFP; break; case Instruction::FPTrunc: op = C_FPTRUNC; break;
        case Instruction::FPExt: op = C_FPEXT; break; default: return;
      }
      auto wid = [&](Type *t) { return isFP(t) ? fpk(t) : t->getIntegerBitWidth(); };
      sh[I] = guarded(I->getNextNode(), {sa}, [&](IRBuilder<> &B) -> Value * {
        Value *zf = ConstantFP::get(F80, 0.0), *zi = ConstantInt::get(I64, 0);
        return B.CreateCall(slowCast, {ci(op), sa, isFP(a->getType()) ? f80(B, a) : zf, isFP(a->getType()) ? zi : i64(B, a),
                                       isFP(T) ? f80(B, I) : zf, isFP(T) ? zi : i64(B, I), ci(wid(a->getType())), ci(wid(T))});
      });
      return;
    }
    if (isa<FreezeInst>(I)) { if (shTy(T)) sh[I] = S(I->getOperand(0)); return; }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      if (SI->getCondition()->getType()->isVectorTy()) return;
      Value *sc = S(SI->getCondition());
      if (isFP(T) && !isZero(sc)) {  // values: the fork is deferred until the result matters
        Value *x = S(SI->getTrueValue()), *y = S(SI->getFalseValue());
        Value *g = guarded(I->getNextNode(), {sc}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(slowSel, {sc, B.CreateZExt(SI->getCondition(), I32), x, y, f80(B, SI->getTrueValue()), f80(B, SI->getFalseValue()), ci(fpk(T))});
        });
        // place after g
        Instruction *pos = isa<Instruction>(g) ? cast<Instruction>(g)->getNextNode() : I->getNextNode();
        while (isa<PHINode>(pos)) pos = pos->getNextNode();
        IRBuilder<> B(pos);
        sh[I] = B.CreateSelect(B.CreateICmpEQ(sc, ci(0)), B.CreateSelect(SI->getCondition(), x, y), g);
        return;
      }
      // fork on symbolic condition
      guarded(I, {sc}, [&](IRBuilder<> &B) -> Value * {
        B.CreateCall(doBr, {sc, B.CreateZExt(SI->getCondition(), I32)});
        return nullptr;
      });
      if (shTy(T)) {
        IRBuilder<> B(I->getNextNode());
        Value *x = S(SI->getTrueValue()), *y = S(SI->getFalseValue());
        if (!(isZero(x) && isZero(y))) sh[I] = B.CreateSelect(SI->getCondition(), x, y);
      }
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Type *st = shTy(T);
      if (!st) return;
      IRBuilder<> B(I->getNextNode());
      sh[I] = flattenLoad(B, L->getPointerOperand(), T, 0);
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(I)) {
      Value *v = St->getValueOperand();
      IRBuilder<> B(I->getNextNode());
      if (shTy(v->getType())) flattenStore(B, St->getPointerOperand(), S(v), v->getType(), 0);
      else B.CreateCall(memSet, {St->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(v->getType()))});
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      for (auto &ix : G->indices()) {
        if (!isInt(ix->getType())) continue;
        Value *s = S(ix);
        if (isZero(s)) continue;
        Value *v = ix;
        guarded(I, {s}, [&](IRBuilder<> &B) -> Value * { B.CreateCall(doConc, {s, i64(B, v)}); return nullptr; });
      }
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      Type *st = shTy(E->getAggregateOperand()->getType());
      if (!st || !shTy(T)) return;
      Value *s = S(E->getAggregateOperand());
      if (isZero(s)) return;
      IRBuilder<> B(I->getNextNode());
      sh[I] = B.CreateExtractValue(s, E->getIndices());
      return;
    }
    if (auto *N = dyn_cast<InsertValueInst>(I)) {
      Type *st = shTy(T);
      if (!st) return;
      Value *s = S(N->getAggregateOperand());
      Value *v = N->getInsertedValueOperand();
      if (!shTy(v->getType())) { sh[I] = s; return; }
      IRBuilder<> B(I->getNextNode());
      sh[I] = B.CreateInsertValue(s, S(v), N->getIndices());
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) return;
      Value *s = S(Br->getCondition());
      guarded(I, {s}, [&](IRBuilder<> &B) -> Value * { B.CreateCall(doBr, {s, B.CreateZExt(Br->getCondition(), I32)}); return nullptr; });
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      Value *s = S(Sw->getCondition());
      // fork on each case in turn: value equality (concretised)
      guarded(I, {s}, [&](IRBuilder<> &B) -> Value * { B.CreateCall(doConc, {s, i64(B, Sw->getCondition())}); return nullptr; });
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      IRBuilder<> B(I);
      if (R->getReturnValue()) {
        Type *st = shTy(R->getReturnValue()->getType());
        if (st && nflat(st) <= 16) {
          unsigned slot = 0;
          // must not disturb a musttail call before the ret
          if (auto *p = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (p->isMustTailCall()) return;
          putSlots(B, Ret, slot, S(R->getReturnValue()), 16);
          B.CreateStore(I->getFunction(), RetFn);
        }
      }
      return;
    }
    if (auto *MI = dyn_cast<MemTransferInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(memCpy, {MI->getDest(), MI->getSource(), B.CreateZExtOrTrunc(MI->getLength(), I64)});
      return;
    }
    if (auto *MS = dyn_cast<MemSetInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(memSet, {MS->getDest(), B.CreateZExtOrTrunc(MS->getLength(), I64)});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      Function *f = CB->getCalledFunction();
      if (auto *II = dyn_cast<IntrinsicInst>(I)) { intrinsic(II); return; }
      if (f && f->isDeclaration()) {
        std::string n = f->getName().str();
        if (n.rfind("__sym_", 0) == 0) return;
        std::string base = n;
        auto &L = libm();
        if (!L.count(base) && base.size() > 1 && (base.back() == 'f' || base.back() == 'l') && L.count(base.substr(0, base.size() - 1))) base = base.substr(0, base.size() - 1);
        if (L.count(base) && CB->arg_size() <= 3 && CB->arg_size() >= 1 && isScalar(CB->getType()) && isScalar(CB->getArgOperand(0)->getType())) {
          if (isFP(CB->getArgOperand(0)->getType())) { fpCall(I, CB, base); return; }
        }
        if ((n == "memcpy" || n == "memmove") && CB->arg_size() == 3) {
          IRBuilder<> B(I->getNextNode());
          B.CreateCall(memCpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
          return;
        }
        if (n == "memset") { IRBuilder<> B(I->getNextNode()); B.CreateCall(memSet, {CB->getArgOperand(0), CB->getArgOperand(2)}); return; }
      }
      genericCall(CB);
      return;
    }
  }

  void intrinsic(IntrinsicInst *II) {
    Type *T = II->getType();
    switch (II->getIntrinsicID()) {
      case Intrinsic::sqrt: fpCall(II, II, "sqrt"); return;
      case Intrinsic::fabs: fpCall(II, II, "fabs"); return;
      case Intrinsic::sin: fpCall(II, II, "sin"); return;
      case Intrinsic::cos: fpCall(II, II, "cos"); return;
      case Intrinsic::exp: fpCall(II, II, "exp"); return;
      case Intrinsic::exp2: fpCall(II, II, "exp2"); return;
      case Intrinsic::log: fpCall(II, II, "log"); return;
      case Intrinsic::log2: fpCall(II, II, "log2"); return;
      case Intrinsic::log10: fpCall(II, II, "log10"); return;
      case Intrinsic::pow: fpCall(II, II, "pow"); return;
      case Intrinsic::powi: fpCall(II, II, "pow"); return;
      case Intrinsic::ldexp: fpCall(II, II, "ldexp"); return;
      case Intrinsic::floor: fpCall(II, II, "floor"); return;
      case Intrinsic::ceil: fpCall(II, II, "ceil"); return;
      case Intrinsic::trunc: fpCall(II, II, "trunc"); return;
      case Intrinsic::round: fpCall(II, II, "round"); return;
      case Intrinsic::rint: fpCall(II, II, "rint"); return;
      case Intrinsic::nearbyint: fpCall(II, II, "rint"); return;
      case Intrinsic::copysign: fpCall(II, II, "copysign"); return;
      case Intrinsic::minnum: fpCall(II, II, "fmin"); return;
      case Intrinsic::maxnum: fpCall(II, II, "fmax"); return;
      case Intrinsic::fma: case Intrinsic::fmuladd: if (isFP(T)) fpCall(II, II, "fma"); return;
      case Intrinsic::lround: case Intrinsic::llround: fpCall(II, II, "lround"); return;
      case Intrinsic::lrint: case Intrinsic::llrint: fpCall(II, II, "lrint"); return;
      case Intrinsic::expect: sh[II] = S(II->getArgOperand(0)); return;
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs:
      case Intrinsic::usub_sat: case Intrinsic::fptosi_sat: {
        if (!isInt(T)) return;
        const char *n = II->getIntrinsicID() == Intrinsic::smax ? "smax" : II->getIntrinsicID() == Intrinsic::smin ? "smin" : II->getIntrinsicID() == Intrinsic::umax ? "umax" : II->getIntrinsicID() == Intrinsic::umin ? "umin" : II->getIntrinsicID() == Intrinsic::abs ? "abs" : "usub.sat";
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
        bool two = II->getIntrinsicID() != Intrinsic::abs;
        Value *sa = S(a), *sb = two ? S(b) : (Value *)ci(0);
        sh[II] = guarded(II->getNextNode(), {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(slowIntr, {strp(n), sa, sb, i64(B, a), two ? i64(B, b) : (Value *)ConstantInt::get(I64, 0), i64(B, II), ci(T->getIntegerBitWidth())});
        });
        return;
      }
      case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1), *sa = S(a), *sb = S(b);
        if (isZero(sa) && isZero(sb)) return;
        // operands pinned to their values (fork points); result concrete
        guarded(II->getNextNode(), {sa}, [&](IRBuilder<> &B) -> Value * { B.CreateCall(doConc, {sa, i64(B, a)}); return nullptr; });
        guarded(II->getNextNode(), {sb}, [&](IRBuilder<> &B) -> Value * { B.CreateCall(doConc, {sb, i64(B, b)}); return nullptr; });
        return;
      }
      default: {
        // other intrinsics: result concrete; if an operand is symbolic, note it
        if (!isScalar(T)) return;
        std::vector<Value *> g;
        for (auto &x : II->args()) if (isScalar(x->getType()) && !isZero(S(x))) g.push_back(S(x));
        if (g.empty()) return;
        if (II->getIntrinsicID() == Intrinsic::is_fpclass) return;  // finite by convention
        std::string n = II->getCalledFunction()->getName().str();
        guarded(II->getNextNode(), g, [&](IRBuilder<> &B) -> Value * {
          Value *o = g[0];
          for (size_t k = 1; k < g.size(); k++) o = B.CreateOr(o, g[k]);
          B.CreateCall(doLost, {strp(n), o});
          return nullptr;
        });
        return;
      }
    }
  }
};

struct SymInstr : PassInfoMixin<SymInstr> {
  // cexp(a + ib) = exp(a) cos(b) + i exp(a) sin(b)
  static void lowerCexp(Module &M) {
    Function *f = M.getFunction("cexp");
    if (!f || !f->isDeclaration()) return;
    Type *D = Type::getDoubleTy(M.getContext());
    auto e = M.getOrInsertFunction("exp", D, D), c = M.getOrInsertFunction("cos", D, D), s = M.getOrInsertFunction("sin", D, D);
    std::vector<CallBase *> cs;
    for (auto *u : f->users()) if (auto *C = dyn_cast<CallBase>(u)) if (C->getCalledFunction() == f && C->arg_size() == 2 && isa<StructType>(C->getType())) cs.push_back(C);
    for (auto *C : cs) {
      IRBuilder<> B(C);
      Value *a = C->getArgOperand(0), *b = C->getArgOperand(1), *r = B.CreateCall(e, {a});
      Value *x = B.CreateInsertValue(PoisonValue::get(C->getType()), B.CreateFMul(r, B.CreateCall(c, {b})), 0);
      x = B.CreateInsertValue(x, B.CreateFMul(r, B.CreateCall(s, {b})), 1);
      C->replaceAllUsesWith(x);
      if (auto *I = dyn_cast<InvokeInst>(C)) { B.CreateBr(I->getNormalDest()); I->getUnwindDest()->removePredecessor(I->getParent()); }
      C->eraseFromParent();
    }
  }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    lowerCexp(M);
    Instr X(M);
    std::vector<Function *> fs;
    for (auto &F : M) if (!F.isDeclaration() && !F.getName().starts_with("__sym_") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for (auto *F : fs) {
      // shadow memory is read and written behind the function's back
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::Speculatable); F->removeFnAttr(Attribute::NoRecurse);
      for (auto &A : F->args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture); A.removeAttr(Attribute::NoAlias); A.removeAttr(Attribute::Returned);}
      X.run(*F);
    }
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      Function *f = CB->getCalledFunction();
      if (f && f->isIntrinsic()) continue;
      CB->removeFnAttr(Attribute::Memory);
      for (unsigned i = 0; i < CB->arg_size(); i++) { CB->removeParamAttr(i, Attribute::ReadOnly); CB->removeParamAttr(i, Attribute::ReadNone); CB->removeParamAttr(i, Attribute::WriteOnly); CB->removeParamAttr(i, Attribute::Returned); CB->removeParamAttr(i, Attribute::NoCapture);}
    }
    for (auto &F : M) if (F.isDeclaration() && !F.isIntrinsic()) F.removeFnAttr(Attribute::Memory);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sym-instr", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sym-instr") { MPM.addPass(SymInstr()); return true; }
              return false;
            });
          }};
}
