// LLVM pass: compiles every IR instruction of the real code into (concrete execution + symbolic
// shadow computation).  Loaded with clang++ -fpass-plugin=; see /verif/DESIGN.md "Engine".
//
// Each scalar SSA value V gets a companion i32 "expression id" (0 = concrete).  Constants are
// concrete, so instructions whose operands are all statically concrete are left untouched.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

// libc functions redirected to instrumented re-implementations (__symw_*), so data flow through
// them stays visible.
const char *kWrap[] = {
    "memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen", "strcmp", "strncmp",
    "wcslen", "wmemcpy", "wmemmove", "wmemset", "wmemcmp", "wmemchr", "wcscmp",
    "malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZnwmSt11align_val_t",
    "_ZSt11_Hash_bytesPKvmm", "iswspace", "iswdigit", "iswalpha", "towupper", "towlower",
    "toupper", "tolower", "isspace", "isdigit", "isalpha", "isalnum",
    "_ZNSo5writeEPKcl", "_ZNSi4readEPcl", "_ZNSt13basic_istreamIwSt11char_traitsIwEE4readEPwl",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEs",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEi",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEl",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEx",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEt",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEj",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEm",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEy",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEb",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEf",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEd",
    "_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEPFRS2_S3_E",
    "_ZSt4endlIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_",
    "_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_S3_",
    "_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_c",
    "_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_",
    "_ZStlsIwSt11char_traitsIwESaIwEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE",
    "_ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l",
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log10", "pow", "sqrt",
    nullptr};

struct Sym {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I32, *I64, *I1, *VoidT; PointerType *PtrT;
  Constant *Z;
  FunctionCallee fBin, fICmp, fFBin, fFCmp, fCast, fSelect, fGep, fLoad, fStore, fStoreC, fBr,
      fSwitch, fConc, fMemcpy, fMemset, fCallExt, fDivChk, fFNeg, fUnsupMem, fByval, fReg, fMath, fClear;
  GlobalVariable *gArgs, *gVals, *gRet, *gCallee, *gRetFn, *gByval;
  std::set<std::string> wrap;
  std::map<Value *, SmallVector<Value *, 2>> sh;
  std::vector<Function *> done;
  Function *F = nullptr; unsigned site = 0; uint32_t fnhash = 0;

  Sym(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C);
    VoidT = Type::getVoidTy(C); PtrT = PointerType::get(C, 0);
    Z = ConstantInt::get(I32, 0);
    auto fn = [&](const char *n, Type *r, std::initializer_list<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type *>(a), false));
    };
    fBin = fn("__sym_bin", I32, {I32, I32, I32, I64, I64, I64});
    fICmp = fn("__sym_icmp", I32, {I32, I32, I32, I64, I64, I64});
    fFBin = fn("__sym_fbin", I32, {I32, I32, I32, I64, I64, I64});
    fFCmp = fn("__sym_fcmp", I32, {I32, I32, I32, I64, I64, I64});
    fFNeg = fn("__sym_fneg", I32, {I32, I32, I64});
    fCast = fn("__sym_cast", I32, {I32, I32, I32, I64});
    fSelect = fn("__sym_select", I32, {I32, I32, I64, I32, I64, I32, I64});
    fGep = fn("__sym_gep", I32, {I32, I64, I32, I64, I64});
    fLoad = fn("__sym_load", I32, {PtrT, I32, I32, I64});
    fStore = fn("__sym_store", VoidT, {PtrT, I32, I32, I32});
    fStoreC = fn("__sym_store_c", VoidT, {PtrT, I32});
    fBr = fn("__sym_br", VoidT, {I32, I64, I32});
    fSwitch = fn("__sym_switch", VoidT, {I32, I64, PtrT, I32, I32});
    fConc = fn("__sym_conc", VoidT, {I32, I32});
    fMemcpy = fn("__sym_memcpy", VoidT, {PtrT, PtrT, I64});
    fMemset = fn("__sym_memset", VoidT, {PtrT, I32, I64});
    fCallExt = fn("__sym_call_ext", VoidT, {PtrT, I32, I64, PtrT});
    fDivChk = fn("__sym_divchk", VoidT, {I32, I32, I32, I64, I64, I32});
    fUnsupMem = fn("__sym_unsup_mem", VoidT, {PtrT, I64, I32});
    fByval = fn("__sym_byval_copy", VoidT, {PtrT, I32, I64});
    fReg = fn("__sym_register", VoidT, {PtrT, I64});
    fClear = fn("__sym_clear", VoidT, {PtrT, I64});
    fMath = fn("__sym_math1", I32, {I32, I32, I64, I64});
    auto gv = [&](const char *n, Type *t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    gArgs = gv("__sym_args", ArrayType::get(I32, 128));
    gVals = gv("__sym_vals", ArrayType::get(I64, 128));
    gByval = gv("__sym_byval", ArrayType::get(PtrT, 128));
    gRet = gv("__sym_ret", ArrayType::get(I32, 16));
    gCallee = gv("__sym_callee", PtrT);
    gRetFn = gv("__sym_retfn", PtrT);
    for (auto p = kWrap; *p; ++p) wrap.insert(*p);
  }

  // --- types ---------------------------------------------------------------------------------
  bool scalar(Type *T) {
    if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() <= 64;
    if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) return true;
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
      uint64_t b = DL.getTypeSizeInBits(V);
      return b <= 64 && (b == 8 || b == 16 || b == 32 || b == 64);
    }
    return false;
  }
  void leaves(Type *T, uint64_t off, SmallVectorImpl<std::pair<Type *, uint64_t>> &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
        leaves(S->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t n = A->getNumElements(), sz = DL.getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < n && i < 64; i++) leaves(A->getElementType(), off + i * sz, out);
    } else out.push_back({T, off});
  }
  unsigned nleaves(Type *T) {
    if (T->isVoidTy()) return 0;
    if (!T->isAggregateType()) return 1;
    SmallVector<std::pair<Type *, uint64_t>, 8> v; leaves(T, 0, v); return v.size();
  }
  unsigned bits(Type *T) {
    if (T->isPointerTy()) return 64;
    return DL.getTypeSizeInBits(T);
  }
  unsigned bytes(Type *T) { return DL.getTypeStoreSize(T); }

  // --- shadows -------------------------------------------------------------------------------
  SmallVector<Value *, 2> get(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    return SmallVector<Value *, 2>(nleaves(V->getType()), Z);
  }
  Value *g1(Value *V) { return get(V)[0]; }
  bool isZ(Value *E) { auto *c = dyn_cast<ConstantInt>(E); return c && c->isZero(); }
  void set1(Value *V, Value *E) { sh[V] = {E}; }

  Value *v64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isVectorTy()) return B.CreateZExtOrTrunc(B.CreateBitCast(V, IntegerType::get(C, bits(T))), I64);
    return B.CreateZExtOrTrunc(V, I64);
  }
  Value *c32(uint64_t x) { return ConstantInt::get(I32, (uint32_t)x); }
  Value *c64(uint64_t x) { return ConstantInt::get(I64, x); }
  Value *nextSite() { return c32(fnhash * 31u + ++site * 2654435761u); }
  // kind code: fp flag for cast source/dest
  unsigned tcode(Type *T) {  // bits | fp<<8
    unsigned b = bits(T);
    if (T->isFloatTy() || T->isDoubleTy()) b |= 0x100;
    return b;
  }
  Value *gep(IRBuilder<> &B, GlobalVariable *G, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i);
  }
  // concretise all leaves of V (unsupported consumer)
  void conc(IRBuilder<> &B, Value *V) {
    for (Value *E : get(V)) if (!isZ(E)) B.CreateCall(fConc, {E, nextSite()});
  }

  Instruction *after(Instruction *I) { return I->getNextNode(); }

  void loadLeaves(IRBuilder<> &B, Instruction *I, Type *T, Value *P, Value *PE, Value *Loaded) {
    SmallVector<std::pair<Type *, uint64_t>, 8> ls; leaves(T, 0, ls);
    SmallVector<Value *, 2> es;
    if (!T->isAggregateType()) {
      if (scalar(T)) {
        es.push_back(B.CreateCall(fLoad, {P, PE, c32(bytes(T) | (bits(T) << 8) | ((tcode(T) & 0x100) << 8)), v64(B, Loaded)}));
      } else {
        B.CreateCall(fUnsupMem, {P, c64(bytes(T)), nextSite()});
        if (!isZ(PE)) B.CreateCall(fConc, {PE, nextSite()});
        es.push_back(Z);
      }
    } else {
      if (!isZ(PE)) B.CreateCall(fConc, {PE, nextSite()});
      for (auto &l : ls) {
        Value *Q = B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), P, l.second);
        if (scalar(l.first)) {
          Value *X = B.CreateLoad(l.first, Q);
          es.push_back(B.CreateCall(fLoad, {Q, Z, c32(bytes(l.first) | (bits(l.first) << 8) | ((tcode(l.first) & 0x100) << 8)), v64(B, X)}));
        } else {
          B.CreateCall(fUnsupMem, {Q, c64(bytes(l.first)), nextSite()});
          es.push_back(Z);
        }
      }
    }
    sh[I] = es;
  }
  void storeLeaves(IRBuilder<> &B, Value *V, Value *P, Value *PE) {
    Type *T = V->getType();
    if (!T->isAggregateType()) {
      Value *E = scalar(T) ? g1(V) : (Value *)Z;
      if (isZ(E) && isZ(PE)) B.CreateCall(fStoreC, {P, c32(bytes(T))});
      else B.CreateCall(fStore, {P, PE, c32(bytes(T) | (bits(T) << 8)), E});
      return;
    }
    if (!isZ(PE)) B.CreateCall(fConc, {PE, nextSite()});
    B.CreateCall(fMemset, {P, Z, c64(DL.getTypeStoreSize(T))});
    SmallVector<std::pair<Type *, uint64_t>, 8> ls; leaves(T, 0, ls);
    auto es = get(V);
    for (unsigned i = 0; i < ls.size() && i < es.size(); i++) {
      if (isZ(es[i])) continue;
      Value *Q = B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), P, ls[i].second);
      B.CreateCall(fStore, {Q, Z, c32(bytes(ls[i].first) | (bits(ls[i].first) << 8)), es[i]});
    }
  }

  unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned k : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned i = 0; i < k; i++) r += nleaves(S->getElementType(i));
        T = S->getElementType(k);
      } else {
        auto *A = cast<ArrayType>(T);
        r += k * nleaves(A->getElementType()); T = A->getElementType();
      }
    }
    return r;
  }

  void visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) {
      IRBuilder<> B(CB); for (auto &a : CB->args()) conc(B, a.get()); return;
    }
    Function *Callee = CB->getCalledFunction();
    if (!Callee) if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()))
      Callee = dyn_cast<Function>(GA->getAliaseeObject());
    if (Callee && Callee->isIntrinsic()) { visitIntrinsic(CB, Callee); return; }
    if (Callee && Callee->getName().starts_with("__sym_")) return;

    if (Callee && Callee->isDeclaration() && wrap.count(Callee->getName().str())) {
      // a declaration of exactly this libc function: send it to the instrumented version
      std::string n = "__symw_" + Callee->getName().str();
      FunctionCallee W = M.getOrInsertFunction(n, Callee->getFunctionType());
      CB->setCalledOperand(W.getCallee());
      CB->setAttributes(AttributeList());
      Callee = nullptr;
      finishCall(CB, W.getCallee(), false);
      return;
    }
    finishCall(CB, CB->getCalledOperand(), !Callee || Callee->isDeclaration());
  }

  void finishCall(CallBase *CB, Value *Target, bool maybeExt) {
    IRBuilder<> B(CB);
    unsigned n = 0; bool any = false; uint64_t ptrmask = 0;
    struct A { Value *E; Value *V; bool byval; };
    SmallVector<A, 8> as;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      Value *a = CB->getArgOperand(i);
      bool bv = CB->isByValArgument(i);
      auto es = get(a);
      if (a->getType()->isMetadataTy() || a->getType()->isTokenTy()) return;
      for (Value *E : es) { as.push_back({E, a, bv}); if (!isZ(E)) any = true; if (bv) any = true; }
    }
    if (!CB->isIndirectCall()) {} else if (!isZ(g1(Target)))
      B.CreateCall(fConc, {g1(Target), nextSite()});
    // which are the pointer args
    for (unsigned i = 0; i < as.size() && i < 64; i++)
      if (as[i].V->getType()->isPointerTy()) ptrmask |= 1ull << i;
    if (any) {
      for (unsigned i = 0; i < as.size() && i < 128; i++) {
        B.CreateStore(as[i].E, gep(B, gArgs, i));
        if (as[i].byval) B.CreateStore(as[i].V, gep(B, gByval, i));
      }
      B.CreateStore(Target, gCallee);
    } else B.CreateStore(ConstantPointerNull::get(PtrT), gCallee);
    if (maybeExt && (any || ptrmask)) {
      if (!any) for (unsigned i = 0; i < as.size() && i < 128; i++) B.CreateStore(Z, gep(B, gArgs, i));
      for (unsigned i = 0; i < as.size() && i < 64; i++)
        if (ptrmask >> i & 1) B.CreateStore(v64(B, as[i].V), gep(B, gVals, i));
      Value *nm = ConstantPointerNull::get(PtrT);
      if (auto *Fn = dyn_cast<Function>(Target)) nm = B.CreateGlobalStringPtr(Fn->getName());
      B.CreateCall(fCallExt, {Target, c32(as.size()), c64(ptrmask), nm});
    }
    Type *RT = CB->getType();
    if (RT->isVoidTy()) return;
    SmallVector<std::pair<Type *, uint64_t>, 8> ls; leaves(RT, 0, ls);
    B.CreateStore(ConstantPointerNull::get(PtrT), gRetFn);
    Instruction *IP;
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *N = II->getNormalDest();
      IP = &*N->getFirstInsertionPt();
    } else if (isa<CallBrInst>(CB)) return;
    else {
      if (cast<CallInst>(CB)->isMustTailCall()) return;
      IP = after(CB);
    }
    IRBuilder<> B2(IP);
    Value *ok = B2.CreateICmpEQ(B2.CreateLoad(PtrT, gRetFn), Target);
    SmallVector<Value *, 2> es;
    for (unsigned i = 0; i < ls.size(); i++) {
      if (!scalar(ls[i].first) || i >= 16) { es.push_back(Z); continue; }
      es.push_back(B2.CreateSelect(ok, B2.CreateLoad(I32, gep(B2, gRet, i)), Z));
    }
    sh[CB] = es;
  }

  void visitIntrinsic(CallBase *CB, Function *Callee) {
    IRBuilder<> B(CB);
    if (auto *MI = dyn_cast<MemTransferInst>(CB)) {
      conc(B, MI->getDest()); conc(B, MI->getSource()); conc(B, MI->getLength());
      B.CreateCall(fMemcpy, {MI->getDest(), MI->getSource(), B.CreateZExtOrTrunc(MI->getLength(), I64)});
      return;
    }
    if (auto *MS = dyn_cast<MemSetInst>(CB)) {
      conc(B, MS->getDest()); conc(B, MS->getLength());
      B.CreateCall(fMemset, {MS->getDest(), g1(MS->getValue()), B.CreateZExtOrTrunc(MS->getLength(), I64)});
      return;
    }
    switch (Callee->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      case Intrinsic::trap: case Intrinsic::donothing: case Intrinsic::threadlocal_address:
      case Intrinsic::experimental_noalias_scope_decl:
        return;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
        sh[CB] = get(CB->getArgOperand(0)); return;
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil:
      case Intrinsic::trunc: {
        Value *a = CB->getArgOperand(0);
        if (!(a->getType()->isFloatTy() || a->getType()->isDoubleTy()) || isZ(g1(a))) return;
        IRBuilder<> B2(after(CB));
        unsigned k = Callee->getIntrinsicID() == Intrinsic::fabs ? 1 : Callee->getIntrinsicID() == Intrinsic::sqrt ? 2 :
          Callee->getIntrinsicID() == Intrinsic::floor ? 3 : Callee->getIntrinsicID() == Intrinsic::ceil ? 4 : 5;
        set1(CB, B2.CreateCall(fMath, {c32(k << 16 | tcode(a->getType())), g1(a), v64(B2, a), v64(B2, CB)}));
        return;
      }
      case Intrinsic::is_fpclass: {
        conc(B, CB->getArgOperand(0)); return;
      }
      default:
        for (auto &a : CB->args()) {
          if (a->getType()->isMetadataTy() || a->getType()->isTokenTy()) continue;
          conc(B, a.get());
        }
        return;
    }
  }

  void visit(Instruction *I) {
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Type *T = I->getType();
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (!scalar(T) || T->isVectorTy()) { IRBuilder<> B(I); conc(B, a); conc(B, b); return; }
      if (isZ(g1(a)) && isZ(g1(b))) return;
      if (T->isIntegerTy()) {
        unsigned op = BO->getOpcode();
        if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
          IRBuilder<> P(I);
          P.CreateCall(fDivChk, {c32(op << 16 | bits(T)), g1(a), g1(b), v64(P, a), v64(P, b), nextSite()});
        }
        IRBuilder<> B(after(I));
        set1(I, B.CreateCall(fBin, {c32(op << 16 | bits(T)), g1(a), g1(b), v64(B, a), v64(B, b), v64(B, I)}));
      } else {
        IRBuilder<> B(after(I));
        set1(I, B.CreateCall(fFBin, {c32(BO->getOpcode() << 16 | bits(T)), g1(a), g1(b), v64(B, a), v64(B, b), v64(B, I)}));
      }
    } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
      Value *a = U->getOperand(0);
      if (!scalar(U->getType()) || U->getType()->isVectorTy()) { IRBuilder<> B(I); conc(B, a); return; }
      if (isZ(g1(a))) return;
      IRBuilder<> B(after(I));
      set1(I, B.CreateCall(fFNeg, {c32(bits(U->getType())), g1(a), v64(B, I)}));
    } else if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (!scalar(a->getType()) || a->getType()->isVectorTy()) { IRBuilder<> B(I); conc(B, a); conc(B, b); return; }
      if (isZ(g1(a)) && isZ(g1(b))) return;
      IRBuilder<> B(after(I));
      set1(I, B.CreateCall(fICmp, {c32(IC->getPredicate() << 16 | bits(a->getType())), g1(a), g1(b), v64(B, a), v64(B, b), v64(B, I)}));
    } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (!scalar(a->getType()) || a->getType()->isVectorTy()) { IRBuilder<> B(I); conc(B, a); conc(B, b); return; }
      if (isZ(g1(a)) && isZ(g1(b))) return;
      IRBuilder<> B(after(I));
      set1(I, B.CreateCall(fFCmp, {c32(FC->getPredicate() << 16 | bits(a->getType())), g1(a), g1(b), v64(B, a), v64(B, b), v64(B, I)}));
    } else if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *a = I->getOperand(0);
      if (a->getType()->isAggregateType()) return;
      if (!scalar(a->getType()) || !scalar(I->getType()) ||
          (a->getType()->isVectorTy() && CI->getOpcode() != Instruction::BitCast) ||
          (I->getType()->isVectorTy() && CI->getOpcode() != Instruction::BitCast)) {
        IRBuilder<> B(I); if (scalar(a->getType())) conc(B, a); return;
      }
      if (isZ(g1(a))) return;
      unsigned op = CI->getOpcode();
      if (op == Instruction::PtrToInt || op == Instruction::IntToPtr) {
        unsigned sb = bits(a->getType()), db = bits(I->getType());
        if (sb == db) { set1(I, g1(a)); return; }
        op = sb < db ? Instruction::ZExt : Instruction::Trunc;
      }
      if (op == Instruction::BitCast && tcode(a->getType()) == tcode(I->getType())) { set1(I, g1(a)); return; }
      IRBuilder<> B(after(I));
      set1(I, B.CreateCall(fCast, {c32(op << 20 | tcode(a->getType()) << 10 | tcode(I->getType())), g1(a), c32(0), v64(B, I)}));
    } else if (auto *S = dyn_cast<SelectInst>(I)) {
      Value *c = S->getCondition(), *t = S->getTrueValue(), *f = S->getFalseValue();
      if (!scalar(S->getType()) || c->getType()->isVectorTy()) { IRBuilder<> B(I); conc(B, c); conc(B, t); conc(B, f); return; }
      if (isZ(g1(c)) && isZ(g1(t)) && isZ(g1(f))) return;
      IRBuilder<> B(after(I));
      set1(I, B.CreateCall(fSelect, {c32(tcode(S->getType())), g1(c), v64(B, c), g1(t), v64(B, t), g1(f), v64(B, f)}));
    } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (I->getType()->isVectorTy()) return;
      bool any = !isZ(g1(G->getPointerOperand()));
      for (auto &x : G->indices()) if (!isZ(g1(x.get()))) any = true;
      if (!any) return;
      IRBuilder<> B(after(I));
      Value *E = g1(G->getPointerOperand()), *V = v64(B, G->getPointerOperand());
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        Value *ix = gti.getOperand();
        if (StructType *ST = gti.getStructTypeOrNull()) {
          uint64_t off = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          if (off) { E = B.CreateCall(fGep, {E, V, Z, c64(1), c64(off)}); V = B.CreateAdd(V, c64(off)); }
        } else {
          uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) if (ci->isZero()) continue;
          Value *iv = B.CreateSExtOrTrunc(ix, I64);
          Value *ie = g1(ix);
          if (!isZ(ie) && bits(ix->getType()) < 64)
            ie = B.CreateCall(fCast, {c32(Instruction::SExt << 20 | bits(ix->getType()) << 10 | 64), ie, c32(0), iv});
          E = B.CreateCall(fGep, {E, V, ie, iv, c64(sz)});
          V = B.CreateAdd(V, B.CreateMul(iv, c64(sz)));
        }
      }
      set1(I, E);
    } else if (auto *L = dyn_cast<LoadInst>(I)) {
      IRBuilder<> B(after(I));
      loadLeaves(B, I, I->getType(), L->getPointerOperand(), g1(L->getPointerOperand()), I);
    } else if (auto *S = dyn_cast<StoreInst>(I)) {
      IRBuilder<> B(after(I));
      storeLeaves(B, S->getValueOperand(), S->getPointerOperand(), g1(S->getPointerOperand()));
      if (!S->getValueOperand()->getType()->isAggregateType() && !scalar(S->getValueOperand()->getType())) {}
    } else if (auto *X = dyn_cast<AtomicRMWInst>(I)) {
      IRBuilder<> B(I); conc(B, X->getPointerOperand()); conc(B, X->getValOperand());
      B.CreateCall(fUnsupMem, {X->getPointerOperand(), c64(bytes(X->getType())), nextSite()});
    } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) {
      IRBuilder<> B(I); conc(B, X->getPointerOperand()); conc(B, X->getCompareOperand()); conc(B, X->getNewValOperand());
      B.CreateCall(fUnsupMem, {X->getPointerOperand(), c64(bytes(X->getNewValOperand()->getType())), nextSite()});
    } else if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      auto es = get(EV->getAggregateOperand());
      unsigned k = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
      unsigned n = nleaves(I->getType());
      SmallVector<Value *, 2> r;
      for (unsigned i = 0; i < n; i++) r.push_back(k + i < es.size() ? es[k + i] : (Value *)Z);
      sh[I] = r;
    } else if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      auto es = get(IV->getAggregateOperand());
      unsigned k = leafIndex(IV->getAggregateOperand()->getType(), IV->getIndices());
      auto vs = get(IV->getInsertedValueOperand());
      for (unsigned i = 0; i < vs.size(); i++) if (k + i < es.size()) es[k + i] = vs[i];
      sh[I] = es;
    } else if (isa<FreezeInst>(I)) {
      sh[I] = get(I->getOperand(0));
    } else if (auto *CB = dyn_cast<CallBase>(I)) {
      visitCall(CB);
    } else if (auto *R = dyn_cast<ReturnInst>(I)) {
      if (Value *v = R->getReturnValue()) {
        IRBuilder<> B(I);
        auto es = get(v);
        bool any = false;
        for (unsigned i = 0; i < es.size() && i < 16; i++) any |= !isZ(es[i]);
        if (any) {
          for (unsigned i = 0; i < es.size() && i < 16; i++) B.CreateStore(es[i], gep(B, gRet, i));
          B.CreateStore(F, gRetFn);
        } else B.CreateStore(ConstantPointerNull::get(PtrT), gRetFn);
      }
    } else if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isConditional() && !isZ(g1(Br->getCondition()))) {
        IRBuilder<> B(I);
        B.CreateCall(fBr, {g1(Br->getCondition()), v64(B, Br->getCondition()), nextSite()});
      }
    } else if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      if (!isZ(g1(Sw->getCondition()))) {
        IRBuilder<> B(I);
        std::vector<uint64_t> cs;
        for (auto &c : Sw->cases()) cs.push_back(c.getCaseValue()->getZExtValue());
        auto *arr = ConstantDataArray::get(C, cs);
        auto *gv = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "__sym_sw");
        B.CreateCall(fSwitch, {g1(Sw->getCondition()), v64(B, Sw->getCondition()), gv, c32(cs.size()), nextSite()});
      }
    } else if (auto *A = dyn_cast<AllocaInst>(I)) {
      IRBuilder<> B(I); conc(B, A->getArraySize());
    } else if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
      IRBuilder<> B(I);
      for (auto &o : I->operands()) if (!o->getType()->isAggregateType()) conc(B, o.get());
    } else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) {
    } else {
      IRBuilder<> B(I);
      for (auto &o : I->operands()) if (!o->getType()->isLabelTy() && !o->getType()->isMetadataTy() && !o->getType()->isTokenTy()) conc(B, o.get());
    }
  }

  void runOn(Function &Fn) {
    F = &Fn; site = 0; sh.clear();
    fnhash = 2166136261u;
    for (char c : Fn.getName()) fnhash = (fnhash ^ (unsigned char)c) * 16777619u;
    for (auto &BB : Fn) for (auto &I : BB)
      if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->isMustTailCall()) return;

    // give every value-returning invoke a normal destination of its own (before phis exist)
    {
      std::vector<InvokeInst *> inv;
      for (auto &BB : Fn) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
        if (!II->getType()->isVoidTy()) inv.push_back(II);
      for (auto *II : inv) {
        BasicBlock *N = II->getNormalDest();
        if (!N->getSinglePredecessor() || isa<PHINode>(N->begin())) SplitEdge(II->getParent(), N);
      }
    }
    // collect in RPO before modification
    std::vector<Instruction *> work;
    std::vector<PHINode *> phis;
    ReversePostOrderTraversal<Function *> RPO(&Fn);
    for (BasicBlock *BB : RPO) for (auto &I : *BB) {
      if (auto *P = dyn_cast<PHINode>(&I)) phis.push_back(P); else work.push_back(&I);
    }
    // prologue
    {
      IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
      // keep allocas first: insert after the static allocas
      Instruction *ip = &*Fn.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      B.SetInsertPoint(ip);
      // a new frame starts without symbolic data left over from earlier frames
      for (auto &I : Fn.getEntryBlock())
        if (auto *A = dyn_cast<AllocaInst>(&I)) if (A->isStaticAlloca()) {
          uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType()) * cast<ConstantInt>(A->getArraySize())->getZExtValue();
          if (sz) B.CreateCall(fClear, {A, c64(sz)});
        }
      if (Fn.arg_size()) {
        Value *ok = B.CreateICmpEQ(B.CreateLoad(PtrT, gCallee), &Fn);
        unsigned k = 0;
        for (auto &A : Fn.args()) {
          unsigned n = nleaves(A.getType());
          SmallVector<std::pair<Type *, uint64_t>, 8> ls; leaves(A.getType(), 0, ls);
          SmallVector<Value *, 2> es;
          if (A.hasByValAttr())
            B.CreateCall(fByval, {B.CreateSelect(ok, &A, ConstantPointerNull::get(PtrT)), c32(k),
                                  c64(DL.getTypeAllocSize(A.getParamByValType()))});
          for (unsigned i = 0; i < n; i++, k++) {
            if (k >= 128 || !scalar(ls[i].first)) es.push_back(Z);
            else es.push_back(B.CreateSelect(ok, B.CreateLoad(I32, gep(B, gArgs, k)), Z));
          }
          sh[&A] = es;
        }
        B.CreateStore(ConstantPointerNull::get(PtrT), gCallee);
      }
    }
    // phi companions
    std::vector<std::pair<PHINode *, std::vector<PHINode *>>> pc;
    for (auto *P : phis) {
      unsigned n = nleaves(P->getType());
      SmallVector<std::pair<Type *, uint64_t>, 8> ls; leaves(P->getType(), 0, ls);
      SmallVector<Value *, 2> es; std::vector<PHINode *> ps;
      for (unsigned i = 0; i < n; i++) {
        if (!scalar(ls[i].first)) { es.push_back(Z); ps.push_back(nullptr); continue; }
        auto *Q = PHINode::Create(I32, P->getNumIncomingValues(), "", P);
        es.push_back(Q); ps.push_back(Q);
      }
      sh[P] = es; pc.push_back({P, ps});
    }
    for (auto *I : work) visit(I);
    for (auto &x : pc) for (unsigned l = 0; l < x.second.size(); l++) {
      PHINode *Q = x.second[l]; if (!Q) continue;
      for (unsigned i = 0; i < x.first->getNumIncomingValues(); i++)
        Q->addIncoming(get(x.first->getIncomingValue(i))[l], x.first->getIncomingBlock(i));
    }
    // the function now touches global shadow state
    Fn.removeFnAttr(Attribute::Memory);
    Fn.removeFnAttr(Attribute::NoSync); Fn.removeFnAttr(Attribute::Speculatable);
    done.push_back(&Fn);
  }

  void finish() {
    if (done.empty()) return;
    std::vector<Constant *> v;
    for (auto *f : done) if (!(f->hasLocalLinkage() && f->hasComdat())) v.push_back(f);
    auto *AT = ArrayType::get(PtrT, v.size());
    auto *gv = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, v), "__sym_fns");
    auto *ctor = Function::Create(FunctionType::get(VoidT, false), GlobalValue::InternalLinkage, "__sym_module_ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "", ctor));
    B.CreateCall(fReg, {gv, c64(v.size())});
    B.CreateRetVoid();
    // prepend to llvm.global_ctors with highest priority
    std::vector<Constant *> cs;
    StructType *ST = StructType::get(C, {I32, PtrT, PtrT});
    cs.push_back(ConstantStruct::get(ST, {cast<Constant>(c32(101)), ctor, ConstantPointerNull::get(PtrT)}));
    if (auto *old = M.getGlobalVariable("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(old->getInitializer()))
        for (auto &o : ca->operands()) cs.push_back(cast<Constant>(o));
      old->eraseFromParent();
    }
    auto *CT = ArrayType::get(ST, cs.size());
    new GlobalVariable(M, CT, false, GlobalValue::AppendingLinkage, ConstantArray::get(CT, cs), "llvm.global_ctors");
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    for (auto &F : M) {   // is.constant does not survive -O0 code generation without optnone
      std::vector<CallBase *> rm;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction())
          if (C->getIntrinsicID() == Intrinsic::is_constant) rm.push_back(CB);
      for (auto *CB : rm) {
        CB->replaceAllUsesWith(ConstantInt::get(CB->getType(), isa<Constant>(CB->getArgOperand(0))));
        CB->eraseFromParent();
      }
      std::vector<CallBase *> fc;      // isinf, isnan, isfinite as bit tests
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction())
          if (C->getIntrinsicID() == Intrinsic::is_fpclass && (CB->getArgOperand(0)->getType()->isFloatTy() || CB->getArgOperand(0)->getType()->isDoubleTy())) fc.push_back(CB);
      for (auto *CB : fc) {
        uint64_t m = cast<ConstantInt>(CB->getArgOperand(1))->getZExtValue();
        if (m != 516 && m != 3 && m != 504) continue;
        IRBuilder<> B(CB);
        bool f = CB->getArgOperand(0)->getType()->isFloatTy();
        Type *T = f ? B.getInt32Ty() : B.getInt64Ty();
        Value *inf = ConstantInt::get(T, f ? 0x7f800000ull : 0x7ff0000000000000ull);
        Value *a = B.CreateAnd(B.CreateBitCast(CB->getArgOperand(0), T), ConstantInt::get(T, f ? 0x7fffffffull : 0x7fffffffffffffffull));
        CB->replaceAllUsesWith(m == 516 ? B.CreateICmpEQ(a, inf) : m == 3 ? B.CreateICmpUGT(a, inf) : B.CreateICmpULT(a, inf));
        CB->eraseFromParent();
      }
    }
    Sym S(M);
    std::vector<Function *> fs;
    for (auto &F : M) {
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
      if (F.getName().starts_with("__sym_")) continue;
      if (F.hasFnAttribute("nosym")) continue;
      fs.push_back(&F);
    }
    for (auto *F : fs) S.runOn(*F);
    for (auto &F : M) {  // declarations must not be assumed pure
      F.removeFnAttr(Attribute::Memory);
    }
    for (auto *F : fs) for (auto &I : instructions(*F))
      if (auto *CB = dyn_cast<CallBase>(&I)) CB->removeFnAttr(Attribute::Memory);
    S.finish();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symdse", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
              FunctionPassManager FPM;
              FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
              FPM.addPass(PromotePass());
              MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
              MPM.addPass(SymPass());
            });
          }};
}
