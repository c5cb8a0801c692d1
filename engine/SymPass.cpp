// LLVM pass plugin: two module passes.
//   symstub  (run before optimisation): replaces the bodies of the environment functions
//            (uniform draws) by calls into the runtime, pins formatting helpers as opaque.
//   syminst  (run after optimisation): adds a shadow expression to every integer/floating SSA
//            value, argument, return value and memory cell, and routes every use of a symbolic
//            value that could steer native execution (branch, address, external call, divisor)
//            through the runtime.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static bool startsWith(StringRef s, const char *p) { return s.starts_with(p); }

// functions that only format text: executed natively on whatever concrete bits are there
static bool isFormatting(StringRef n) {
  if (n.contains("to_string") || n.contains("to_chars") || n.contains("basic_ostream") ||
      n.contains("basic_ios") || n.contains("printf") || n.contains("ios_base") ||
      (n.starts_with("_ZSt") && n.contains("__throw_")) || n.contains("stringstream") || n.contains("basic_streambuf") || n.contains("stringbuf"))
    return true;
  // operator<<(std::ostream&, X const&)
  if (n.starts_with("_ZlsRSo") || n.contains("lsRSoRK") || n.starts_with("_ZNSo") || n.contains("lsISt11char_traits"))
    return true;
  return false;
}

struct StubPass : PassInfoMixin<StubPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C);
    FunctionCallee ur = M.getOrInsertFunction("__sym_uniform_real", D, D, D, PointerType::get(C, 0), I32);
    FunctionCallee ui = M.getOrInsertFunction("__sym_uniform_int", I32, I32, I32, PointerType::get(C, 0), I32);
    for (Function &F : M) {
      // keep every function's code analysable: no noinline needed in general
      F.removeFnAttr(Attribute::OptimizeNone);
      if (F.isDeclaration()) continue;
      StringRef n = F.getName();
      if (isFormatting(n)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.addFnAttr("sym-concrete"); continue; }
      string dem = llvm::demangle(n.str());
      StringRef d(dem);
      if (n.starts_with("_ZNSt23mersenne_twister_engine")) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.addFnAttr("sym-concrete"); continue; }
      bool isUR = d.contains("std::uniform_real_distribution<double>::operator()") && F.getReturnType()->isDoubleTy();
      bool isUI = d.contains("std::uniform_int_distribution<int>::operator()") && F.getReturnType()->isIntegerTy(32);
      bool isGC = d.contains("std::generate_canonical<double") && F.getReturnType()->isDoubleTy();
      if (!isUR && !isUI && !isGC) continue;
      // size of the generator's state, which tells its draws apart (0: not known)
      unsigned size = d.contains("mersenne_twister_engine<unsigned long, 32ul, 624ul") ? 5000 : d.contains("mersenne_twister_engine<unsigned long, 64ul, 312ul") ? 2504 : d.contains("linear_congruential_engine<unsigned long") ? 8 : 0;
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::InternalLinkage);
      BasicBlock *BB = BasicBlock::Create(C, "e", &F);
      IRBuilder<> B(BB);
      if (isGC) { B.CreateRet(B.CreateCall(ur, {ConstantFP::get(D, 0.0), ConstantFP::get(D, 1.0), F.getArg(0), ConstantInt::get(I32, size)})); continue; }
      // the parameters live in the param_type: last argument if there are three, else *this
      Value *P = F.arg_size() >= 3 ? F.getArg(2) : F.getArg(0);
      Type *T = isUR ? D : I32;
      Value *a = B.CreateLoad(T, P);
      Value *b = B.CreateLoad(T, B.CreateConstGEP1_32(T, P, 1));
      B.CreateRet(B.CreateCall(isUR ? ur : ui, {a, b, F.getArg(1), ConstantInt::get(I32, size)}));
      F.removeFnAttr(Attribute::NoInline);
    }
    return PreservedAnalyses::none();
  }
};

// lists the repository functions that are still reachable from the harnesses (evidence only)
struct ListPass : PassInfoMixin<ListPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    if (const char *f = getenv("SYM_REACHLIST")) { std::error_code ec; raw_fd_ostream o(f, ec); for (Function &F : M) if (!F.isDeclaration()) { string d = llvm::demangle(F.getName().str()); o << d << "\n"; } }
    return PreservedAnalyses::all();
  }
};

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *P, *I1, *I8, *I32, *I64, *D, *V;
  Constant *Null;
  FunctionCallee fBin, fFBin, fFNeg, fICmp, fFCmp, fCast, fSel, fFSel, fBr, fConc, fConcF, fDiv, fLoad, fStore, fClear,
      fMemcpy, fMemset, fMath1, fMath2, fMath3, fIMath, fArgSet, fArgGet, fCall, fRetGet, fRetSet, fEnter, fOvf, fUns, fClass, fMemcmp;
  Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    P = PointerType::get(C, 0); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C); D = Type::getDoubleTy(C); V = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(P));
    auto F = [&](const char *n, Type *r, std::vector<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
    fBin = F("__sym_binop", P, {I32, I32, I64, P, I64, P});
    fFBin = F("__sym_fbinop", P, {I32, I32, D, P, D, P});
    fFNeg = F("__sym_fneg", P, {I32, P});
    fICmp = F("__sym_icmp", P, {I32, I32, I64, P, I64, P});
    fFCmp = F("__sym_fcmp", P, {I32, I32, D, P, D, P});
    fCast = F("__sym_cast", P, {I32, I32, I32, P});
    fSel = F("__sym_select", P, {I1, P, I32, I64, P, I64, P});
    fFSel = F("__sym_fselect", P, {I1, P, I32, D, P, D, P});
    fBr = F("__sym_branch", I1, {I1, P});
    fConc = F("__sym_concretize", I64, {I64, P, I32});
    fConcF = F("__sym_concretize_f", D, {D, P, I32});
    fDiv = F("__sym_divisor", I64, {I64, P, I32, I64, P, I32});
    fLoad = F("__sym_load", P, {P, I32, I32});
    fStore = F("__sym_store", V, {P, I32, I32, P});
    fClear = F("__sym_clear", V, {P, I64});
    fMemcpy = F("__sym_memcpy", V, {P, P, I64});
    fMemset = F("__sym_memset", V, {P, I8, P, I64});
    fMemcmp = F("__sym_memcmp", I32, {P, P, I64});
    fMath1 = F("__sym_math1", P, {P, I32, D, P});
    fMath2 = F("__sym_math2", P, {P, I32, D, P, D, P});
    fMath3 = F("__sym_math3", P, {P, I32, D, P, D, P, D, P});
    fIMath = F("__sym_imath", P, {P, I32, I64, P, I64, P});
    fOvf = F("__sym_ovf", P, {P, I32, I64, P, I64, P});
    fClass = F("__sym_fpclass", P, {I32, P, I32});
    fArgSet = F("__sym_arg_set", V, {I32, P});
    fArgGet = F("__sym_arg_get", P, {I32, P});
    fEnter = F("__sym_enter", V, {P});
    fCall = F("__sym_call", V, {P});
    fRetGet = F("__sym_ret_get", P, {I32, P});
    fRetSet = F("__sym_ret_set", V, {I32, P, P});
    fUns = F("__sym_unsupported", V, {P});
  }
  std::map<Value *, Value *> sh;
  std::map<string, Value *> strs;
  Value *str(IRBuilder<> &B, StringRef s) {
    auto &v = strs[s.str()];
    if (!v) v = B.CreateGlobalStringPtr(s, "symstr", 0, &M);
    return v;
  }
  bool scalar(Type *t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isDoubleTy() || t->isFloatTy(); }
  bool agg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
  bool hasTracked(Type *t) {
    if (scalar(t)) return true;
    if (auto *s = dyn_cast<StructType>(t)) { for (Type *e : s->elements()) if (hasTracked(e)) return true; return false; }
    if (auto *a = dyn_cast<ArrayType>(t)) return hasTracked(a->getElementType());
    return false;
  }
  Type *shTy(Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) { std::vector<Type *> e; for (Type *x : s->elements()) e.push_back(shTy(x)); return StructType::get(C, e); }
    if (auto *a = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()), a->getNumElements());
    return P;
  }
  Constant *nullSh(Type *t) { return Constant::getNullValue(shTy(t)); }
  Value *S(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return nullSh(v->getType());
  }
  bool isNull(Value *s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
  Value *w64(IRBuilder<> &B, Value *v) { return v->getType()->isIntegerTy(64) ? v : B.CreateZExt(v, I64); }
  Value *wD(IRBuilder<> &B, Value *v) { return v->getType()->isDoubleTy() ? v : B.CreateFPExt(v, D); }
  Value *i32(unsigned x) { return ConstantInt::get(I32, x); }
  unsigned width(Type *t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : t->isDoubleTy() ? 64 : 32; }
  // enumerate scalar leaves of a (possibly aggregate) shadow value
  void leaves(IRBuilder<> &B, Type *t, Value *s, std::vector<Value *> &out) {
    if (!agg(t)) { out.push_back(s); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *e = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      Value *x = isNull(s) ? (Value *)nullSh(e) : B.CreateExtractValue(s, i);
      leaves(B, e, x, out);
    }
  }
  unsigned nleaves(Type *t) {
    if (!agg(t)) return 1;
    unsigned n = 0, k = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < k; i++) n += nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
    return n;
  }
  Value *build(IRBuilder<> &B, Type *t, std::vector<Value *> &l, unsigned &k) {
    if (!agg(t)) return l[k++];
    Value *r = PoisonValue::get(shTy(t));
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      r = B.CreateInsertValue(r, build(B, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), l, k), i);
    return r;
  }
  // load/store of possibly aggregate typed memory
  Value *loadSh(IRBuilder<> &B, Type *t, Value *ptr) {
    if (scalar(t)) return B.CreateCall(fLoad, {ptr, i32(DL.getTypeStoreSize(t)), i32(t->isIntegerTy() ? width(t) : t->isDoubleTy() ? 1064 : 1032)});
    if (!agg(t) || !hasTracked(t)) return nullSh(t);
    Value *r = PoisonValue::get(shTy(t));
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *e = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      Value *q = B.CreateGEP(t, ptr, {i32(0), i32(i)});
      r = B.CreateInsertValue(r, loadSh(B, e, q), i);
    }
    return r;
  }
  void storeSh(IRBuilder<> &B, Type *t, Value *ptr, Value *s) {
    if (scalar(t)) { B.CreateCall(fStore, {ptr, i32(DL.getTypeStoreSize(t)), i32(t->isIntegerTy() ? width(t) : t->isDoubleTy() ? 1064 : 1032), s}); return; }
    if (!agg(t) || !hasTracked(t) || isNull(s)) { B.CreateCall(fClear, {ptr, ConstantInt::get(I64, DL.getTypeStoreSize(t))}); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *e = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      storeSh(B, e, B.CreateGEP(t, ptr, {i32(0), i32(i)}), B.CreateExtractValue(s, i));
    }
  }
  Value *concretize(IRBuilder<> &B, Value *v) {
    Value *s = S(v);
    if (isNull(s) || !scalar(v->getType())) return v;
    if (v->getType()->isIntegerTy()) return B.CreateZExtOrTrunc(B.CreateCall(fConc, {w64(B, v), s, i32(width(v->getType()))}), v->getType());
    Value *r = B.CreateCall(fConcF, {wD(B, v), s, i32(width(v->getType()))});
    return v->getType()->isDoubleTy() ? r : B.CreateFPTrunc(r, v->getType());
  }
  void unsupported(Instruction *I, const char *what) {
    IRBuilder<> B(I);
    string s; raw_string_ostream os(s); I->print(os);
    B.CreateCall(fUns, {str(B, string(what) + ": " + s)});
  }
  bool anyOperandSymbolic(Instruction *I) { for (Value *o : I->operands()) if (!isNull(S(o))) return true; return false; }

  bool skip(Function &F) {
    if (F.isDeclaration()) return true;
    StringRef n = F.getName();
    return F.hasFnAttribute("sym-concrete") || startsWith(n, "__sym_") || startsWith(n, "_GLOBAL__sub_I") || startsWith(n, "__cxx_global_var_init");
  }
  bool shadowAware(Function *F) { return F && (!skip(*F) || startsWith(F->getName(), "sym_") || startsWith(F->getName(), "__sym_")); }

  static const char *mathName(StringRef n) {
    static const std::set<string> m = {"log", "exp", "pow", "sqrt", "floor", "ceil", "round", "fabs", "trunc", "fmod", "fmin", "fmax", "hypot", "log1p", "expm1", "rint", "nearbyint", "cbrt", "exp2", "log2", "log10", "copysign", "lround", "llround", "lrint", "fma", "fdim"};
    string s = n.str();
    auto it = m.find(s);
    if (it != m.end()) return it->c_str();
    if (!s.empty() && s.back() == 'f') { s.pop_back(); it = m.find(s); if (it != m.end()) return it->c_str(); }
    return nullptr;
  }

  void setCallArgs(IRBuilder<> &B, CallBase *CB) {
    unsigned k = 0;
    B.CreateCall(fCall, {CB->getCalledOperand()});
    for (Value *a : CB->args()) {
      if (!hasTracked(a->getType())) { continue; }
      std::vector<Value *> l; leaves(B, a->getType(), S(a), l);
      for (Value *x : l) { if (!isNull(x)) B.CreateCall(fArgSet, {i32(k), x}); k++; }
    }
  }
  void getRet(CallBase *CB) {
    Type *t = CB->getType();
    if (t->isVoidTy() || !hasTracked(t)) return;
    Instruction *at;
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *N = II->getNormalDest();
      if (!N->getSinglePredecessor() || isa<PHINode>(N->begin())) {
        BasicBlock *P = II->getParent(), *M = BasicBlock::Create(P->getContext(), "", P->getParent(), N);
        BranchInst::Create(N, M); II->setNormalDest(M); N->replacePhiUsesWith(P, M); N = M;
      }
      at = &*N->getFirstInsertionPt();
    } else at = CB->getNextNode();
    IRBuilder<> B(at);
    std::vector<Value *> l; unsigned n = nleaves(t);
    for (unsigned i = 0; i < n; i++) l.push_back(B.CreateCall(fRetGet, {i32(i), CB->getCalledOperand()}));
    unsigned k = 0;
    sh[CB] = build(B, t, l, k);
  }

  void handleCall(CallBase *CB) {
    IRBuilder<> B(CB);
    Function *F = CB->getCalledFunction();
    if (!F) F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (CB->isInlineAsm()) { if (anyOperandSymbolic(CB)) unsupported(CB, "inline asm"); return; }
    if (F && F->isIntrinsic()) { handleIntrinsic(cast<CallInst>(CB), F); return; }
    if (F && F->isDeclaration()) {
      StringRef n = F->getName();
      if (startsWith(n, "sym_") || startsWith(n, "__sym_")) { setCallArgs(B, CB); getRet(CB); return; }
      if (n == "memcpy" || n == "memmove") {
        Value *len = concretize(B, CB->getArgOperand(2)); CB->setArgOperand(2, len);
        B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), len}); return; }
      if (n == "memset") {
        Value *len = concretize(B, CB->getArgOperand(2)); CB->setArgOperand(2, len);
        B.CreateCall(fMemset, {CB->getArgOperand(0), B.CreateTrunc(CB->getArgOperand(1), I8), Null, len}); return; }
      if ((n == "memcmp" || n == "bcmp") ) {
        Value *len = concretize(B, CB->getArgOperand(2));
        Value *r = B.CreateCall(fMemcmp, {CB->getArgOperand(0), CB->getArgOperand(1), len});
        CB->replaceAllUsesWith(r); sh.erase(CB); return; }
      if (const char *m = mathName(n)) { emitMath(CB, m); return; }
      if (isFormatting(n)) return;
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value *a = CB->getArgOperand(i);
        if (scalar(a->getType())) CB->setArgOperand(i, concretize(B, a));
        else if (agg(a->getType()) && !isNull(S(a))) unsupported(CB, "aggregate to external");
      }
      return;
    }
    if (F && skip(*F)) return;  // formatting
    setCallArgs(B, CB);
    getRet(CB);
  }
  void emitMath(CallBase *CB, StringRef name) {
    IRBuilder<> B(CB);
    unsigned n = CB->arg_size(); bool any = false;
    for (unsigned i = 0; i < n; i++) if (!isNull(S(CB->getArgOperand(i)))) any = true;
    if (!any) return;
    auto a = [&](unsigned i) { Value *v = CB->getArgOperand(i); return v->getType()->isIntegerTy() ? B.CreateSIToFP(v, D) : wD(B, v); };
    unsigned w = CB->getType()->isFloatTy() ? 32 : 64;
    Value *nm = str(B, name);
    if (n == 1) sh[CB] = B.CreateCall(fMath1, {nm, i32(w), a(0), S(CB->getArgOperand(0))});
    else if (n == 2) sh[CB] = B.CreateCall(fMath2, {nm, i32(w), a(0), S(CB->getArgOperand(0)), a(1), S(CB->getArgOperand(1))});
    else sh[CB] = B.CreateCall(fMath3, {nm, i32(w), a(0), S(CB->getArgOperand(0)), a(1), S(CB->getArgOperand(1)), a(2), S(CB->getArgOperand(2))});
  }
  void handleIntrinsic(CallInst *CI, Function *F) {
    IRBuilder<> B(CI);
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      Value *len = concretize(B, CI->getArgOperand(2)); CI->setArgOperand(2, len);
      B.CreateCall(fMemcpy, {CI->getArgOperand(0), CI->getArgOperand(1), w64(B, len)}); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      Value *len = concretize(B, CI->getArgOperand(2)); CI->setArgOperand(2, len);
      B.CreateCall(fMemset, {CI->getArgOperand(0), CI->getArgOperand(1), S(CI->getArgOperand(1)), w64(B, len)}); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value:
    case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for:
    case Intrinsic::objectsize: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::donothing:
      return;
    default: break;
    }
    if (!anyOperandSymbolic(CI)) return;
    auto I2 = [&](const char *n) { sh[CI] = B.CreateCall(fIMath, {str(B, n), i32(width(CI->getType())), w64(B, CI->getArgOperand(0)), S(CI->getArgOperand(0)), w64(B, CI->getArgOperand(1)), S(CI->getArgOperand(1))}); };
    auto ov = [&](const char *n) {
      Type *t = CI->getArgOperand(0)->getType();
      Value *a = CI->getArgOperand(0), *b = CI->getArgOperand(1);
      Value *r = B.CreateCall(fOvf, {str(B, string("r") + n), i32(width(t)), w64(B, a), S(a), w64(B, b), S(b)});
      Value *o = B.CreateCall(fOvf, {str(B, string("o") + n), i32(width(t)), w64(B, a), S(a), w64(B, b), S(b)});
      Value *x = PoisonValue::get(shTy(CI->getType()));
      x = B.CreateInsertValue(x, r, 0); x = B.CreateInsertValue(x, o, 1); sh[CI] = x; };
    switch (F->getIntrinsicID()) {
    case Intrinsic::fabs: emitMath(CI, "fabs"); return;
    case Intrinsic::sqrt: emitMath(CI, "sqrt"); return;
    case Intrinsic::floor: emitMath(CI, "floor"); return;
    case Intrinsic::ceil: emitMath(CI, "ceil"); return;
    case Intrinsic::round: emitMath(CI, "round"); return;
    case Intrinsic::trunc: emitMath(CI, "trunc"); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: emitMath(CI, "rint"); return;
    case Intrinsic::pow: emitMath(CI, "pow"); return;
    case Intrinsic::powi: emitMath(CI, "powi"); return;
    case Intrinsic::exp: emitMath(CI, "exp"); return;
    case Intrinsic::exp2: emitMath(CI, "exp2"); return;
    case Intrinsic::log: emitMath(CI, "log"); return;
    case Intrinsic::log2: emitMath(CI, "log2"); return;
    case Intrinsic::log10: emitMath(CI, "log10"); return;
    case Intrinsic::minnum: case Intrinsic::minimum: emitMath(CI, "fmin"); return;
    case Intrinsic::maxnum: case Intrinsic::maximum: emitMath(CI, "fmax"); return;
    case Intrinsic::copysign: emitMath(CI, "copysign"); return;
    case Intrinsic::fmuladd: case Intrinsic::fma: emitMath(CI, "fma"); return;
    case Intrinsic::is_fpclass: sh[CI] = B.CreateCall(fClass, {i32(width(CI->getArgOperand(0)->getType())), S(CI->getArgOperand(0)), CI->getArgOperand(1)}); return;
    case Intrinsic::umin: I2("umin"); return;
    case Intrinsic::umax: I2("umax"); return;
    case Intrinsic::smin: I2("smin"); return;
    case Intrinsic::smax: I2("smax"); return;
    case Intrinsic::abs: sh[CI] = B.CreateCall(fIMath, {str(B, "abs"), i32(width(CI->getType())), w64(B, CI->getArgOperand(0)), S(CI->getArgOperand(0)), ConstantInt::get(I64, 0), Null}); return;
    case Intrinsic::usub_sat: I2("usubsat"); return;
    case Intrinsic::sadd_with_overflow: ov("sadd"); return;
    case Intrinsic::uadd_with_overflow: ov("uadd"); return;
    case Intrinsic::ssub_with_overflow: ov("ssub"); return;
    case Intrinsic::usub_with_overflow: ov("usub"); return;
    case Intrinsic::smul_with_overflow: ov("smul"); return;
    case Intrinsic::umul_with_overflow: ov("umul"); return;
    case Intrinsic::expect: sh[CI] = S(CI->getArgOperand(0)); return;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr:
      for (unsigned i = 0; i < CI->arg_size(); i++) if (!isa<Constant>(CI->getArgOperand(i))) CI->setArgOperand(i, concretize(B, CI->getArgOperand(i)));
      return;
    default: unsupported(CI, "intrinsic"); return;
    }
  }

  void runFunction(Function &F) {
    sh.clear();
    std::vector<Instruction *> work; std::vector<PHINode *> phis; std::vector<AllocaInst *> allocas;
    {
      ReversePostOrderTraversal<Function *> RPO(&F);
      for (BasicBlock *BB : RPO) for (Instruction &I : *BB) work.push_back(&I);
    }
    // entry: fetch argument shadows, clear allocas
    {
      Instruction *at = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
      IRBuilder<> B(at);
      unsigned k = 0;
      for (Argument &A : F.args()) {
        Type *t = A.getType();
        if (!hasTracked(t)) continue;
        std::vector<Value *> l; unsigned n = nleaves(t);
        for (unsigned i = 0; i < n; i++) l.push_back(B.CreateCall(fArgGet, {i32(k++), &F}));
        unsigned q = 0; sh[&A] = build(B, t, l, q);
      }
      B.CreateCall(fEnter, {&F});
      for (Instruction *I : work) if (auto *AI = dyn_cast<AllocaInst>(I))
        if (AI->isStaticAlloca()) B.CreateCall(fClear, {AI, ConstantInt::get(I64, DL.getTypeAllocSize(AI->getAllocatedType()))});
    }
    for (Instruction *I : work) if (auto *PN = dyn_cast<PHINode>(I)) if (hasTracked(PN->getType())) {
      IRBuilder<> B(PN);
      sh[PN] = B.CreatePHI(shTy(PN->getType()), PN->getNumIncomingValues());
      phis.push_back(PN);
    }
    for (Instruction *I : work) {
      IRBuilder<> B(I);
      if (isa<PHINode>(I) || isa<AllocaInst>(I)) continue;
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        Value *a = BO->getOperand(0), *b = BO->getOperand(1), *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) continue;
        if (!scalar(BO->getType())) { unsupported(I, "vector/wide op"); continue; }
        if (BO->getType()->isIntegerTy()) {
          unsigned op = BO->getOpcode(); unsigned w = width(BO->getType());
          if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
            Value *nb = B.CreateZExtOrTrunc(B.CreateCall(fDiv, {w64(B, b), sb, i32(w), w64(B, a), sa, i32(op)}), b->getType());
            sh[I] = B.CreateCall(fBin, {i32(op), i32(w), w64(B, a), sa, w64(B, b), sb});
            BO->setOperand(1, nb);
            // native value of a symbolic dividend is meaningless but must not trap
            continue;
          }
          sh[I] = B.CreateCall(fBin, {i32(op), i32(w), w64(B, a), sa, w64(B, b), sb});
        } else sh[I] = B.CreateCall(fFBin, {i32(BO->getOpcode()), i32(width(BO->getType())), wD(B, a), sa, wD(B, b), sb});
      } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
        Value *s = S(U->getOperand(0)); if (isNull(s)) continue;
        if (!scalar(U->getType())) { unsupported(I, "vector fneg"); continue; }
        sh[I] = B.CreateCall(fFNeg, {i32(width(U->getType())), s});
      } else if (auto *IC = dyn_cast<ICmpInst>(I)) {
        Value *a = IC->getOperand(0), *b = IC->getOperand(1), *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) continue;
        if (!scalar(a->getType())) { unsupported(I, "wide icmp"); continue; }
        sh[I] = B.CreateCall(fICmp, {i32(IC->getPredicate()), i32(width(a->getType())), w64(B, a), sa, w64(B, b), sb});
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        Value *a = FC->getOperand(0), *b = FC->getOperand(1), *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) continue;
        if (!scalar(a->getType())) { unsupported(I, "vector fcmp"); continue; }
        sh[I] = B.CreateCall(fFCmp, {i32(FC->getPredicate()), i32(width(a->getType())), wD(B, a), sa, wD(B, b), sb});
      } else if (auto *CI = dyn_cast<CastInst>(I)) {
        Value *a = CI->getOperand(0), *s = S(a);
        if (isNull(s)) continue;
        if (isa<IntToPtrInst>(CI)) { CI->setOperand(0, concretize(B, a)); continue; }
        if (!scalar(CI->getType()) || !scalar(a->getType())) { unsupported(I, "cast"); continue; }
        sh[I] = B.CreateCall(fCast, {i32(CI->getOpcode()), i32(width(a->getType())), i32(width(CI->getType())), s});
      } else if (auto *SI = dyn_cast<SelectInst>(I)) {
        Value *c = SI->getCondition(), *sc = S(c), *a = SI->getTrueValue(), *b = SI->getFalseValue();
        Value *sa = S(a), *sb = S(b);
        if (isNull(sc) && isNull(sa) && isNull(sb)) continue;
        Type *t = SI->getType();
        if (scalar(t)) {
          if (t->isIntegerTy()) sh[I] = B.CreateCall(fSel, {c, sc, i32(width(t)), w64(B, a), sa, w64(B, b), sb});
          else sh[I] = B.CreateCall(fFSel, {c, sc, i32(width(t)), wD(B, a), sa, wD(B, b), sb});
        } else {
          if (!c->getType()->isIntegerTy(1)) { unsupported(I, "vector select"); continue; }
          if (!isNull(sc)) { c = B.CreateCall(fBr, {c, sc}); SI->setCondition(c); }
          if (hasTracked(t)) sh[I] = B.CreateSelect(c, sa, sb);
        }
      } else if (auto *LI = dyn_cast<LoadInst>(I)) {
        if (hasTracked(LI->getType())) { sh[I] = loadSh(B, LI->getType(), LI->getPointerOperand()); }
        else if (LI->getType()->isVectorTy() || LI->getType()->isIntegerTy()) {
          B.CreateCall(M.getOrInsertFunction("__sym_require_concrete", V, P, I64), {LI->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(LI->getType()))});
        }
      } else if (auto *ST = dyn_cast<StoreInst>(I)) {
        storeSh(B, ST->getValueOperand()->getType(), ST->getPointerOperand(), S(ST->getValueOperand()));
      } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
        for (unsigned i = 1; i < G->getNumOperands(); i++) G->setOperand(i, concretize(B, G->getOperand(i)));
      } else if (auto *BR = dyn_cast<BranchInst>(I)) {
        if (BR->isConditional() && !isNull(S(BR->getCondition())))
          BR->setCondition(B.CreateCall(fBr, {BR->getCondition(), S(BR->getCondition())}));
      } else if (auto *SW = dyn_cast<SwitchInst>(I)) {
        SW->setCondition(concretize(B, SW->getCondition()));
      } else if (isa<CallInst>(I) || isa<InvokeInst>(I)) {
        handleCall(cast<CallBase>(I));
      } else if (auto *R = dyn_cast<ReturnInst>(I)) {
        if (Value *v = R->getReturnValue()) if (hasTracked(v->getType())) {
          std::vector<Value *> l; leaves(B, v->getType(), S(v), l);
          for (unsigned i = 0; i < l.size(); i++) B.CreateCall(fRetSet, {i32(i), l[i], &F});
        }
      } else if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
        Value *s = S(EV->getAggregateOperand());
        if (!isNull(s) && hasTracked(EV->getType())) sh[I] = B.CreateExtractValue(s, EV->getIndices());
      } else if (auto *IV = dyn_cast<InsertValueInst>(I)) {
        Value *s = S(IV->getAggregateOperand()), *e = S(IV->getInsertedValueOperand());
        if (isNull(s) && isNull(e)) continue;
        sh[I] = B.CreateInsertValue(s, e, IV->getIndices());
      } else if (auto *FR = dyn_cast<FreezeInst>(I)) {
        sh[I] = S(FR->getOperand(0));
      } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
        Value *p = I->getOperand(0);
        B.CreateCall(fClear, {p, ConstantInt::get(I64, 8)});
      } else if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
        if (anyOperandSymbolic(I)) unsupported(I, "vector");
      }
    }
    for (PHINode *PN : phis) {
      auto *SP = cast<PHINode>(sh[PN]);
      for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) SP->addIncoming(S(PN->getIncomingValue(i)), PN->getIncomingBlock(i));
    }
  }
  void run() {
    std::vector<Function *> fs;
    for (Function &F : M) if (!skip(F)) fs.push_back(&F);
    for (Function *F : fs) runFunction(*F);
    if (const char *lst = getenv("SYM_FUNCLIST")) {
      std::error_code ec; raw_fd_ostream os(lst, ec);
      for (Function *F : fs) os << llvm::demangle(F->getName().str()) << "\n";
    }
  }
};

struct InstPass : PassInfoMixin<InstPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Inst(M).run(); return PreservedAnalyses::none(); }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
            // replay builds: only the environment functions are replaced (clang -fpass-plugin, SYMX_STUB=1)
            if (getenv("SYMX_STUB")) PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(StubPass()); });
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "symstub") { MPM.addPass(StubPass()); return true; }
              if (N == "symlist") { MPM.addPass(ListPass()); return true; }
              if (N == "syminst") { MPM.addPass(InstPass()); return true; }
              return false;
            });
          }};
}
