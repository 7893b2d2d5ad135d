// LLVM pass (new PM plugin): makes compiled C++ execute over symbolic values.
//
// Every floating-point operation, comparison and libm call of the module is
// replaced by a call into the symbolic runtime (rt.cpp).  A symbolic double is
// a signalling NaN that carries an expression id in its payload, so loads,
// stores, copies, argument passing, container moves, HDF5 writes... carry
// symbolic data unchanged and need no instrumentation.
// With SX_INTS=1 the i32/i64 operations are instrumented in the same way
// (symbolic ints are 32/64-bit values with a magic prefix).
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <cstdlib>
#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace {

struct Sx {
  Module &M;
  LLVMContext &C;
  Type *D, *I1, *I32, *I64, *V;
  PointerType *P;
  bool ints;
  bool bad = false;

  Sx(Module &m) : M(m), C(m.getContext()) {
    D = Type::getDoubleTy(C); I1 = Type::getInt1Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    V = Type::getVoidTy(C); P = PointerType::getUnqual(C);
    const char *e = getenv("SX_INTS");
    ints = e && e[0] == '1';
  }

  FunctionCallee fn(StringRef n, Type *r, ArrayRef<Type *> a) {
    return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
  }

  // element-wise application for fixed vectors of double
  template <class F> Value *lanes(IRBuilder<> &B, Type *resTy, ArrayRef<Value *> ops, F f) {
    auto *VT = cast<FixedVectorType>(resTy);
    Value *R = PoisonValue::get(resTy);
    for (unsigned i = 0; i < VT->getNumElements(); i++) {
      SmallVector<Value *, 4> e;
      for (auto *o : ops) e.push_back(B.CreateExtractElement(o, (uint64_t)i));
      R = B.CreateInsertElement(R, f(e), (uint64_t)i);
    }
    return R;
  }
  bool isD(Type *t) { return t == D; }
  bool isVD(Type *t) { auto *v = dyn_cast<FixedVectorType>(t); return v && v->getElementType() == D; }

  Value *widenInt(IRBuilder<> &B, Value *v) {   // i32 or i64 value, as i64 bits
    return v;
  }

  bool run(Function &F) {
    SmallVector<Instruction *, 64> work;
    for (auto &I : instructions(F)) work.push_back(&I);
    for (auto *I : work) visit(I);
    return true;
  }

  void repl(Instruction *I, Value *v) {
    I->replaceAllUsesWith(v);
    I->eraseFromParent();
  }

  void warnUnsupported(Instruction *I) {
    std::string s; raw_string_ostream os(s); I->print(os);
    errs() << "SxPass: unsupported instruction in " << I->getFunction()->getName() << ": " << s << "\n";
  }

  void visit(Instruction *I) {
    IRBuilder<> B(I);
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
      Type *t = bo->getType();
      const char *n = nullptr;
      switch (bo->getOpcode()) {
        case Instruction::FAdd: n = "sx_fadd"; break;
        case Instruction::FSub: n = "sx_fsub"; break;
        case Instruction::FMul: n = "sx_fmul"; break;
        case Instruction::FDiv: n = "sx_fdiv"; break;
        case Instruction::FRem: n = "sx_frem"; break;
        default: break;
      }
      if (n) {
        auto f = fn(n, D, {D, D});
        if (isD(t)) repl(I, B.CreateCall(f, {bo->getOperand(0), bo->getOperand(1)}));
        else if (isVD(t)) repl(I, lanes(B, t, {bo->getOperand(0), bo->getOperand(1)},
                              [&](ArrayRef<Value *> e) { return B.CreateCall(f, e); }));
        return;
      }
      if (ints && (t == I32 || t == I64)) {
        // constant-only operands never symbolic
        int op = -1;
        switch (bo->getOpcode()) {
          case Instruction::Add: op = 0; break;  case Instruction::Sub: op = 1; break;
          case Instruction::Mul: op = 2; break;  case Instruction::SDiv: op = 3; break;
          case Instruction::SRem: op = 4; break; case Instruction::UDiv: op = 5; break;
          case Instruction::URem: op = 6; break; case Instruction::Shl: op = 7; break;
          case Instruction::LShr: op = 8; break; case Instruction::AShr: op = 9; break;
          case Instruction::And: op = 10; break; case Instruction::Or: op = 11; break;
          case Instruction::Xor: op = 12; break;
          default: return;
        }
        auto f = fn(t == I32 ? "sx_ibin32" : "sx_ibin64", t, {I32, t, t});
        Value *a = bo->getOperand(0), *b = bo->getOperand(1);
        // sdiv/srem operands: keep trap semantics in the runtime
        repl(I, B.CreateCall(f, {ConstantInt::get(I32, op), a, b}));
      }
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) {
      if (u->getOpcode() == Instruction::FNeg) {
        auto f = fn("sx_fneg", D, {D});
        if (isD(u->getType())) repl(I, B.CreateCall(f, {u->getOperand(0)}));
        else if (isVD(u->getType())) repl(I, lanes(B, u->getType(), {u->getOperand(0)},
                              [&](ArrayRef<Value *> e) { return B.CreateCall(f, e); }));
      }
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(I)) {
      Type *t = c->getOperand(0)->getType();
      auto f = fn("sx_fcmp", I1, {I32, D, D});
      Value *pr = ConstantInt::get(I32, (int)c->getPredicate());
      if (isD(t)) repl(I, B.CreateCall(f, {pr, c->getOperand(0), c->getOperand(1)}));
      else if (isVD(t)) repl(I, lanes(B, c->getType(), {c->getOperand(0), c->getOperand(1)},
                     [&](ArrayRef<Value *> e) { return B.CreateCall(f, {pr, e[0], e[1]}); }));
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(I)) {
      Type *t = c->getOperand(0)->getType();
      if (ints && (t == I32 || t == I64)) {
        auto f = fn(t == I32 ? "sx_icmp32" : "sx_icmp64", I1, {I32, t, t});
        repl(I, B.CreateCall(f, {ConstantInt::get(I32, (int)c->getPredicate()), c->getOperand(0), c->getOperand(1)}));
      }
      return;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
      Type *s = c->getSrcTy(), *d = c->getDestTy();
      switch (c->getOpcode()) {
        case Instruction::FPToSI: case Instruction::FPToUI:
          if (s == D) {
            Value *r = B.CreateCall(fn("sx_fptosi", I64, {D}), {c->getOperand(0)});
            // concrete doubles: runtime performs the conversion itself
            if (d == I64) repl(I, r); else if (d->isIntegerTy() && d->getIntegerBitWidth() < 64) repl(I, B.CreateTrunc(r, d));
            else warnUnsupported(I);
          }
          return;
        case Instruction::SIToFP: case Instruction::UIToFP:
          if (ints && d == D && (s == I32 || s == I64)) {
            Value *v = B.CreateCall(fn(s == I32 ? "sx_conc32" : "sx_conc64", s, {s}), {c->getOperand(0)});
            c->setOperand(0, v);
          }
          return;
        case Instruction::FPTrunc:
          if (s == D) { Value *v = B.CreateCall(fn("sx_needconc", D, {D}), {c->getOperand(0)}); c->setOperand(0, v); }
          return;
        case Instruction::SExt: case Instruction::ZExt:
          if (ints && s == I32 && d == I64)
            repl(I, B.CreateCall(fn(c->getOpcode() == Instruction::SExt ? "sx_sext" : "sx_zext", I64, {I32}), {c->getOperand(0)}));
          return;
        case Instruction::Trunc:
          if (ints && s == I64 && d == I32)
            repl(I, B.CreateCall(fn("sx_trunc", I32, {I64}), {c->getOperand(0)}));
          else if (ints && (s == I64 || s == I32) && d->isIntegerTy()) {
            Value *v = B.CreateCall(fn(s == I32 ? "sx_conc32" : "sx_conc64", s, {s}), {c->getOperand(0)});
            c->setOperand(0, v);
          }
          return;
        default: return;
      }
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      if (!ints) return;
      for (unsigned i = 1; i < g->getNumOperands(); i++) {
        Value *x = g->getOperand(i);
        if (isa<Constant>(x)) continue;
        if (x->getType() == I64 || x->getType() == I32)
          g->setOperand(i, B.CreateCall(fn(x->getType() == I32 ? "sx_conc32" : "sx_conc64", x->getType(), {x->getType()}), {x}));
      }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(I)) {
      Value *x = s->getCondition();
      if (ints && (x->getType() == I64 || x->getType() == I32))
        s->setCondition(B.CreateCall(fn(x->getType() == I32 ? "sx_conc32" : "sx_conc64", x->getType(), {x->getType()}), {x}));
      return;
    }
    if (auto *ci = dyn_cast<CallBase>(I)) {
      Function *cf = ci->getCalledFunction();
      if (!cf) return;
      if (auto *mi = dyn_cast<MemIntrinsic>(I)) {
        if (ints && !isa<Constant>(mi->getLength()) && mi->getLength()->getType() == I64)
          mi->setLength(B.CreateCall(fn("sx_conc64", I64, {I64}), {mi->getLength()}));
        return;
      }
      if (cf->isIntrinsic()) {
        const char *n = nullptr; int na = 0;
        switch (cf->getIntrinsicID()) {
          case Intrinsic::fabs: n = "sx_fabs"; na = 1; break;
          case Intrinsic::sqrt: n = "sx_sqrt"; na = 1; break;
          case Intrinsic::floor: n = "sx_floor"; na = 1; break;
          case Intrinsic::ceil: n = "sx_ceil"; na = 1; break;
          case Intrinsic::trunc: n = "sx_ftrunc"; na = 1; break;
          case Intrinsic::round: n = "sx_round"; na = 1; break;
          case Intrinsic::rint: case Intrinsic::nearbyint: n = "sx_rint"; na = 1; break;
          case Intrinsic::sin: n = "sx_sin"; na = 1; break;
          case Intrinsic::cos: n = "sx_cos"; na = 1; break;
          case Intrinsic::exp: n = "sx_exp"; na = 1; break;
          case Intrinsic::log: n = "sx_log"; na = 1; break;
          case Intrinsic::pow: n = "sx_pow"; na = 2; break;
          case Intrinsic::minnum: case Intrinsic::minimum: n = "sx_fmin"; na = 2; break;
          case Intrinsic::maxnum: case Intrinsic::maximum: n = "sx_fmax"; na = 2; break;
          case Intrinsic::copysign: n = "sx_copysign"; na = 2; break;
          case Intrinsic::fma: case Intrinsic::fmuladd: n = "sx_fma"; na = 3; break;
          default: break;
        }
        Type *t = ci->getType();
        if (cf->getIntrinsicID() == Intrinsic::powi && isD(t)) {
          repl(I, B.CreateCall(fn("sx_powi", D, {D, I32}), {ci->getArgOperand(0), ci->getArgOperand(1)}));
          return;
        }
        if (cf->getIntrinsicID() == Intrinsic::is_fpclass && isD(ci->getArgOperand(0)->getType())) {
          repl(I, B.CreateCall(fn("sx_fpclass", I1, {D, I32}), {ci->getArgOperand(0), ci->getArgOperand(1)}));
          return;
        }
        if (n) {
          SmallVector<Type *, 3> ts(na, D);
          auto f = fn(n, D, ts);
          SmallVector<Value *, 3> as;
          for (int i = 0; i < na; i++) as.push_back(ci->getArgOperand(i));
          if (isD(t)) repl(I, B.CreateCall(f, as));
          else if (isVD(t)) repl(I, lanes(B, t, as, [&](ArrayRef<Value *> e) { return B.CreateCall(f, e); }));
          return;
        }
        if (ints) {
          int op = -1;
          switch (cf->getIntrinsicID()) {
            case Intrinsic::smax: op = 0; break; case Intrinsic::smin: op = 1; break;
            case Intrinsic::umax: op = 2; break; case Intrinsic::umin: op = 3; break;
            default: break;
          }
          if (op >= 0 && (t == I32 || t == I64)) {
            repl(I, B.CreateCall(fn(t == I32 ? "sx_iminmax32" : "sx_iminmax64", t, {I32, t, t}),
                                 {ConstantInt::get(I32, op), ci->getArgOperand(0), ci->getArgOperand(1)}));
            return;
          }
          if (cf->getIntrinsicID() == Intrinsic::abs && (t == I32 || t == I64)) {
            repl(I, B.CreateCall(fn(t == I32 ? "sx_iabs32" : "sx_iabs64", t, {t}), {ci->getArgOperand(0)}));
            return;
          }
          // anything else with integer operands gets concrete operands
          switch (cf->getIntrinsicID()) {
            case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow:
            case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow:
            case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::usub_with_overflow:
            case Intrinsic::ssub_with_overflow: case Intrinsic::fshl: case Intrinsic::fshr:
            case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
              for (unsigned i = 0; i < ci->arg_size(); i++) {
                Value *x = ci->getArgOperand(i);
                if (isa<Constant>(x)) continue;
                if (x->getType() == I64 || x->getType() == I32)
                  ci->setArgOperand(i, B.CreateCall(fn(x->getType() == I32 ? "sx_conc32" : "sx_conc64", x->getType(), {x->getType()}), {x}));
              }
              break;
            default: break;
          }
        }
        return;
      }
      // libm
      static const std::map<std::string, std::pair<const char *, int>> lm = {
        {"sqrt", {"sx_sqrt", 1}}, {"fabs", {"sx_fabs", 1}}, {"sin", {"sx_sin", 1}}, {"cos", {"sx_cos", 1}},
        {"tan", {"sx_tan", 1}}, {"exp", {"sx_exp", 1}}, {"log", {"sx_log", 1}}, {"pow", {"sx_pow", 2}},
        {"floor", {"sx_floor", 1}}, {"ceil", {"sx_ceil", 1}}, {"fmin", {"sx_fmin", 2}}, {"fmax", {"sx_fmax", 2}},
        {"atan2", {"sx_atan2", 2}}, {"atan", {"sx_atan", 1}}, {"hypot", {"sx_hypot", 2}}, {"round", {"sx_round", 1}},
        {"trunc", {"sx_ftrunc", 1}}, {"tanh", {"sx_tanh", 1}}, {"cosh", {"sx_cosh", 1}}, {"sinh", {"sx_sinh", 1}},
        {"asin", {"sx_asin", 1}}, {"acos", {"sx_acos", 1}}, {"fmod", {"sx_frem", 2}}, {"rint", {"sx_rint", 1}},
        {"nearbyint", {"sx_rint", 1}}, {"log10", {"sx_log10", 1}}, {"log2", {"sx_log2", 1}}, {"exp2", {"sx_exp2", 1}},
        {"copysign", {"sx_copysign", 2}}, {"fma", {"sx_fma", 3}}, {"erf", {"sx_erf", 1}}, {"cbrt", {"sx_cbrt", 1}}};
      auto it = lm.find(cf->getName().str());
      if (it != lm.end() && cf->isDeclaration() && ci->getType() == D) {
        SmallVector<Type *, 3> ts(it->second.second, D);
        ci->setCalledFunction(fn(it->second.first, D, ts));
        // libm declarations may be readnone/speculatable: our runtime forks
        ci->setAttributes(AttributeList());
        return;
      }
      // text output: a symbolic value is shown as some number, never decided on
      {
        StringRef n = cf->getName();
        if (n == "printf" || n == "fprintf")
          for (unsigned i = 0; i < ci->arg_size(); i++)
            if (ci->getArgOperand(i)->getType() == D && !isa<Constant>(ci->getArgOperand(i)))
              ci->setArgOperand(i, B.CreateCall(fn("sx_show", D, {D}), {ci->getArgOperand(i)}));
      }
      if (ints) {
        StringRef n = cf->getName();
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp")
          for (unsigned i = 0; i < ci->arg_size(); i++) {
            Value *x = ci->getArgOperand(i);
            if (isa<Constant>(x)) continue;
            if (x->getType() == I64 || x->getType() == I32)
              ci->setArgOperand(i, B.CreateCall(fn(x->getType() == I32 ? "sx_conc32" : "sx_conc64", x->getType(), {x->getType()}), {x}));
          }
      }
    }
  }

  void enter(Function &F) {
    // record functions of the code under test that were executed symbolically
    if (F.hasFnAttribute(Attribute::Naked)) return;
    const char *sel = getenv("SX_TRACE");
    if (!sel || sel[0] != '1') return;
    if (F.hasLinkOnceLinkage() || F.hasInternalLinkage() || F.hasWeakLinkage()) return;
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
    Value *name = B.CreateGlobalStringPtr(F.getName(), "sxfn");
    auto *flag = new GlobalVariable(M, I32, false, GlobalValue::InternalLinkage, ConstantInt::get(I32, 0), "sxflag");
    B.CreateCall(fn("sx_enter", V, {P, P}), {name, flag});
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Sx s(M);
    SmallVector<Function *, 64> fs;
    for (auto &F : M)
      if (!F.isDeclaration() && !F.getName().starts_with("sx_")) fs.push_back(&F);
    for (auto *F : fs) {
      // attributes that would let later passes drop or duplicate runtime calls
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::Speculatable);
      F->removeFnAttr(Attribute::NoFree);
      F->removeFnAttr(Attribute::NoSync);
      s.run(*F);
      s.enter(*F);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
