// LLVM pass plugin: rewrite every floating point operation on double into a call of the
// symbolic runtime (engine/symrt.cpp).  Vector operations are scalarised lane by lane.
// Anything on floating point that is not understood is a hard error (no silent concretisation).
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace {
struct SymFP : PassInfoMixin<SymFP> {
  Module *M; LLVMContext *C; Type *D; Type *I32;
  FunctionCallee fn(const char *name, Type *ret, std::vector<Type*> args) {
    return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }
  static bool isFP(Type *t) {
    if (auto *v = dyn_cast<VectorType>(t)) t = v->getElementType();
    return t->isFloatingPointTy();
  }
  bool isD(Type *t) {
    if (auto *v = dyn_cast<VectorType>(t)) t = v->getElementType();
    return t->isDoubleTy();
  }
  Value *lane(IRBuilder<> &B, Value *v, unsigned i) {
    if (!v->getType()->isVectorTy()) return v;
    return B.CreateExtractElement(v, (uint64_t)i);
  }
  template <class F> Value *perlane(IRBuilder<> &B, Type *rt, F f) {
    if (auto *vt = dyn_cast<FixedVectorType>(rt)) {
      Value *r = PoisonValue::get(vt);
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        r = B.CreateInsertElement(r, f(i), (uint64_t)i);
      return r;
    }
    return f(0);
  }
  void unsupported(Instruction *I) {
    errs() << "symfp: unsupported FP instruction in " << I->getFunction()->getName() << ": " << *I << "\n";
    IRBuilder<> B(I);
    auto *s = B.CreateGlobalStringPtr(("unsupported FP instruction in " + I->getFunction()->getName()).str());
    B.CreateCall(fn("__sym_unsupported", Type::getVoidTy(*C), {s->getType()}), {s});
  }
  // Inline assembly made of register arithmetic (error free transformations): interpreted instruction by instruction.
  bool expandAsm(CallInst *call, InlineAsm *ia) {
    InlineAsm::ConstraintInfoVector cons = ia->ParseConstraints();
    std::vector<Value *> reg; std::vector<int> outs; unsigned arg = 0;
    for (auto &c : cons) {
      if (c.Type == InlineAsm::isOutput) { outs.push_back((int)reg.size()); reg.push_back(nullptr); }
      else if (c.Type == InlineAsm::isInput) { Value *v = call->getArgOperand(arg++);
        if (!v->getType()->isDoubleTy() && !isD(v->getType())) return false;
        if (c.hasMatchingInput()) return false;
        if (!c.Codes.empty() && isdigit((unsigned char)c.Codes[0][0])) { int k = atoi(c.Codes[0].c_str()); if (k >= (int)reg.size()) return false; reg[k] = v; reg.push_back(v); }
        else reg.push_back(v); }
      else if (c.Type != InlineAsm::isClobber) return false;
    }
    IRBuilder<> B(call); std::string t = ia->getAsmString(), line; t += "\n"; size_t pos = 0;
    while (pos < t.size()) {
      size_t e = t.find_first_of("\n;", pos); line = t.substr(pos, e - pos); pos = e + 1;
      std::string op; std::vector<int> o; size_t i = 0;
      while (i < line.size() && isspace((unsigned char)line[i])) i++;
      while (i < line.size() && isalnum((unsigned char)line[i])) op += line[i++];
      for (; i < line.size(); i++) if (line[i] == '$') { int k = 0; if (line[i + 1] == '{') return false; while (i + 1 < line.size() && isdigit((unsigned char)line[i + 1])) k = k * 10 + (line[++i] - '0'); o.push_back(k); } else if (!isspace((unsigned char)line[i]) && line[i] != ',') return false;
      if (op.empty()) continue;
      for (int k : o) if (k >= (int)reg.size()) return false;
      if (op.size() > 2 && op.substr(op.size() - 2) != "sd" && op.substr(op.size() - 2) != "pd") return false;
      std::string base = op.substr(0, op.size() - 2);
      auto val = [&](int k) -> Value * { return reg[o[k]] ? reg[o[k]] : nullptr; };
      if ((base == "mov" || base == "vmova" || base == "vmovu") && o.size() == 2) { if (!val(0)) return false; reg[o[1]] = val(0); continue; }
      if (o.size() != 3 || !val(0) || !val(1)) return false;
      if (val(0)->getType() != val(1)->getType()) return false;
      if (base == "vadd") reg[o[2]] = B.CreateFAdd(val(1), val(0));
      else if (base == "vsub") reg[o[2]] = B.CreateFSub(val(1), val(0));
      else if (base == "vmul") reg[o[2]] = B.CreateFMul(val(1), val(0));
      else if (base == "vdiv") reg[o[2]] = B.CreateFDiv(val(1), val(0));
      else if (base == "vfmsub231" && val(2)) reg[o[2]] = B.CreateFSub(B.CreateFMul(val(1), val(0)), val(2));
      else if (base == "vfmadd231" && val(2)) reg[o[2]] = B.CreateFAdd(B.CreateFMul(val(1), val(0)), val(2));
      else if (base == "vfnmadd231" && val(2)) reg[o[2]] = B.CreateFSub(val(2), B.CreateFMul(val(1), val(0)));
      else return false;
    }
    for (int k : outs) if (!reg[k]) return false;
    Value *R;
    if (auto *st = dyn_cast<StructType>(call->getType())) { R = PoisonValue::get(st); for (unsigned k = 0; k < outs.size(); k++) R = B.CreateInsertValue(R, reg[outs[k]], k); }
    else if (outs.size() == 1) R = reg[outs[0]]; else return false;
    call->replaceAllUsesWith(R); call->eraseFromParent(); return true;
  }
  /* long double intermediates (constants such as 0.5L): over the reals they are the same values, computed as double terms */
  bool isLD(Type *t) { return t->isX86_FP80Ty(); }
  Value *ldconst(Value *v) {
    if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return PoisonValue::get(D);
    auto *c = dyn_cast<ConstantFP>(v); if (!c) return nullptr;
    APFloat f = c->getValueAPF(); bool lost = false; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); if (lost) return nullptr;
    return ConstantFP::get(*C, f);
  }
  void lowerLongDouble(Function &F) {
    std::vector<Instruction *> v; std::map<Value *, Value *> m; std::vector<PHINode *> phis;
    for (Instruction &I : instructions(F)) { bool ld = isLD(I.getType()); for (Value *o : I.operands()) ld |= isLD(o->getType()); if (ld) v.push_back(&I); }
    if (v.empty()) return;
    for (auto *I : v) {   /* everything must be of a known kind, otherwise leave the function alone (reported as unsupported) */
      bool ok = isa<PHINode>(I) || isa<SelectInst>(I) || isa<FCmpInst>(I) || (isa<BinaryOperator>(I) && I->getOpcode() != Instruction::FRem) || (isa<UnaryOperator>(I) && I->getOpcode() == Instruction::FNeg) ||
        (isa<FPExtInst>(I) && I->getOperand(0)->getType() == D) || (isa<FPTruncInst>(I) && I->getType() == D) || isa<SIToFPInst>(I);
      for (Value *o : I->operands()) if (isLD(o->getType()) && isa<Constant>(o) && !ldconst(o)) ok = false;
      if (!ok) return; }
    for (auto *I : v) if (auto *p = dyn_cast<PHINode>(I)) { IRBuilder<> B(p); m[p] = B.CreatePHI(D, p->getNumIncomingValues()); phis.push_back(p); }
    auto get = [&](Value *x) -> Value * { if (!isLD(x->getType())) return x; if (isa<Constant>(x)) return ldconst(x); auto it = m.find(x); return it == m.end() ? nullptr : it->second; };
    ReversePostOrderTraversal<Function *> rpo(&F); std::set<Instruction *> mine(v.begin(), v.end());
    for (BasicBlock *bb : rpo) for (auto it = bb->begin(); it != bb->end();) { Instruction *I = &*it++; if (!mine.count(I) || isa<PHINode>(I)) continue; IRBuilder<> B(I); Value *r = nullptr;
      if (isa<FPExtInst>(I)) r = I->getOperand(0); else if (isa<SIToFPInst>(I)) r = B.CreateSIToFP(I->getOperand(0), D);
      else if (isa<FPTruncInst>(I)) { I->replaceAllUsesWith(get(I->getOperand(0))); continue; }
      else if (auto *bo = dyn_cast<BinaryOperator>(I)) r = B.Insert(BinaryOperator::Create(bo->getOpcode(), get(I->getOperand(0)), get(I->getOperand(1))));
      else if (isa<UnaryOperator>(I)) r = B.Insert(UnaryOperator::Create(Instruction::FNeg, get(I->getOperand(0))));
      else if (auto *fc = dyn_cast<FCmpInst>(I)) { I->replaceAllUsesWith(B.Insert(new FCmpInst(fc->getPredicate(), get(I->getOperand(0)), get(I->getOperand(1))))); continue; }
      else if (auto *se = dyn_cast<SelectInst>(I)) r = B.Insert(SelectInst::Create(se->getCondition(), get(se->getTrueValue()), get(se->getFalseValue())));
      m[I] = r; }
    for (auto *p : phis) { auto *q = cast<PHINode>(m[p]); for (unsigned k = 0; k < p->getNumIncomingValues(); k++) q->addIncoming(get(p->getIncomingValue(k)), p->getIncomingBlock(k)); }
    for (auto *I : v) I->dropAllReferences();
    for (auto *I : v) { if (!I->use_empty()) I->replaceAllUsesWith(PoisonValue::get(I->getType())); }
    for (auto *I : v) I->eraseFromParent();
  }
  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod; C = &M->getContext(); D = Type::getDoubleTy(*C); I32 = Type::getInt32Ty(*C);
    static const std::map<std::string, std::pair<const char *, int>> lib = {
      {"sqrt", {"__sym_sqrt", 1}}, {"fabs", {"__sym_fabs", 1}}, {"hypot", {"__sym_hypot", 2}},
      {"copysign", {"__sym_copysign", 2}}, {"fmax", {"__sym_fmax", 2}}, {"fmin", {"__sym_fmin", 2}},
      {"fma", {"__sym_fma", 3}}, {"pow", {"__sym_pow", 2}}, {"floor", {"__sym_floor", 1}}, {"ceil", {"__sym_ceil", 1}},
      {"exp", {"__sym_exp", 1}}, {"log", {"__sym_log", 1}}, {"cos", {"__sym_cos", 1}}, {"sin", {"__sym_sin", 1}},
      {"__finite", {"__sym_finite", 1}} };
    static const std::map<std::string, const char *> memfn = {
      {"malloc", "__sym_malloc"}, {"calloc", "__sym_calloc"}, {"realloc", "__sym_realloc"}, {"free", "__sym_free"},
      {"pthread_create", "__sym_pthread_create"}, {"pthread_join", "__sym_pthread_join"},
      {"posix_memalign", "__sym_posix_memalign"}, {"aligned_alloc", "__sym_aligned_alloc"},
      {"getenv", "__sym_getenv"} };
    { std::vector<CallInst *> as;
      for (Function &F : *M) for (Instruction &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (isa<InlineAsm>(c->getCalledOperand())) as.push_back(c);
      for (auto *c : as) {
        auto *ia = cast<InlineAsm>(c->getCalledOperand()); bool fp = isFP(c->getType()) || isa<StructType>(c->getType());
        for (auto &a : c->args()) fp |= isFP(a->getType());
        if (fp && !expandAsm(c, ia)) unsupported(c);
      } }
    for (Function &F : *M) if (!F.isDeclaration()) lowerLongDouble(F);
    std::vector<Instruction *> work;
    for (Function &F : *M) {
      if (F.isDeclaration()) continue;
      for (Instruction &I : instructions(F)) work.push_back(&I);
    }
    for (Instruction *I : work) {
      IRBuilder<> B(I);
      Value *R = nullptr;
      if (auto *bo = dyn_cast<BinaryOperator>(I)) {
        if (!isFP(I->getType())) continue;
        if (!isD(I->getType())) { unsupported(I); continue; }
        const char *nm = nullptr;
        switch (bo->getOpcode()) {
          case Instruction::FAdd: nm = "__sym_add"; break;
          case Instruction::FSub: nm = "__sym_sub"; break;
          case Instruction::FMul: nm = "__sym_mul"; break;
          case Instruction::FDiv: nm = "__sym_div"; break;
          default: unsupported(I); continue;
        }
        auto f = fn(nm, D, {D, D});
        R = perlane(B, I->getType(), [&](unsigned i) {
          return B.CreateCall(f, {lane(B, I->getOperand(0), i), lane(B, I->getOperand(1), i)}); });
      } else if (auto *uo = dyn_cast<UnaryOperator>(I)) {
        if (uo->getOpcode() != Instruction::FNeg) continue;
        if (!isD(I->getType())) { unsupported(I); continue; }
        auto f = fn("__sym_neg", D, {D});
        R = perlane(B, I->getType(), [&](unsigned i) { return B.CreateCall(f, {lane(B, I->getOperand(0), i)}); });
      } else if (auto *fc = dyn_cast<FCmpInst>(I)) {
        if (!isD(fc->getOperand(0)->getType())) { unsupported(I); continue; }
        auto f = fn("__sym_cmp", I32, {D, D, I32});
        R = perlane(B, I->getType(), [&](unsigned i) {
          Value *v = B.CreateCall(f, {lane(B, I->getOperand(0), i), lane(B, I->getOperand(1), i),
                                      ConstantInt::get(I32, (int)fc->getPredicate())});
          return B.CreateICmpNE(v, ConstantInt::get(I32, 0)); });
      } else if (auto *ci = dyn_cast<CastInst>(I)) {
        switch (ci->getOpcode()) {
          case Instruction::FPToSI: case Instruction::FPToUI: {
            if (ci->getSrcTy()->isVectorTy()) { unsupported(I); break; }
            if (!isD(ci->getSrcTy())) { unsupported(I); break; }
            auto f = fn("__sym_toint", Type::getInt64Ty(*C), {D});
            R = B.CreateTruncOrBitCast(B.CreateCall(f, {ci->getOperand(0)}), ci->getDestTy());
            break; }
          case Instruction::FPTrunc: case Instruction::FPExt: unsupported(I); break;
          case Instruction::BitCast:
            if (isFP(ci->getSrcTy()) != isFP(ci->getDestTy())) {
              // data movement of whole registers is harmless; integer use is not
              bool bad = false;
              for (User *U : ci->users()) {
                if (isa<StoreInst>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<ShuffleVectorInst>(U) || isa<SelectInst>(U) || isa<InsertElementInst>(U) || isa<ExtractElementInst>(U)) continue;
                bad = true;
              }
              if (bad && isFP(ci->getSrcTy())) unsupported(I);
            }
            break;
          default: break;
        }
      } else if (auto *call = dyn_cast<CallInst>(I)) {
        Function *cf = call->getCalledFunction();
        if (!cf) continue;
        StringRef nm = cf->getName();
        if (cf->isIntrinsic()) {
          auto mk = [&](const char *rn, int n) {
            std::vector<Type*> ts(n, D);
            auto f = fn(rn, D, ts);
            return perlane(B, I->getType(), [&](unsigned i) {
              std::vector<Value*> a;
              for (int k = 0; k < n; k++) a.push_back(lane(B, call->getArgOperand(k), i));
              return B.CreateCall(f, a); });
          };
          bool dbl = isD(I->getType());
          switch (cf->getIntrinsicID()) {
            case Intrinsic::fma: case Intrinsic::fmuladd: if (dbl) R = mk("__sym_fma", 3); break;
            case Intrinsic::fabs: if (dbl) R = mk("__sym_fabs", 1); break;
            case Intrinsic::sqrt: if (dbl) R = mk("__sym_sqrt", 1); break;
            case Intrinsic::copysign: if (dbl) R = mk("__sym_copysign", 2); break;
            case Intrinsic::maxnum: if (dbl) R = mk("__sym_fmax", 2); break;
            case Intrinsic::minnum: if (dbl) R = mk("__sym_fmin", 2); break;
            case Intrinsic::pow: if (dbl) R = mk("__sym_pow", 2); break;
            case Intrinsic::floor: if (dbl) R = mk("__sym_floor", 1); break;
            case Intrinsic::ceil: if (dbl) R = mk("__sym_ceil", 1); break;
            case Intrinsic::exp: if (dbl) R = mk("__sym_exp", 1); break;
            case Intrinsic::log: if (dbl) R = mk("__sym_log", 1); break;
            default: {
              StringRef n2 = nm;
              if (n2.starts_with("llvm.x86.avx.hadd.pd.256") || n2.starts_with("llvm.x86.sse3.hadd.pd") || n2.starts_with("llvm.x86.avx.hsub.pd.256") || n2.starts_with("llvm.x86.sse3.hsub.pd")) {
                auto f = fn(n2.contains("hsub") ? "__sym_sub" : "__sym_add", D, {D, D});
                Value *a = call->getArgOperand(0), *b = call->getArgOperand(1);
                R = perlane(B, I->getType(), [&](unsigned i) {
                  unsigned base = i & ~1u; Value *s = (i & 1) ? b : a;
                  return B.CreateCall(f, {lane(B, s, base), lane(B, s, base + 1)}); });
              } else if (n2.starts_with("llvm.x86.avx.blendv.pd.256") || n2.starts_with("llvm.x86.sse41.blendvpd")) {
                auto f = fn("__sym_blendv", D, {D, D, D});
                R = perlane(B, I->getType(), [&](unsigned i) {
                  return B.CreateCall(f, {lane(B, call->getArgOperand(0), i), lane(B, call->getArgOperand(1), i), lane(B, call->getArgOperand(2), i)}); });
              } else if (n2.starts_with("llvm.memcpy") || n2.starts_with("llvm.memset") || n2.starts_with("llvm.memmove") ||
                         n2.starts_with("llvm.lifetime") || n2.starts_with("llvm.dbg") || n2.starts_with("llvm.assume") ||
                         n2.starts_with("llvm.prefetch") || n2.starts_with("llvm.experimental.noalias")) {
              } else {
                bool fpUse = isFP(I->getType());
                for (auto &a : call->args()) fpUse |= isFP(a->getType());
                if (fpUse) unsupported(I);
              }
            }
          }
        } else if (cf->isDeclaration()) {
          auto it = lib.find(nm.str());
          if (it != lib.end()) {
            std::vector<Type*> ts(it->second.second, D); std::vector<Value*> a;
            for (int k = 0; k < it->second.second; k++) a.push_back(call->getArgOperand(k));
            R = B.CreateCall(fn(it->second.first, D, ts), a);
          } else {
            auto m2 = memfn.find(nm.str());
            if (m2 != memfn.end()) {
              auto f = M->getOrInsertFunction(m2->second, cf->getFunctionType());
              call->setCalledFunction(f);
            }
          }
        }
      }
      if (R) { I->replaceAllUsesWith(R); I->eraseFromParent(); }
    }
    // function entry coverage: each executed function registers itself once
    Type *I8 = Type::getInt8Ty(*C);
    for (Function &F : *M) {
      if (F.isDeclaration() || F.getName().starts_with("__sym")) continue;
      auto *g = new GlobalVariable(*M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0), "symfn." + F.getName());
      g->setSection("symcov");
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto *s = B.CreateGlobalStringPtr((F.getName() + "@" + M->getSourceFileName()).str());
      B.CreateCall(fn("__sym_enter", Type::getVoidTy(*C), {g->getType(), s->getType()}), {g, s});
    }
    for (auto kv : memfn) {   // remaining (address taken) uses, and drop allocator attributes
      if (Function *f = M->getFunction(kv.first)) if (!f->use_empty() && f->isDeclaration()) {
        auto g = M->getOrInsertFunction(kv.second, f->getFunctionType());
        f->replaceAllUsesWith(g.getCallee());
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
  }};
}
