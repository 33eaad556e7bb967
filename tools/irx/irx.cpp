// irx: canonicalise the LLVM IR of the library and dump it as JSON for the
// analyses in /verif/an.  Nothing of the analysed program is executed.
//
//   irx IN.bc OUT.json KEEP.txt
//
// KEEP.txt: one regular expression per line, matched (search) against the
// demangled function name: such functions stay separate (noinline); every other
// function with a body is inlined into its callers.
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"

#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }

// Conservative CFG cleanup: no select formation, no speculation, no lookup tables.
struct CleanCFG : PassInfoMixin<CleanCFG> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &) {
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &B : make_early_inc_range(F)) ch |= ConstantFoldTerminator(&B, true);
      ch |= removeUnreachableBlocks(F);
      for (auto &B : make_early_inc_range(F)) ch |= MergeBlockIntoPredecessor(&B);
      for (auto &B : F)
        for (auto &I : make_early_inc_range(B))
          if (isInstructionTriviallyDead(&I)) { I.eraseFromParent(); ch = true; }
          else if (auto *P = dyn_cast<PHINode>(&I)) {
            if (Value *V = P->hasConstantValue()) { P->replaceAllUsesWith(V); P->eraseFromParent(); ch = true; }
          }
    }
    return PreservedAnalyses::none();
  }
};

struct Dumper {
  Module &M;
  const DataLayout &DL;
  std::map<const Value *, std::string> ids;
  std::set<const GlobalVariable *> usedG;
  explicit Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}

  std::string constStr(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<32> s;
      CI->getValue().toString(s, 10, false);
      return "c:" + std::to_string(CI->getBitWidth()) + ":" + s.str().str();
    }
    if (isa<ConstantPointerNull>(C)) return "null";
    if (isa<PoisonValue>(C)) return "poison";
    if (isa<UndefValue>(C)) return "undef";
    if (isa<ConstantAggregateZero>(C)) return "zero";
    if (auto *F = dyn_cast<Function>(C)) return "@" + F->getName().str();
    if (auto *G = dyn_cast<GlobalVariable>(C)) { usedG.insert(G); return "@" + G->getName().str(); }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return "@" + GA->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        auto *G = cast<GEPOperator>(CE);
        if (G->accumulateConstantOffset(DL, off)) {
          return "g:" + constStr(cast<Constant>(G->getPointerOperand())) + "+" +
                 std::to_string(off.getSExtValue());
        }
      }
      if (CE->isCast()) return constStr(CE->getOperand(0));
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      std::string s = "s:(";
      for (unsigned i = 0; i < CS->getNumOperands(); ++i) s += (i ? "," : "") + constStr(CS->getOperand(i));
      return s + ")";
    }
    return "?const";
  }
  std::string val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constStr(C);
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    if (auto *B = dyn_cast<BasicBlock>(V)) return ids[B];
    if (isa<InlineAsm>(V)) return "asm";
    if (isa<MetadataAsValue>(V)) return "meta";
    return "?val";
  }
  std::string ty(const Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

  json::Value loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    json::Array a;
    while (L) {
      std::string fn;
      if (auto *sp = L->getScope()->getSubprogram()) fn = sp->getName().str();
      a.push_back(json::Array{L->getFilename().str(), (int64_t)L->getLine(), fn});
      L = L->getInlinedAt();
    }
    return a;
  }
  static const char *ord(AtomicOrdering o) { return toIRString(o); }

  // extents of the members of an aggregate (arrays count as one member)
  void members(Type *T, uint64_t at, json::Array &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      const StructLayout *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i) members(S->getElementType(i), at + L->getElementOffset(i).getFixedValue(), out);
      return;
    }
    out.push_back(json::Array{(int64_t)at, (int64_t)DL.getTypeAllocSize(T).getFixedValue()});
  }

  json::Object inst(const Instruction &I) {
    json::Object o;
    o["id"] = ids[&I];
    o["op"] = I.getOpcodeName();
    o["ty"] = ty(I.getType());
    o["loc"] = loc(I);
    json::Array ops;
    auto addOps = [&] { for (auto &U : I.operands()) ops.push_back(val(U.get())); };
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> vars;
      APInt off(64, 0);
      o["inb"] = G->isInBounds();
      o["ety"] = ty(G->getSourceElementType());
      ops.push_back(val(G->getPointerOperand()));
      if (cast<GEPOperator>(G)->collectOffset(DL, 64, vars, off)) {
        o["coff"] = off.getSExtValue();
        json::Array vs;
        for (auto &kv : vars) vs.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
        o["vars"] = std::move(vs);
      }
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      json::Array in;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        in.push_back(json::Array{val(P->getIncomingValue(i)), ids[P->getIncomingBlock(i)]});
      o["in"] = std::move(in);
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      const Value *cv = C->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(cv)) { o["f"] = F->getName().str(); o["d"] = dem(F->getName()); }
      else o["f"] = val(cv);
      for (auto &A : C->args()) ops.push_back(val(A.get()));
      if (C->doesNotReturn()) o["noret"] = true;
      if (auto *IA = dyn_cast<InlineAsm>(cv)) { o["asm"] = IA->getAsmString(); }
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) ops.push_back(val(B->getCondition()));
      json::Array s;
      for (unsigned i = 0; i < B->getNumSuccessors(); ++i) s.push_back(ids[B->getSuccessor(i)]);
      o["succ"] = std::move(s);
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      ops.push_back(val(S->getCondition()));
      o["def"] = ids[S->getDefaultDest()];
      json::Array cs;
      for (auto &c : S->cases()) cs.push_back(json::Array{val(c.getCaseValue()), ids[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs);
    } else {
      addOps();
      if (auto *C = dyn_cast<CmpInst>(&I)) {
        o["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
        o["oty"] = ty(C->getOperand(0)->getType());
      }
      if (auto *C = dyn_cast<CastInst>(&I)) o["sty"] = ty(C->getSrcTy());
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) o["ord"] = ord(L->getOrdering()); if (L->isVolatile()) o["vol"] = true; }
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (S->isAtomic()) o["ord"] = ord(S->getOrdering());
        if (S->isVolatile()) o["vol"] = true;
        o["sty"] = ty(S->getValueOperand()->getType());
      }
      if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
        o["ord"] = ord(X->getSuccessOrdering()); o["ordf"] = ord(X->getFailureOrdering()); o["weak"] = X->isWeak();
        o["sty"] = ty(X->getCompareOperand()->getType());
      }
      if (auto *X = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = ord(X->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(X->getOperation()).str(); o["sty"] = ty(X->getValOperand()->getType()); }
      if (auto *F = dyn_cast<FenceInst>(&I)) o["ord"] = ord(F->getOrdering());
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        o["aty"] = ty(A->getAllocatedType());
        if (auto sz = A->getAllocationSize(DL)) o["asz"] = (int64_t)sz->getFixedValue();
        if (A->getAllocatedType()->isStructTy()) { json::Array mm; members(A->getAllocatedType(), 0, mm); o["mem"] = std::move(mm); }
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
      if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) {
        if (OB->hasNoSignedWrap()) o["nsw"] = true;
        if (OB->hasNoUnsignedWrap()) o["nuw"] = true;
      }
    }
    if (I.getType()->isSized() && !I.getType()->isVoidTy()) o["sz"] = (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue();
    o["o"] = std::move(ops);
    return o;
  }

  json::Object fn(Function &F) {
    ids.clear();
    int n = 0;
    json::Array args;
    for (auto &A : F.args()) {
      ids[&A] = "%a" + std::to_string(A.getArgNo());
      json::Object ao;
      ao["id"] = ids[&A]; ao["ty"] = ty(A.getType()); ao["name"] = A.getName().str();
      if (A.hasStructRetAttr()) ao["sret"] = true;
      args.push_back(std::move(ao));
    }
    int b = 0;
    for (auto &B : F) {
      ids[&B] = "b" + std::to_string(b++);
      for (auto &I : B) ids[&I] = "%" + std::to_string(n++);
    }
    json::Array blocks;
    for (auto &B : F) {
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd()) continue;
        is.push_back(inst(I));
      }
      blocks.push_back(json::Object{{"id", ids[&B]}, {"i", std::move(is)}});
    }
    json::Object o;
    o["name"] = F.getName().str();
    o["dem"] = dem(F.getName());
    o["rty"] = ty(F.getReturnType());
    o["args"] = std::move(args);
    o["blocks"] = std::move(blocks);
    if (auto *sp = F.getSubprogram()) {
      o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); o["sname"] = sp->getName().str();
    }
    o["linkage"] = (int64_t)F.getLinkage();
    return o;
  }
  bool bytes(const Constant *C, std::string &out) {
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      // element-wise little-endian re-encoding so the consumer is target independent
      unsigned es = D->getElementByteSize();
      for (unsigned i = 0; i < D->getNumElements(); ++i) {
        uint64_t v = D->getElementAsInteger(i);
        for (unsigned k = 0; k < es; ++k) out.push_back((char)((v >> (8 * k)) & 255));
      }
      return true;
    }
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      unsigned es = (CI->getBitWidth() + 7) / 8;
      for (unsigned k = 0; k < es && k < 8; ++k) out.push_back((char)((CI->getZExtValue() >> (8 * k)) & 255));
      return true;
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      for (unsigned i = 0; i < S->getNumOperands(); ++i) if (!bytes(cast<Constant>(S->getOperand(i)), out)) return false;
      return out.size() == DL.getTypeAllocSize(C->getType()).getFixedValue();
    }
    if (isa<ConstantAggregateZero>(C)) { out.append(DL.getTypeAllocSize(C->getType()).getFixedValue(), '\0'); return true; }
    return false;
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx IN.bc OUT.json KEEP.txt [--simplify]\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  std::vector<std::regex> keep;
  {
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l)) if (!l.empty() && l[0] != '#') keep.emplace_back(l, std::regex::ECMAScript | std::regex::optimize);
  }
  std::set<std::string> kept;
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    if (F.isDeclaration()) continue;
    std::string d = dem(F.getName());
    bool k = false;
    for (auto &r : keep) if (std::regex_search(d, r) || std::regex_search(F.getName().str(), r)) { k = true; break; }
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (k) { F.addFnAttr(Attribute::NoInline); kept.insert(F.getName().str()); }
    else F.addFnAttr(Attribute::AlwaysInline);
    // call sites may carry noinline too
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) C->removeFnAttr(Attribute::NoInline);
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  for (int round = 0; round < 3; ++round) {
    MPM.addPass(AlwaysInlinerPass(false));
    FunctionPassManager FPM;
    FPM.addPass(CleanCFG());
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(PromotePass());
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(CleanCFG());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 2;

  Dumper D(*M);
  json::Array fns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = dem(F.getName());
    // everything not kept is inlined; still dump library-owned ones with external linkage
    bool own = d.find("ada::idna") != std::string::npos || kept.count(F.getName().str()) || d.find("_GLOBAL__sub_I") != std::string::npos || d.find("__cxx_global_var_init") != std::string::npos;
    if (!own) continue;
    if (F.use_empty() && !kept.count(F.getName().str()) && (F.hasLocalLinkage() || F.hasLinkOnceLinkage()) && d.find("_GLOBAL__") == std::string::npos) continue;
    fns.push_back(D.fn(F));
  }
  json::Array gl;
  for (auto &G : M->globals()) {
    json::Object o;
    o["name"] = G.getName().str(); o["dem"] = dem(G.getName()); o["const"] = G.isConstant();
    o["ty"] = D.ty(G.getValueType());
    o["sz"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue();
    o["tls"] = G.isThreadLocal();
    if (G.getValueType()->isStructTy()) { json::Array mm; D.members(G.getValueType(), 0, mm); o["mem"] = std::move(mm); }
    o["decl"] = G.isDeclaration();
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { o["file"] = gv[0]->getVariable()->getFilename().str(); o["line"] = (int64_t)gv[0]->getVariable()->getLine(); }
    if (G.hasInitializer()) {
      std::string b;
      if (G.getValueType()->isArrayTy() || (G.getValueType()->isStructTy() && (G.isConstant() || M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue() <= 16)) || G.getValueType()->isIntegerTy() || G.getValueType()->isPointerTy()) {
        if (isa<ConstantPointerNull>(G.getInitializer())) o["init"] = "null";
        else if (D.bytes(G.getInitializer(), b) && b.size() <= 65536) {
          std::string h; raw_string_ostream os(h);
          for (unsigned char c : b) { const char *x = "0123456789abcdef"; os << x[c >> 4] << x[c & 15]; }
          o["hex"] = os.str();
          Type *VT = G.getValueType();
          while (auto *ST = dyn_cast<StructType>(VT)) { if (ST->getNumElements() != 1) break; VT = ST->getElementType(0); }
          if (auto *AT = dyn_cast<ArrayType>(VT)) o["esz"] = (int64_t)M->getDataLayout().getTypeAllocSize(AT->getElementType()).getFixedValue();
        }
      }
    }
    gl.push_back(std::move(o));
  }
  json::Array decls;
  for (auto &F : *M) if (F.isDeclaration() && !F.use_empty() && !F.isIntrinsic()) decls.push_back(dem(F.getName()));
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << json::Value(json::Object{{"triple", M->getTargetTriple()}, {"big", M->getDataLayout().isBigEndian()}, {"functions", std::move(fns)}, {"globals", std::move(gl)}, {"decls", std::move(decls)}});
  return 0;
}
