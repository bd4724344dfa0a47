// irdump: dump LLVM IR (after optional selective inlining and SSA promotion) as JSON lines,
// one object per function, for the Python rules in /verif/fuir.
//
//   irdump [-inline] [-root REGEX]... [-keep REGEX]... [-only REGEX] [-max N] FILE.bc...  > out.jsonl
//
// -inline      inline every call to a defined function into the roots (recursively), except
//              functions matching -keep and recursive cycles.
// -root RE     demangled-name regex: dump only these (default: all definitions).
// -keepfile RE / -inlfile RE   same by defining source file (inlfile wins).
// -keep RE     demangled-name regex of functions that are never inlined.
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <set>
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <regex>
#include <set>
#include <map>
#include <string>
#include <vector>
using namespace llvm;
namespace J = llvm::json;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static std::map<std::string, std::string> demCache;
static const std::string &dem(StringRef n) {
  auto &d = demCache[n.str()];
  if (d.empty()) d = demangle(n.str());
  return d;
}

struct Dumper {
  const DataLayout &DL;
  std::map<const Value *, int64_t> ids;
  J::Value constant(const Constant *C, int depth = 0) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      if (I->getBitWidth() <= 64) return J::Object{{"c", I->getSExtValue()}, {"w", (int64_t)I->getBitWidth()}};
      SmallString<40> s; I->getValue().toStringSigned(s); return J::Object{{"big", s.str().str()}, {"w", (int64_t)I->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(C)) return J::Object{{"null", 1}};
    if (isa<UndefValue>(C)) return J::Object{{"undef", 1}};
    if (auto *F = dyn_cast<Function>(C)) return J::Object{{"f", F->getName().str()}};
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
      J::Object o{{"g", G->getName().str()}};
      if (G->isConstant() && G->hasInitializer())
        if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (D->isString()) o["s"] = J::fixUTF8(D->getAsString());
      if (!G->isConstant() && G->hasInitializer())
        if (auto *I = dyn_cast<ConstantInt>(G->getInitializer()))
          if (I->getBitWidth() <= 8) o["gi"] = (int64_t)I->getZExtValue();
      return o;
    }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      if (depth < 4) {
        J::Array a; for (auto &op : E->operands()) a.push_back(constant(cast<Constant>(op.get()), depth + 1));
        J::Object o{{"ce", E->getOpcodeName()}, {"ops", std::move(a)}};
        if (auto *G = dyn_cast<GEPOperator>(E)) {
          APInt off(64, 0); if (G->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
        }
        return o;
      }
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) { return J::Object{{"fp", tyStr(F->getType())}}; }
    if (C->isNullValue()) return J::Object{{"zero", 1}};
    return J::Object{{"k", tyStr(C->getType())}};
  }
  J::Value val(const Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *A = dyn_cast<InlineAsm>(V)) return J::Object{{"asm", A->getAsmString()}};
    return J::Object{{"md", 1}};
  }
  static const char *ord(AtomicOrdering o) { return toIRString(o); }

  J::Array loc(const Instruction &I) {
    J::Array a;
    const DILocation *L = I.getDebugLoc().get();
    int n = 0;
    while (L && n++ < 12) {
      const DISubprogram *SP = L->getScope()->getSubprogram();
      a.push_back(J::Array{L->getFilename().str(), (int64_t)L->getLine(), SP ? SP->getName().str() : std::string()});
      L = L->getInlinedAt();
    }
    return a;
  }

  void dump(Function &F, raw_ostream &os) {
    ids.clear();
    int64_t n = 0;
    J::Object fo;
    fo["name"] = F.getName().str();
    fo["dem"] = J::fixUTF8(dem(F.getName()));
    if (auto *SP = F.getSubprogram()) {
      fo["base"] = J::fixUTF8(SP->getName());
      fo["file"] = SP->getFilename().str();
      fo["line"] = (int64_t)SP->getLine();
    }
    fo["linkage"] = (int64_t)F.getLinkage();
    fo["ret"] = tyStr(F.getReturnType());
    if (F.doesNotReturn()) fo["noreturn"] = true;
    J::Array args;
    for (auto &A : F.args()) {
      ids[&A] = n;
      J::Object ao{{"id", n}, {"ty", tyStr(A.getType())}, {"nm", A.getName().str()}};
      if (A.hasByValAttr()) ao["byval"] = true;
      if (A.hasStructRetAttr()) ao["sret"] = true;
      args.push_back(std::move(ao));
      n++;
    }
    fo["args"] = std::move(args);
    std::map<const BasicBlock *, int64_t> bid; int64_t b = 0;
    for (auto &BB : F) { bid[&BB] = b++; for (auto &I : BB) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = n++; }
    std::map<int64_t, std::set<std::string>> names;
    J::Array blocks;
    for (auto &BB : F) {
      J::Array insts;
      for (auto &I : BB) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (Value *V : D->location_ops()) {
            auto it = ids.find(V);
            if (it != ids.end() && D->getVariable()) names[it->second].insert(D->getVariable()->getName().str());
          }
          continue;
        }
        J::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
        if (I.getDebugLoc()) o["loc"] = loc(I);
        J::Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            ops.push_back(J::Array{val(P->getIncomingValue(i)), bid[P->getIncomingBlock(i)]});
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          for (auto &A : C->args()) ops.push_back(val(A.get()));
          if (auto *Fn = C->getCalledFunction()) { o["callee"] = Fn->getName().str(); o["cdem"] = J::fixUTF8(dem(Fn->getName()));
            if (auto *SP = Fn->getSubprogram()) { o["cbase"] = J::fixUTF8(SP->getName()); o["cfile"] = SP->getFilename().str(); } }
          else o["cv"] = val(C->getCalledOperand());
          if (C->doesNotReturn()) o["noret"] = true;
          if (C->paramHasAttr(0, Attribute::StructRet)) o["sret"] = true;
          if (auto *IV = dyn_cast<InvokeInst>(C)) { o["to"] = bid[IV->getNormalDest()]; o["unw"] = bid[IV->getUnwindDest()]; }
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          if (B->isConditional()) { ops.push_back(val(B->getCondition())); o["t"] = bid[B->getSuccessor(0)]; o["f"] = bid[B->getSuccessor(1)]; }
          else o["to"] = bid[B->getSuccessor(0)];
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(val(S->getCondition())); o["def"] = bid[S->getDefaultDest()];
          J::Array cs; for (auto &c : S->cases()) cs.push_back(J::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
        } else {
          for (auto &op : I.operands()) ops.push_back(val(op.get()));
          if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) o["ord"] = ord(L->getOrdering()); }
          else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) o["ord"] = ord(S->getOrdering()); }
          else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()); o["ord"] = ord(R->getOrdering()); }
          else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = ord(X->getSuccessOrdering()); o["ord2"] = ord(X->getFailureOrdering()); o["weak"] = X->isWeak(); }
          else if (auto *Fe = dyn_cast<FenceInst>(&I)) { o["ord"] = ord(Fe->getOrdering()); }
          else if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate());
          else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            o["src"] = tyStr(G->getSourceElementType());
            APInt off(64, 0);
            if (G->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
            else o["esz"] = (int64_t)DL.getTypeAllocSize(G->getSourceElementType());
          } else if (auto *A = dyn_cast<AllocaInst>(&I)) { o["at"] = tyStr(A->getAllocatedType()); if (A->hasName()) o["nm"] = A->getName().str(); }
          else if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J::Array x; for (auto i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
          else if (auto *E = dyn_cast<InsertValueInst>(&I)) { J::Array x; for (auto i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
          else if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) o["nsw"] = true; }
        }
        o["ops"] = std::move(ops);
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    J::Object vn;
    for (auto &kv : names) { J::Array a; for (auto &s : kv.second) a.push_back(s); vn[std::to_string(kv.first)] = std::move(a); }
    fo["names"] = std::move(vn);
    os << J::Value(std::move(fo)) << "\n";
  }
};

static void dumpTypes(Module &M, raw_ostream &os) {
  DebugInfoFinder DF; DF.processModule(M);
  std::set<std::string> seen;
  for (DIType *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getName().empty()) continue;
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (!seen.insert("e:" + C->getName().str()).second) continue;
      J::Array es;
      for (auto *E : C->getElements()) if (auto *N = dyn_cast<DIEnumerator>(E)) es.push_back(J::Array{N->getName().str(), N->getValue().getSExtValue()});
      os << J::Value(J::Object{{"enum", C->getName().str()}, {"vals", std::move(es)}}) << "\n";
      continue;
    }
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type) continue;
    if (C->isForwardDecl() || !seen.insert(C->getName().str()).second) continue;
    J::Array fs;
    for (auto *E : C->getElements()) {
      auto *D = dyn_cast<DIDerivedType>(E);
      if (!D || D->isStaticMember()) continue;
      if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
      std::string tn;
      if (auto *BT = D->getBaseType()) tn = BT->getName().str();
      fs.push_back(J::Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), (int64_t)(D->getSizeInBits() / 8), tn});
    }
    os << J::Value(J::Object{{"struct", C->getName().str()}, {"size", (int64_t)(C->getSizeInBits() / 8)}, {"fields", std::move(fs)}}) << "\n";
  }
}

int main(int argc, char **argv) {
  bool inl = false, types = true; size_t maxSize = 60000;
  std::vector<std::regex> roots, keeps, keepBases, keepFiles, inlFiles; std::vector<std::string> files; std::string bcOut; std::string pipeline = "function(sroa,early-cse,simplifycfg)";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-inline") inl = true;
    else if (a == "-root") roots.emplace_back(argv[++i], std::regex::optimize);
    else if (a == "-keep") keeps.emplace_back(argv[++i], std::regex::optimize);
    else if (a == "-keepbase") keepBases.emplace_back(argv[++i], std::regex::optimize);
    else if (a == "-keepfile") keepFiles.emplace_back(argv[++i], std::regex::optimize);
    else if (a == "-inlfile") inlFiles.emplace_back(argv[++i], std::regex::optimize);
    else if (a == "-max") maxSize = strtoul(argv[++i], nullptr, 10);
    else if (a == "-passes") pipeline = argv[++i];
    else if (a == "-notypes") types = false;
    else if (a == "-bc") bcOut = argv[++i];
    else files.push_back(a);
  }
  LLVMContext Ctx; std::unique_ptr<Module> M;
  for (auto &f : files) {
    SMDiagnostic Err; auto X = parseIRFile(f, Err, Ctx);
    if (!X) { Err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) { errs() << "irdump: link failed: " << f << "\n"; return 2; }
  }
  if (!M) return 2;
  auto match = [](const std::vector<std::regex> &rs, const std::string &s) { for (auto &r : rs) if (std::regex_search(s, r)) return true; return false; };
  std::map<Function *, bool> keepMemo;
  auto isKeep = [&](Function *F) { auto it = keepMemo.find(F); if (it != keepMemo.end()) return it->second; bool k = match(keeps, dem(F->getName()));
    if (auto *SP = F->getSubprogram()) { std::string fn = SP->getFilename().str(); if (match(keepFiles, fn) && !match(inlFiles, fn)) k = true;
      std::string nm = SP->getName().str(); for (auto &r : keepBases) if (std::regex_match(nm, r)) k = true; }
    return keepMemo[F] = k; };

  for (auto &F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }

  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  std::vector<Function *> rootFns;
  for (auto &F : *M) if (!F.isDeclaration() && (roots.empty() || match(roots, dem(F.getName())))) rootFns.push_back(&F);

  if (inl) {
    // Inline into clones so that the bodies being inlined stay pristine.
    std::vector<Function *> out;
    for (Function *R : rootFns) {
      ValueToValueMapTy VM; Function *C = CloneFunction(R, VM);
      C->setName(R->getName() + ".inl");
      // stack of (call, chain)
      std::map<CallBase *, std::vector<Function *>> chain;
      std::vector<CallBase *> work;
      for (auto &I : instructions(*C)) if (auto *CB = dyn_cast<CallBase>(&I)) { work.push_back(CB); chain[CB] = {R}; }
      size_t size = C->getInstructionCount();
      while (!work.empty()) {
        CallBase *CB = work.back(); work.pop_back();
        auto ch = chain[CB]; chain.erase(CB);
        Function *Fn = CB->getCalledFunction();
        if (!Fn || Fn->isDeclaration() || isKeep(Fn)) continue;
        if (std::find(ch.begin(), ch.end(), Fn) != ch.end()) continue;
        if (size + Fn->getInstructionCount() > maxSize) { errs() << "irdump: size limit in " << dem(R->getName()) << " at " << dem(Fn->getName()) << "\n"; continue; }
        InlineFunctionInfo IFI;
        auto r = InlineFunction(*CB, IFI);
        if (!r.isSuccess()) continue;
        size += Fn->getInstructionCount();
        ch.push_back(Fn);
        for (CallBase *N : IFI.InlinedCallSites) { work.push_back(N); chain[N] = ch; }
      }
      out.push_back(C);
    }
    rootFns = out;
  }
  FunctionPassManager FPM;
  {
    ModulePassManager tmp;
    if (auto E = PB.parsePassPipeline(tmp, pipeline)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  }
  std::string fp = pipeline;
  if (fp.rfind("function(", 0) == 0) fp = fp.substr(9, fp.size() - 10);
  if (auto E = PB.parsePassPipeline(FPM, fp)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  for (Function *F : rootFns) FPM.run(*F, FAM);

  if (!bcOut.empty()) {      // keep only the processed roots
    std::set<Function *> keepFn(rootFns.begin(), rootFns.end());
    std::error_code EC; raw_fd_ostream os(bcOut, EC); if (EC) return 2;
    for (auto &F : *M) if (!F.isDeclaration() && !keepFn.count(&F)) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    WriteBitcodeToFile(*M, os); return 0;
  }
  if (types) dumpTypes(*M, outs());
  Dumper D{M->getDataLayout()};
  for (Function *F : rootFns) D.dump(*F, outs());
  return 0;
}
