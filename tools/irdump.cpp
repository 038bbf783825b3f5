// irdump: load a linked LLVM module, inline helper functions, simplify, and
// dump the result (resolved callees, struct field names, source positions)
// as JSON for the analyses in /verif/lib.
//
// usage: irdump module.bc out.json opaque-list-file
//   opaque-list-file: one function name per line; every other function of
//   the module that has a body is inlined into its callers.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;

static std::map<const StructType *, std::vector<std::string>> FieldNames;
static std::map<std::string, const DICompositeType *> Composites;
static std::set<std::string> Opaque;
static const DataLayout *DL;

static std::string srcName(const Function *F) {
  if (auto *SP = F->getSubprogram())
    if (!SP->getName().empty())
      return SP->getName().str();
  std::string N = F->getName().str();
  // llvm.memcpy.p0.p0.i64 and friends keep their names
  if (F->isIntrinsic()) return N;
  return N;
}

static std::string baseStructName(const StructType *ST) {
  if (!ST->hasName()) return "";
  std::string n = ST->getName().str();
  for (const char *p : {"struct.", "union."})
    if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
  // "foo.123" -> "foo"
  auto k = n.rfind('.');
  if (k != std::string::npos && n.find_first_not_of("0123456789", k + 1) == std::string::npos)
    n = n.substr(0, k);
  return n;
}

static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type ||
        t == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}

static std::string fieldName(const StructType *ST, unsigned idx) {
  auto it = FieldNames.find(ST);
  if (it == FieldNames.end()) {
    std::vector<std::string> v(ST->getNumElements());
    auto c = Composites.find(baseStructName(ST));
    const StructLayout *SL = ST->isSized() ? DL->getStructLayout(const_cast<StructType *>(ST)) : nullptr;
    if (c != Composites.end() && SL)
      for (auto *E : c->second->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E))
          if (D->getTag() == dwarf::DW_TAG_member)
            for (unsigned i = 0; i < v.size(); i++)
              if (SL->getElementOffsetInBits(i) == D->getOffsetInBits() && v[i].empty())
                v[i] = D->getName().str();
    for (unsigned i = 0; i < v.size(); i++)
      if (v[i].empty()) v[i] = "#" + std::to_string(i);
    it = FieldNames.insert({ST, v}).first;
  }
  return it->second[idx];
}

static std::map<const Value *, int> Ids;
static std::map<const BasicBlock *, int> BIds;

static json::Value opnd(const Value *V);

static json::Value path(const GEPOperator *G, std::function<json::Value(const Value *)> f) {
  json::Array A;
  Type *T = G->getSourceElementType();
  bool first = true;
  for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
    const Value *ix = *I;
    if (first) {
      first = false;
      if (auto *C = dyn_cast<ConstantInt>(ix))
        if (C->isZero()) continue;
      A.push_back(json::Array{"p", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), f(ix)});
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      unsigned n = cast<ConstantInt>(ix)->getZExtValue();
      std::string bn = baseStructName(ST);
      A.push_back(json::Array{"f", bn, fieldName(ST, n),
         (int64_t)DL->getStructLayout(ST)->getElementOffset(n)});
      T = ST->getElementType(n);
    } else {
      T = cast<ArrayType>(T)->getElementType();
      A.push_back(json::Array{"i", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), f(ix)});
    }
  }
  return A;
}

static json::Value bytesOf(StringRef S) {
  std::string o;
  for (unsigned char c : S) { char b[3]; snprintf(b, 3, "%02x", c); o += b; }
  return o;
}

static bool cstr(const Value *V, std::string &out) {
  auto *G = dyn_cast<GlobalVariable>(V);
  if (!G || !G->isConstant() || !G->hasInitializer()) return false;
  if (isa<ConstantAggregateZero>(G->getInitializer()))  {
    if (auto *AT = dyn_cast<ArrayType>(G->getInitializer()->getType()))
      if (AT->getElementType()->isIntegerTy(8) && AT->getNumElements() == 1) { out = ""; return true; }
    return false;
  }
  auto *D = dyn_cast<ConstantDataArray>(G->getInitializer());
  if (!D || !D->isCString()) return false;
  out = D->getAsCString().str();
  return true;
}

static std::string jstr(const std::string &s) {
  return json::isUTF8(s) ? s : json::fixUTF8(s);
}

static json::Value opnd(const Value *V) {
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) return json::Array{"c", C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()};
    return json::Array{"u"};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"c", 0};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName().str()};
  std::string s;
  if (auto *G = dyn_cast<GlobalVariable>(V)) {
    if (cstr(G, s)) return json::Array{"s", jstr(s), G->getName().str()};
    return json::Array{"g", G->getName().str()};
  }
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE))
      return json::Array{"ge", opnd(G->getPointerOperand()), path(G, [](const Value *v) { return opnd(v); })};
    json::Array ops;
    for (auto &o : CE->operands()) ops.push_back(opnd(o));
    return json::Array{"ce", CE->getOpcodeName(), std::move(ops)};
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
  if (auto *D = dyn_cast<ConstantDataSequential>(V)) {
    if (D->getElementType()->isIntegerTy(8)) return json::Array{"b", bytesOf(D->getRawDataValues())};
    json::Array e;
    for (unsigned i = 0; i < D->getNumElements(); i++) e.push_back(opnd(D->getElementAsConstant(i)));
    return json::Array{"arr", std::move(e)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    json::Array e;
    auto *ST = dyn_cast<StructType>(CA->getType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) {
      if (ST) e.push_back(json::Array{fieldName(ST, i), opnd(CA->getOperand(i))});
      else e.push_back(opnd(CA->getOperand(i)));
    }
    if (ST) return json::Array{"st", baseStructName(ST), std::move(e)};
    return json::Array{"arr", std::move(e)};
  }
  if (isa<ConstantFP>(V)) return json::Array{"fp"};
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  return json::Array{"u"};
}

static std::string tyName(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return s;
}

static json::Value loc(const Instruction &I) {
  json::Array chain;
  for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
    std::string fn;
    if (auto *SP = L->getScope()->getSubprogram()) fn = SP->getName().str();
    std::string file = L->getFilename().str();
    auto k = file.rfind('/');
    if (k != std::string::npos) file = file.substr(k + 1);
    chain.push_back(json::Array{file, (int64_t)L->getLine(), fn});
  }
  return chain;
}

static std::set<const Function *> Taken;   // functions used as values (callbacks)
static bool inlinable(const Function *F) {
  return F && !F->isDeclaration() && !F->isVarArg() && !Opaque.count(srcName(F)) && !Taken.count(F);
}

static std::set<Function *> Done;
static std::vector<Function *> Stack;
static void process(Function *F) {
  if (Done.count(F)) return;
  for (auto *S : Stack) if (S == F) return;
  Stack.push_back(F);
  bool again = true;
  unsigned guard = 0;
  std::set<Function *> skip;
  while (again && guard++ < 2000) {
    again = false;
    for (auto &BB : *F) {
      for (auto &I : BB) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB) continue;
        Function *G = CB->getCalledFunction();
        if (!inlinable(G) || skip.count(G) || G == F) continue;
        bool onstack = false;
        for (auto *S : Stack) if (S == G) onstack = true;
        if (onstack) { skip.insert(G); continue; }
        process(G);
        // never inline a function that (still) calls itself
        bool rec = false;
        for (auto &b2 : *G) for (auto &i2 : b2)
          if (auto *c2 = dyn_cast<CallBase>(&i2)) if (c2->getCalledFunction() == G) rec = true;
        if (rec) { skip.insert(G); continue; }
        InlineFunctionInfo IFI;
        auto R = InlineFunction(*CB, IFI);
        if (!R.isSuccess()) { skip.insert(G); continue; }
        again = true;
        break;
      }
      if (again) break;
    }
  }
  Stack.pop_back();
  Done.insert(F);
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  {
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l)) if (!l.empty()) Opaque.insert(l);
  }
  DebugInfoFinder DF;
  DF.processModule(*M);
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
      if (C->isForwardDecl() || C->getName().empty()) continue;
      Composites.insert({C->getName().str(), C});
    }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  auto runSimplify = [&](void) {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    SimplifyCFGOptions O;
    O.SpeculateBlocks = false; O.SimplifyCondBranch = false;
    O.SinkCommonInsts = false; O.HoistCommonInsts = false; O.ConvertSwitchRangeToICmp = false;
    O.ConvertSwitchToLookupTable = false; O.ForwardSwitchCondToPhi = false;
    FPM.addPass(SimplifyCFGPass(O));
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  };
  for (auto &F : *M)
    if (!F.isDeclaration() && F.hasAddressTaken()) Taken.insert(&F);
  // The inliner folds the address of a first member into that of its struct;
  // hide those addresses from it so that they keep the member's name.
  std::map<Function *, GetElementPtrInst *> Marks;
  std::map<std::pair<Type *, unsigned>, Function *> MarkOf;
  std::vector<GetElementPtrInst *> Orig;
  for (auto &F : *M)
    for (auto &BB : F)
      for (auto &I : BB)
        if (auto *G = dyn_cast<GetElementPtrInst>(&I))
          if (G->hasAllZeroIndices() && G->getNumIndices() >= 2 && isa<StructType>(G->getSourceElementType()))
            Orig.push_back(G);
  for (auto *G : Orig) {
    auto key = std::make_pair(G->getSourceElementType(), G->getNumIndices());
    Function *&MF = MarkOf[key];
    if (!MF) {
      auto *FT = FunctionType::get(G->getType(), {G->getPointerOperandType()}, false);
      MF = Function::Create(FT, GlobalValue::ExternalLinkage, "aard.gep." + std::to_string(MarkOf.size()), M.get());
      Marks[MF] = cast<GetElementPtrInst>(G->clone());
    }
    auto *C = CallInst::Create(MF->getFunctionType(), MF, {G->getPointerOperand()}, "", G);
    C->setDebugLoc(G->getDebugLoc());
    G->replaceAllUsesWith(C);
    G->eraseFromParent();
  }
  for (auto &F : *M) if (!F.isDeclaration()) process(&F);
  std::vector<CallInst *> Back;
  for (auto &F : *M)
    for (auto &BB : F)
      for (auto &I : BB)
        if (auto *C = dyn_cast<CallInst>(&I))
          if (C->getCalledFunction() && Marks.count(C->getCalledFunction())) Back.push_back(C);
  for (auto *C : Back) {
    auto *G = cast<GetElementPtrInst>(Marks[C->getCalledFunction()]->clone());
    G->setOperand(0, C->getArgOperand(0));
    G->insertBefore(C);
    G->setDebugLoc(C->getDebugLoc());
    C->replaceAllUsesWith(G);
    C->eraseFromParent();
  }
  for (auto &kv : Marks) { kv.second->setOperand(0, PoisonValue::get(kv.second->getOperand(0)->getType())); kv.second->deleteValue(); kv.first->eraseFromParent(); }
  runSimplify();

  json::Object Root;
  json::Object Globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["const"] = G.isConstant();
    std::string s;
    if (cstr(&G, s)) o["str"] = jstr(s);
    if (G.hasInitializer()) o["init"] = opnd(G.getInitializer());
    o["size"] = G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : -1;
    o["ty"] = tyName(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      o["src"] = GVs[0]->getVariable()->getName().str();
      std::string file = GVs[0]->getVariable()->getFilename().str();
      auto k = file.rfind('/'); if (k != std::string::npos) file = file.substr(k + 1);
      o["file"] = file;
    }
    Globals[G.getName()] = std::move(o);
  }
  Root["globals"] = std::move(Globals);
  json::Object Structs;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    json::Object o; json::Array fs;
    o["size"] = (int64_t)DL->getTypeAllocSize(ST).getFixedValue();
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      fs.push_back(json::Array{fieldName(ST, i), (int64_t)DL->getStructLayout(ST)->getElementOffset(i),
                               (int64_t)DL->getTypeAllocSize(ST->getElementType(i)).getFixedValue()});
    o["fields"] = std::move(fs);
    Structs[baseStructName(ST)] = std::move(o);
  }
  Root["structs"] = std::move(Structs);

  json::Object Funcs;
  for (auto &F : *M) {
    json::Object fo;
    fo["name"] = srcName(&F);
    fo["decl"] = F.isDeclaration();
    fo["noreturn"] = F.hasFnAttribute(Attribute::NoReturn);
    fo["internal"] = F.hasLocalLinkage();
    fo["vararg"] = F.isVarArg();
    fo["addrtaken"] = F.hasAddressTaken();
    fo["ret"] = tyName(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      std::string file = SP->getFilename().str();
      bool sys = file.rfind("/usr/", 0) == 0;
      if (auto *D = SP->getFile()) { if (D->getDirectory().str().rfind("/usr/", 0) == 0 && file[0] != '/') sys = true; }
      fo["sys"] = sys;
      auto k = file.rfind('/'); if (k != std::string::npos) file = file.substr(k + 1);
      fo["file"] = file;
      fo["line"] = (int64_t)SP->getLine();
    }
    if (!F.isDeclaration()) {
      Ids.clear(); BIds.clear();
      int n = 0, b = 0;
      for (auto &BB : F) { BIds[&BB] = b++; for (auto &I : BB) Ids[&I] = n++; }
      json::Array args;
      for (auto &A : F.args()) {
        args.push_back(json::Array{tyName(A.getType())});
      }
      fo["args"] = std::move(args);
      // names of parameters
      json::Array pn;
      if (auto *SP = F.getSubprogram())
        for (auto *N : SP->getRetainedNodes())
          if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) pn.push_back(V->getName().str());
      fo["params"] = std::move(pn);
      json::Array blocks;
      for (auto &BB : F) {
        json::Array ins;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
            auto id = II->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
                id == Intrinsic::experimental_noalias_scope_decl) continue;
          }
          json::Object o;
          o["id"] = Ids[&I];
          o["op"] = I.getOpcodeName();
          o["ty"] = tyName(I.getType());
          o["loc"] = loc(I);
          json::Array ops;
          if (auto *P = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
              ops.push_back(json::Array{BIds[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            for (auto &A : C->args()) ops.push_back(opnd(A));
            if (Function *G = C->getCalledFunction()) { o["callee"] = G->getName().str(); o["fn"] = srcName(G); }
            else o["ptr"] = opnd(C->getCalledOperand());
            if (C->doesNotReturn()) o["noreturn"] = true;
          } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) ops.push_back(opnd(B->getCondition()));
            json::Array s; for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(BIds[B->getSuccessor(i)]);
            o["succ"] = std::move(s);
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(opnd(S->getCondition()));
            json::Array s, c; s.push_back(BIds[S->getDefaultDest()]);
            for (auto &k : S->cases()) { c.push_back(k.getCaseValue()->getSExtValue()); s.push_back(BIds[k.getCaseSuccessor()]); }
            o["succ"] = std::move(s); o["cases"] = std::move(c);
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            ops.push_back(opnd(G->getPointerOperand()));
            o["path"] = path(cast<GEPOperator>(G), [](const Value *v) { return opnd(v); });
          } else {
            for (auto &A : I.operands()) ops.push_back(opnd(A));
          }
          if (auto *C = dyn_cast<ICmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["size"] = A->isArrayAllocation() && !isa<ConstantInt>(A->getArraySize()) ? -1 :
              (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
            o["aty"] = tyName(A->getAllocatedType());
            if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) o["ast"] = baseStructName(ST);
            o["esz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
            o["vname"] = A->getName().str();
          }
          if (isa<CastInst>(I)) o["sty"] = tyName(I.getOperand(0)->getType());
          if (auto *SI = dyn_cast<StoreInst>(&I)) o["sty"] = tyName(SI->getValueOperand()->getType());
          if (isa<ICmpInst>(I)) o["sty"] = tyName(I.getOperand(0)->getType());
          o["ops"] = std::move(ops);
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    Funcs[F.getName()] = std::move(fo);
  }
  Root["functions"] = std::move(Funcs);
  std::error_code EC;
  raw_fd_ostream OS(argv[2], EC);
  OS << json::Value(std::move(Root));
  return 0;
}
