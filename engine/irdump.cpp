// irdump: link LLVM bitcode modules, normalise them, and dump the resolved
// program (functions, CFG, SSA instructions, struct layouts, globals) as JSON.
//
//   irdump OUT.json KEEPLIST|- file.bc...
//
// Normalisation:
//   * functions that are not on KEEPLIST and whose address is never taken are
//     inlined into their callers (so an extracted helper is analysed in the
//     context it was extracted from);
//   * SROA/mem2reg + EarlyCSE (no CFG changes), so locals are SSA values.
#include "llvm/ADT/SmallSet.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;

static std::string tyStr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T))
    if (S->hasName()) return S->getName().str();
  std::string s;
  raw_string_ostream o(s);
  T->print(o, false, true);
  return o.str();
}
template <class N> static std::string fpath(const N *L) {
  std::string f = L->getFilename().str(), d = L->getDirectory().str();
  if (f.empty() || f[0] == '/' || d.empty()) return f;
  return d + "/" + f;
}
static std::string diType(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_typedef: return D->getName().str();
    case dwarf::DW_TAG_const_type: return "const " + diType(D->getBaseType(), depth + 1);
    default: return diType(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diType(C->getBaseType(), depth + 1) + "[";
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast<DISubrange>(E))
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount()))
            s += std::to_string(CI->getSExtValue());
      return s + "]";
    }
    if (C->getName().empty()) return "struct{}";
    return "struct " + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

// Struct types of equal layout are merged by the linker, so the source-level
// name of each type an address computation steps through is recorded first.
static std::string canonName(std::string n) {
  auto pos = n.rfind('.');
  if (pos != std::string::npos && pos + 1 < n.size() && n.find_first_not_of("0123456789", pos + 1) == std::string::npos) n = n.substr(0, pos);
  return n;
}
static void tagTypes(Module &M) {
  LLVMContext &C = M.getContext();
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      SmallVector<Metadata *, 4> L;
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        Type *T = G->getSourceElementType();
        L.push_back(MDString::get(C, canonName(tyStr(T))));
        bool first = true;
        for (auto X = G->idx_begin(); X != G->idx_end(); ++X) {
          if (first) { first = false; continue; }
          if (auto *S = dyn_cast<StructType>(T)) T = S->getElementType(cast<ConstantInt>(X->get())->getZExtValue());
          else if (auto *A = dyn_cast<ArrayType>(T)) T = A->getElementType();
          L.push_back(MDString::get(C, canonName(tyStr(T))));
        }
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        L.push_back(MDString::get(C, canonName(tyStr(A->getAllocatedType()))));
      } else continue;
      I.setMetadata("verif.ty", MDNode::get(C, L));
    }
}
static std::string tagOf(const Instruction *I, unsigned k, const std::string &dflt) {
  if (I)
    if (auto *N = I->getMetadata("verif.ty"))
      if (k < N->getNumOperands()) return cast<MDString>(N->getOperand(k))->getString().str();
  return dflt;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irdump OUT KEEP|- files.bc...\n"; return 2; }
  LLVMContext C;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic E;
    auto N = parseIRFile(argv[i], E, C);
    if (!N) { E.print(argv[0], errs()); return 2; }
    tagTypes(*N);
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
  }
  std::set<std::string> keep;
  bool haveKeep = std::string(argv[2]) != "-";
  if (haveKeep) {
    auto B = MemoryBuffer::getFile(argv[2]);
    if (!B) { errs() << "no keep list\n"; return 2; }
    SmallVector<StringRef, 0> L;
    (*B)->getBuffer().split(L, '\n');
    for (auto l : L) if (!l.trim().empty()) keep.insert(l.trim().str());
  }
  // VERIF_INDET: give every scalar local an explicit "indeterminate" initial value
  if (getenv("VERIF_INDET")) {
    std::vector<Function *> fs;
    for (Function &F : *M) if (!F.isDeclaration()) fs.push_back(&F);
    for (Function *F : fs) {
      std::vector<AllocaInst *> as;
      Instruction *first = nullptr;
      for (Instruction &I : F->getEntryBlock()) {
        if (auto *A = dyn_cast<AllocaInst>(&I)) { as.push_back(A); continue; }
        if (!first) first = &I;
      }
      for (auto *A : as) {
        Type *T = A->getAllocatedType();
        if (!T->isIntegerTy() && !T->isPointerTy()) continue;
        std::string n = "__indeterminate.";
        if (T->isPointerTy()) n += "p"; else n += "i" + std::to_string(T->getIntegerBitWidth());
        FunctionCallee G = M->getOrInsertFunction(n, FunctionType::get(T, false));
        cast<Function>(G.getCallee())->setDoesNotAccessMemory();
        IRBuilder<> B(A->getParent() == first->getParent() ? first : A->getNextNode());
        Value *V = B.CreateCall(G);
        B.CreateStore(V, A);
      }
    }
  }
  // inlining and jump threading fold the address of a first field into that of its record: hide it from them
  std::vector<std::pair<Type *, unsigned>> hidden;
  std::vector<Function *> hiders;
  {
    std::map<std::pair<Type *, unsigned>, Function *> of;
    std::vector<GetElementPtrInst *> gs;
    for (Function &F : *M) for (auto &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (G->hasAllZeroIndices() && isa<StructType>(G->getSourceElementType())) gs.push_back(G);
    for (auto *G : gs) {
      std::pair<Type *, unsigned> k(G->getSourceElementType(), G->getNumIndices());
      Function *&F = of[k];
      if (!F) {
        F = Function::Create(FunctionType::get(G->getType(), {G->getType()}, false), GlobalValue::ExternalLinkage, "__firstfield." + std::to_string(hidden.size()), *M);
        F->setDoesNotAccessMemory(); F->setDoesNotThrow(); F->setWillReturn();
        hidden.push_back(k); hiders.push_back(F);
      }
      auto *C = CallInst::Create(F, {G->getPointerOperand()}, "", G);
      // a call that can be inlined next to must have a place in the source
      C->setDebugLoc(G->getDebugLoc() ? G->getDebugLoc() : G->getFunction()->getSubprogram() ? DebugLoc(DILocation::get(M->getContext(), 0, 0, G->getFunction()->getSubprogram())) : DebugLoc());
      G->replaceAllUsesWith(C); G->eraseFromParent();
    }
  }
  json::Array inlined;
  if (haveKeep) {
    for (int round = 0; round < 20; round++) {
      bool changed = false;
      for (Function &F : make_early_inc_range(*M)) {
        if (F.isDeclaration() || keep.count(F.getName().str()) || F.getName() == "main") continue;
        if (F.hasAddressTaken() || F.isVarArg()) continue;
        bool rec = false;
        std::vector<CallBase *> calls;
        for (User *U : F.users())
          if (auto *CB = dyn_cast<CallBase>(U)) {
            if (CB->getCalledFunction() != &F) continue;
            if (CB->getFunction() == &F) rec = true;
            calls.push_back(CB);
          }
        if (rec || calls.empty()) continue;
        bool all = true;
        for (auto *CB : calls) {
          InlineFunctionInfo IFI;
          if (!InlineFunction(*CB, IFI).isSuccess()) all = false; else changed = true;
        }
        if (all && F.use_empty()) { inlined.push_back(F.getName().str()); F.eraseFromParent(); }
      }
      if (!changed) break;
    }
  }
  auto restore = [&](bool localsOnly) {
    for (size_t k = 0; k < hiders.size(); k++) {
      Function *F = hiders[k];
      std::vector<CallInst *> cs;
      for (User *U : F->users()) cs.push_back(cast<CallInst>(U));
      for (auto *C : cs) {
        if (localsOnly && !isa<AllocaInst>(getUnderlyingObject(C->getArgOperand(0)))) continue;
        std::vector<Value *> idx(hidden[k].second, ConstantInt::get(Type::getInt32Ty(M->getContext()), 0));
        auto *G = GetElementPtrInst::CreateInBounds(hidden[k].first, C->getArgOperand(0), idx, "", C);
        G->setDebugLoc(C->getDebugLoc());
        C->replaceAllUsesWith(G); C->eraseFromParent();
      }
    }
  };
  for (int step = 0; step < 3; step++) {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM;
    if (step < 2) {
      FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
      FPM.addPass(PromotePass());
    }
    // a status kept in a variable and tested later: follow the paths apart
    else if (getenv("VERIF_THREAD")) FPM.addPass(JumpThreadingPass());
    // no EarlyCSE: it folds zero-offset field addresses away
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
    if (step == 0) restore(true);
  }
  restore(false);
  for (auto *F : hiders) F->eraseFromParent();
  if (verifyModule(*M, &errs())) { errs() << "module broken\n"; return 2; }

  // struct names for anonymous typedef'd structs
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  std::map<std::string, const DICompositeType *> comps;
  for (auto *T : DIF.types()) {
    if (auto *CT = dyn_cast<DICompositeType>(T)) {
      if (CT->getTag() == dwarf::DW_TAG_structure_type && !CT->getName().empty() && CT->getElements().size())
        comps["struct." + CT->getName().str()] = CT;
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (B->getTag() == dwarf::DW_TAG_structure_type && B->getName().empty())
            comps["struct." + D->getName().str()] = B;
    }
  }
  json::Object out;
  json::Object structs;
  std::map<const DICompositeType *, std::string> compName;
  for (auto &kv : comps) compName[kv.second] = kv.first;
  for (auto *T : DIF.types())   // every typedef of an anonymous struct in every unit
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (B->getName().empty() && !compName.count(B)) compName[B] = "struct." + D->getName().str();
  auto recOf = [&](const DIType *T, int &ptr) -> std::string {
    ptr = 0;
    for (int k = 0; T && k < 20; k++) {
      if (auto *D = dyn_cast<DIDerivedType>(T)) {
        if (D->getTag() == dwarf::DW_TAG_pointer_type) ptr++;
        T = D->getBaseType();
        continue;
      }
      if (auto *CT = dyn_cast<DICompositeType>(T)) {
        if (CT->getTag() == dwarf::DW_TAG_array_type) { T = CT->getBaseType(); continue; }
        auto it = compName.find(CT);
        if (it != compName.end()) return it->second;
        if (!CT->getName().empty() && comps.count("struct." + CT->getName().str())) return "struct." + CT->getName().str();
      }
      return "";
    }
    return "";
  };
  for (auto &kv : comps) {
    json::Array fs;
    for (auto *E : kv.second->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E))
        if (D->getTag() == dwarf::DW_TAG_member) {
          int ptr;
          std::string rec = recOf(D->getBaseType(), ptr);
          fs.push_back(json::Array{D->getName().str(), diType(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, rec, ptr});
        }
    structs[kv.first] = json::Object{{"fields", std::move(fs)}, {"size", (int64_t)kv.second->getSizeInBits() / 8},
                                     {"file", fpath(kv.second)}, {"line", (int64_t)kv.second->getLine()}};
  }
  out["structs"] = std::move(structs);

  const DataLayout &DL = M->getDataLayout();
  // globals
  json::Object globals;
  std::map<const Value *, std::string> gnames;
  std::function<json::Value(const Value *)> cval;
  std::map<const Value *, int> ids;
  auto locOf = [&](const DebugLoc &D) -> json::Value {
    if (!D) return nullptr;
    json::Array a;
    const DILocation *L = D.get();
    a.push_back(fpath(L));
    a.push_back((int64_t)L->getLine());
    for (L = L->getInlinedAt(); L; L = L->getInlinedAt()) a.push_back(fpath(L) + ":" + std::to_string(L->getLine()));
    return std::move(a);
  };
  auto gepPath = [&](const GEPOperator *G) -> json::Value {
    json::Array p;
    Type *T = G->getSourceElementType();
    auto *GI = dyn_cast<GetElementPtrInst>(G);
    unsigned lev = 0;
    bool first = true;
    for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
      const Value *V = I->get();
      auto *CI = dyn_cast<ConstantInt>(V);
      if (first) {
        first = false;
        if (CI && CI->isZero()) continue;
        json::Object o{{"k", "idx"}, {"ty", tagOf(GI, lev, tyStr(T))}, {"v", cval(V)}};
        p.push_back(std::move(o));
        continue;
      }
      if (auto *S = dyn_cast<StructType>(T)) {
        int k = CI->getSExtValue();
        std::string fn = "f" + std::to_string(k);
        std::string sn = tagOf(GI, lev, S->hasName() ? S->getName().str() : "");
        auto it = comps.find(sn);
        if (it == comps.end()) { // strip .N suffix
          auto pos = sn.rfind('.');
          if (pos != std::string::npos) it = comps.find(sn.substr(0, pos));
        }
        if (it != comps.end()) {
          uint64_t off = DL.getStructLayout(S)->getElementOffset(k);
          for (auto *E : it->second->getElements())
            if (auto *D = dyn_cast<DIDerivedType>(E))
              if (D->getTag() == dwarf::DW_TAG_member && D->getOffsetInBits() / 8 == off) { fn = D->getName().str(); break; }
        }
        p.push_back(json::Object{{"k", "fld"}, {"s", sn}, {"f", fn}});
        T = S->getElementType(k);
        lev++;
      } else {
        p.push_back(json::Object{{"k", "idx"}, {"ty", tagOf(GI, lev, tyStr(T))}, {"v", cval(V)}});
        if (auto *A = dyn_cast<ArrayType>(T)) { T = A->getElementType(); lev++; }
      }
    }
    return std::move(p);
  };
  cval = [&](const Value *V) -> json::Value {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) return json::Object{{"c", CI->getSExtValue()}, {"w", (int64_t)CI->getBitWidth()}};
      return json::Object{{"c", 0}, {"w", 128}};
    }
    if (isa<ConstantPointerNull>(V)) return json::Object{{"c", 0}, {"w", 64}, {"null", true}};
    if (isa<UndefValue>(V)) return json::Object{{"u", isa<PoisonValue>(V) ? "poison" : "undef"}};
    if (auto *F = dyn_cast<Function>(V)) return json::Object{{"fn", F->getName().str()}};
    if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Object{{"g", G->getName().str()}};
    if (auto *CF = dyn_cast<ConstantFP>(V)) return json::Object{{"fp", CF->getValueAPF().convertToDouble()}};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE))
        return json::Object{{"ce", "gep"}, {"base", cval(G->getPointerOperand())}, {"path", gepPath(G)}};
      return json::Object{{"ce", CE->getOpcodeName()}, {"base", cval(CE->getOperand(0))}};
    }
    auto it = ids.find(V);
    if (it != ids.end()) return json::Object{{"v", it->second}};
    if (auto *A = dyn_cast<ConstantAggregate>(V)) {
      json::Array a;
      for (auto &O : A->operands()) a.push_back(cval(O.get()));
      return json::Object{{"agg", std::move(a)}};
    }
    if (auto *D = dyn_cast<ConstantDataSequential>(V)) {
      if (D->isCString()) return json::Object{{"str", json::fixUTF8(D->getAsCString())}};
      json::Array a;
      for (unsigned i = 0; i < D->getNumElements(); i++) a.push_back(cval(D->getElementAsConstant(i)));
      return json::Object{{"agg", std::move(a)}};
    }
    if (isa<ConstantAggregateZero>(V)) return json::Object{{"zero", true}};
    return json::Object{{"x", "?"}};
  };
  for (auto &G : M->globals()) {
    json::Object o;
    o["const"] = G.isConstant();
    o["internal"] = G.hasLocalLinkage();
    o["decl"] = G.isDeclaration();
    o["ty"] = tyStr(G.getValueType());
    o["size"] = G.isDeclaration() ? 0 : (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue();
    if (G.hasInitializer()) o["init"] = cval(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *GV = GVs[0]->getVariable();
      o["name"] = GV->getName().str();
      o["file"] = fpath(GV);
      o["line"] = (int64_t)GV->getLine();
      o["dity"] = diType(GV->getType());
      if (auto *S = dyn_cast_or_null<DISubprogram>(GV->getScope())) o["scope"] = S->getName().str();
      else if (GV->getScope() && isa<DILocalScope>(GV->getScope())) o["scope"] = cast<DILocalScope>(GV->getScope())->getSubprogram()->getName().str();
    }
    globals[G.getName()] = std::move(o);
  }
  out["globals"] = std::move(globals);

  json::Object funcs;
  for (auto &F : *M) {
    json::Object fo;
    if (F.isIntrinsic() && F.isDeclaration() && F.getName().starts_with("llvm.dbg")) continue;
    fo["decl"] = F.isDeclaration();
    fo["internal"] = F.hasLocalLinkage();
    fo["ret"] = tyStr(F.getReturnType());
    fo["vararg"] = F.isVarArg();
    fo["addrtaken"] = F.hasAddressTaken();
    fo["noreturn"] = F.doesNotReturn();
    ids.clear();
    int n = 0;
    std::map<const Value *, std::string> vname;
    json::Array args;
    auto *SP = F.getSubprogram();
    if (SP) {
      fo["file"] = fpath(SP);
      fo["line"] = (int64_t)SP->getLine();
      json::Array tys;
      if (auto *ST = SP->getType())
        for (auto *T : ST->getTypeArray()) tys.push_back(diType(T));
      fo["dity"] = std::move(tys);
    }
    for (auto &A : F.args()) ids[&A] = n++;
    for (auto &B : F) for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          const DILocalVariable *LV = D->getVariable();
          for (unsigned k = 0; k < D->getNumVariableLocationOps(); k++) {
            Value *V = D->getVariableLocationOp(k);
            if (V && !vname.count(V)) vname[V] = LV->getName().str();
          }
        }
        continue;
      }
      ids[&I] = n++;
    }
    std::vector<std::string> pn(F.arg_size());
    if (SP) {
      for (auto &B : F) for (auto &I : B)
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          auto *LV = D->getVariable();
          if (LV->getArg() && LV->getArg() <= pn.size() && LV->getScope()->getSubprogram() == SP) pn[LV->getArg() - 1] = LV->getName().str();
        }
    }
    for (auto &A : F.args()) {
      std::string nm = pn[A.getArgNo()];
      args.push_back(json::Array{ids[&A], tyStr(A.getType()), nm});
    }
    fo["args"] = std::move(args);
    std::map<const BasicBlock *, int> bid;
    int bn = 0;
    for (auto &B : F) bid[&B] = bn++;
    json::Array blocks;
    for (auto &B : F) {
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["id"] = ids[&I];
        o["op"] = I.getOpcodeName();
        o["ty"] = tyStr(I.getType());
        if (I.getDebugLoc()) o["loc"] = locOf(I.getDebugLoc());
        auto it = vname.find(&I);
        if (it != vname.end()) o["nm"] = it->second;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array a;
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
            a.push_back(json::Array{bid[P->getIncomingBlock(k)], cval(P->getIncomingValue(k))});
          o["in"] = std::move(a);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          json::Array a;
          for (auto &A : CB->args()) a.push_back(cval(A.get()));
          o["a"] = std::move(a);
          o["callee"] = cval(CB->getCalledOperand());
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          o["a"] = json::Array{cval(G->getPointerOperand())};
          o["path"] = gepPath(cast<GEPOperator>(G));
        } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
          json::Array s;
          for (unsigned k = 0; k < BI->getNumSuccessors(); k++) s.push_back(bid[BI->getSuccessor(k)]);
          o["succ"] = std::move(s);
          if (BI->isConditional()) o["a"] = json::Array{cval(BI->getCondition())};
        } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          o["a"] = json::Array{cval(SW->getCondition())};
          json::Array cs;
          for (auto &cse : SW->cases()) cs.push_back(json::Array{cse.getCaseValue()->getSExtValue(), bid[cse.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["succ"] = json::Array{bid[SW->getDefaultDest()]};
        } else {
          json::Array a;
          for (auto &O : I.operands()) a.push_back(cval(O.get()));
          o["a"] = std::move(a);
          if (auto *CI = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str();
          if (auto *AI = dyn_cast<AllocaInst>(&I)) {
            o["aty"] = tagOf(AI, 0, tyStr(AI->getAllocatedType()));
            o["size"] = (int64_t)DL.getTypeAllocSize(AI->getAllocatedType()).getFixedValue();
          }
        }
        is.push_back(std::move(o));
      }
      blocks.push_back(std::move(is));
    }
    fo["blocks"] = std::move(blocks);
    funcs[F.getName()] = std::move(fo);
  }
  out["funcs"] = std::move(funcs);
  out["inlined"] = std::move(inlined);
  std::error_code EC;
  raw_fd_ostream OS(argv[1], EC);
  OS << json::Value(std::move(out));
  return 0;
}
