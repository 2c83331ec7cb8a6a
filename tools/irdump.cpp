// irdump: reads an LLVM bitcode file, promotes scalars to SSA (mem2reg), optionally
// inlines small file-local helper functions, and prints the resolved program as JSON
// (functions, CFG, instructions, struct layouts, globals) for the Python analyses.
#include "llvm/AsmParser/Parser.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string tyStr(DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return tyStr(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + tyStr(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + tyStr(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: {
      DIType *BT = D->getBaseType();
      DIType *C = BT;
      while (C && isa<DIDerivedType>(C) && cast<DIDerivedType>(C)->getTag() == dwarf::DW_TAG_typedef)
        C = cast<DIDerivedType>(C)->getBaseType();
      if (auto *CT = dyn_cast_or_null<DICompositeType>(C))
        if (CT->getName().empty()) return "struct " + D->getName().str();
      return tyStr(BT, depth + 1);
    }
    default: return tyStr(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    std::string n = C->getName().str();
    switch (C->getTag()) {
    case dwarf::DW_TAG_structure_type: return "struct " + n;
    case dwarf::DW_TAG_union_type: return "union " + n;
    case dwarf::DW_TAG_enumeration_type: return "enum " + n;
    case dwarf::DW_TAG_array_type: return tyStr(C->getBaseType(), depth + 1) + "[]";
    default: return n;
    }
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

struct Dumper {
  Module &M;
  json::OStream J;
  const DataLayout &DL;
  DebugInfoFinder Finder;
  std::map<std::string, DICompositeType *> structs;
  Dumper(Module &M, raw_ostream &OS) : M(M), J(OS), DL(M.getDataLayout()) {
    Finder.processModule(M);
    for (DIType *T : Finder.types())
      if (auto *C = dyn_cast<DICompositeType>(T))
        if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) &&
            C->getElements().size() && !C->getName().empty())
          structs[C->getName().str()] = C;
    // typedef'd anonymous structs
    for (DIType *T : Finder.types())
      if (auto *D = dyn_cast<DIDerivedType>(T))
        if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
            if (C->getName().empty() && C->getTag() == dwarf::DW_TAG_structure_type)
              structs.insert({D->getName().str(), C});
  }

  std::string structName(StructType *ST) {
    if (!ST->hasName()) return "";
    std::string n = ST->getName().str();
    for (const char *p : {"struct.", "union."})
      if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
    return n;
  }
  std::string fieldName(StructType *ST, unsigned idx) {
    std::string sn = structName(ST);
    auto it = structs.find(sn);
    if (it == structs.end()) {
      // strip numeric suffix
      auto p = sn.rfind('.');
      if (p != std::string::npos) it = structs.find(sn.substr(0, p));
    }
    if (it != structs.end()) {
      uint64_t off = DL.getStructLayout(ST)->getElementOffsetInBits(idx);
      for (auto *E : it->second->getElements())
        if (auto *D = dyn_cast_or_null<DIDerivedType>(E))
          if (D->getTag() == dwarf::DW_TAG_member && D->getOffsetInBits() == off)
            return D->getName().empty() ? ("f" + std::to_string(idx)) : D->getName().str();
    }
    return "f" + std::to_string(idx);
  }

  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;

  // path of a GEP: list of ["f", struct, field] / ["i", constant or operand]
  void gepPath(const GEPOperator *G) {
    J.array([&] {
      Type *T = G->getSourceElementType();
      bool first = true;
      for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
        Value *V = *I;
        if (first) {
          first = false;
          auto *CI = dyn_cast<ConstantInt>(V);
          if (!(CI && CI->isZero()))
            J.array([&] { J.value("p"); op(V); J.value((int64_t)DL.getTypeAllocSize(T).getFixedValue()); });
          continue;
        }
        if (auto *ST = dyn_cast<StructType>(T)) {
          unsigned idx = cast<ConstantInt>(V)->getZExtValue();
          J.array([&] { J.value("f"); J.value(structName(ST)); J.value(fieldName(ST, idx)); });
          T = ST->getElementType(idx);
        } else {
          Type *E = GetElementPtrInst::getTypeAtIndex(T, V);
          J.array([&] { J.value("i"); op(V); J.value((int64_t)DL.getTypeAllocSize(E).getFixedValue()); });
          T = E;
        }
      }
    });
  }

  void op(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      J.array([&] { J.value("c"); 
        if (CI->getBitWidth() <= 64) J.value((int64_t)CI->getSExtValue()); else J.value(0);
        J.value((int64_t)CI->getBitWidth()); });
    } else if (isa<ConstantPointerNull>(V)) {
      J.array([&] { J.value("n"); });
    } else if (isa<UndefValue>(V)) {
      J.array([&] { J.value("u"); });
    } else if (auto *F = dyn_cast<Function>(V)) {
      J.array([&] { J.value("f"); J.value(F->getName()); });
    } else if (auto *G = dyn_cast<GlobalVariable>(V)) {
      if (G->isConstant() && G->hasInitializer() && G->hasPrivateLinkage())
        if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (CD->isCString()) {
            std::string s = CD->getAsCString().str();
            J.array([&] { J.value("s"); J.value(json::fixUTF8(s)); });
            return;
          }
      if (G->isConstant() && G->hasInitializer() && G->hasPrivateLinkage() && G->getInitializer()->isZeroValue() &&
          G->getValueType()->isArrayTy()) {
        J.array([&] { J.value("s"); J.value(""); });
        return;
      }
      J.array([&] { J.value("g"); J.value(G->getName()); });
    } else if (auto *GO = dyn_cast<GEPOperator>(V); GO && isa<Constant>(V)) {
      J.array([&] { J.value("ce"); op(GO->getPointerOperand()); gepPath(GO); });
    } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; CF->getValueAPF().toString(s);
      J.array([&] { J.value("fp"); J.value(std::string(s)); });
    } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (CE->isCast()) { op(CE->getOperand(0)); return; }
      J.array([&] { J.value("x"); });
    } else if (auto *C = dyn_cast<Constant>(V)) {
      J.array([&] { J.value("x"); });
    } else if (isa<MetadataAsValue>(V)) {
      J.array([&] { J.value("x"); });
    } else if (auto *B = dyn_cast<BasicBlock>(V)) {
      J.array([&] { J.value("b"); J.value(bids[B]); });
    } else {
      auto it = ids.find(V);
      if (it == ids.end()) J.array([&] { J.value("x"); });
      else J.array([&] { J.value("v"); J.value(it->second); });
    }
  }

  static std::string llty(Type *T) {
    if (T->isPointerTy()) return "ptr";
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (T->isFloatTy()) return "float";
    if (T->isDoubleTy()) return "double";
    if (T->isVoidTy()) return "void";
    if (auto *ST = dyn_cast<StructType>(T)) return ST->hasName() ? ST->getName().str() : "{}";
    if (T->isArrayTy()) return "[]";
    return "?";
  }

  void loc(const DebugLoc &L) {
    if (!L) return;
    J.attribute("l", (int64_t)L.getLine());
    J.attribute("col", (int64_t)L.getCol());
    if (auto *IA = L.getInlinedAt()) {
      auto *SP = L->getScope()->getSubprogram();
      J.attribute("infn", SP ? SP->getName() : "");
      J.attribute("infile", L->getFilename());
    }
  }

  void initializer(const Constant *C, int depth = 0) {
    if (depth > 6) { J.value(nullptr); return; }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      J.object([&] {
        auto *ST = S->getType();
        J.attribute("struct", structName(ST));
        J.attributeBegin("fields");
        J.object([&] {
          for (unsigned i = 0; i < S->getNumOperands(); i++) {
            J.attributeBegin(fieldName(ST, i));
            initializer(S->getOperand(i), depth + 1);
            J.attributeEnd();
          }
        });
        J.attributeEnd();
      });
    } else if (auto *A = dyn_cast<ConstantArray>(C)) {
      J.array([&] { for (unsigned i = 0; i < A->getNumOperands(); i++) initializer(A->getOperand(i), depth + 1); });
    } else if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      if (D->isString()) {
        std::string s = D->getAsString().str();
        while (!s.empty() && s.back() == 0) s.pop_back();
        J.array([&] { J.value("s"); J.value(json::fixUTF8(s)); });
      } else
        J.array([&] { for (unsigned i = 0; i < D->getNumElements(); i++) initializer(D->getElementAsConstant(i), depth + 1); });
    } else if (isa<ConstantAggregateZero>(C)) {
      if (auto *ST = dyn_cast<StructType>(C->getType()))
        J.object([&] {
          J.attribute("struct", structName(ST));
          J.attribute("zero", true);
          J.attributeBegin("fields"); J.object([&] {
            for (unsigned i = 0; i < ST->getNumElements(); i++) {
              J.attributeBegin(fieldName(ST, i));
              initializer(Constant::getNullValue(ST->getElementType(i)), depth + 1);
              J.attributeEnd();
            }
          }); J.attributeEnd();
        });
      else
        J.array([&] { J.value("z"); });
    } else
      op(C);
  }

  void run() {
    J.object([&] {
      J.attribute("module", M.getSourceFileName());
      J.attributeBegin("structs");
      J.object([&] {
        for (auto &kv : structs) {
          J.attributeBegin(kv.first);
          J.object([&] {
            J.attribute("size", (int64_t)kv.second->getSizeInBits() / 8);
            J.attribute("file", kv.second->getFile() ? kv.second->getFile()->getFilename() : "");
            J.attributeBegin("members");
            J.array([&] {
              for (auto *E : kv.second->getElements())
                if (auto *D = dyn_cast_or_null<DIDerivedType>(E))
                  if (D->getTag() == dwarf::DW_TAG_member)
                    J.array([&] {
                      J.value(D->getName());
                      J.value((int64_t)D->getOffsetInBits());
                      J.value((int64_t)D->getSizeInBits());
                      J.value(tyStr(D->getBaseType()));
                    });
            });
            J.attributeEnd();
          });
          J.attributeEnd();
        }
      });
      J.attributeEnd();
      J.attributeBegin("enums");
      J.object([&] {
        std::set<std::string> seen;
        for (DIType *T : Finder.types())
          if (auto *C = dyn_cast<DICompositeType>(T))
            if (C->getTag() == dwarf::DW_TAG_enumeration_type && C->getElements().size()) {
              std::string n = C->getName().str();
              if (n.empty()) n = "anon" + std::to_string(C->getLine());
              if (!seen.insert(n).second) continue;
              J.attributeBegin(n);
              J.object([&] {
                std::set<std::string> s2;
                for (auto *E : C->getElements())
                  if (auto *En = dyn_cast_or_null<DIEnumerator>(E))
                    if (s2.insert(En->getName().str()).second)
                      J.attribute(En->getName(), (int64_t)En->getValue().getSExtValue());
              });
              J.attributeEnd();
            }
      });
      J.attributeEnd();
      J.attributeBegin("globals");
      J.object([&] {
        for (auto &G : M.globals()) {
          if (G.getName().starts_with("llvm.")) continue;
          if (G.hasPrivateLinkage() && !G.hasInitializer()) continue;
          if (G.hasPrivateLinkage() && isa<ConstantDataSequential>(G.getInitializer()) &&
              cast<ConstantDataSequential>(G.getInitializer())->isCString()) continue;
          if (!G.hasName()) continue;
          J.attributeBegin(G.getName());
          J.object([&] {
            J.attribute("const", G.isConstant());
            J.attribute("decl", G.isDeclaration());
            J.attribute("internal", G.hasLocalLinkage());
            J.attribute("tls", G.isThreadLocal());
            SmallVector<DIGlobalVariableExpression *, 1> GVs;
            G.getDebugInfo(GVs);
            if (!GVs.empty()) {
              auto *V = GVs[0]->getVariable();
              J.attribute("type", tyStr(V->getType()));
              J.attribute("line", (int64_t)V->getLine());
              J.attribute("file", V->getFilename());
              J.attribute("local", V->getScope() && (isa<DISubprogram>(V->getScope()) || isa<DILexicalBlockBase>(V->getScope())));
            }
            if (G.hasInitializer()) {
              J.attributeBegin("init");
              initializer(G.getInitializer());
              J.attributeEnd();
            }
          });
          J.attributeEnd();
        }
      });
      J.attributeEnd();
      J.attributeBegin("functions");
      J.array([&] {
        for (auto &F : M) {
          if (F.isIntrinsic()) continue;
          function(F);
        }
      });
      J.attributeEnd();
    });
  }

  void function(Function &F) {
    ids.clear(); bids.clear();
    int n = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    std::map<const Value *, std::string> names;
    for (auto &BB : F) {
      bids[&BB] = bids.size();
      for (auto &I : BB) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (DV->getNumVariableLocationOps() == 1)
            if (Value *V = DV->getVariableLocationOp(0)) names.insert({V, DV->getVariable()->getName().str()});
          continue;
        }
        ids[&I] = n++;
      }
    }
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("decl", F.isDeclaration());
      J.attribute("internal", F.hasLocalLinkage());
      J.attribute("vararg", F.isVarArg());
      J.attribute("noreturn", F.doesNotReturn());
      if (auto *SP = F.getSubprogram()) {
        J.attribute("file", SP->getFilename());
        J.attribute("line", (int64_t)SP->getLine());
        if (auto *T = SP->getType()) {
          auto TA = T->getTypeArray();
          J.attributeBegin("sig");
          J.array([&] { for (unsigned i = 0; i < TA.size(); i++) J.value(tyStr(TA[i])); });
          J.attributeEnd();
        }
      }
      J.attribute("nargs", (int64_t)F.arg_size());
      J.attribute("ret", llty(F.getReturnType()));
      if (F.isDeclaration()) return;
      J.attributeBegin("argnames");
      J.array([&] {
        for (auto &A : F.args()) { auto it = names.find(&A); J.value(it != names.end() ? it->second : A.getName().str()); }
      });
      J.attributeEnd();
      J.attributeBegin("blocks");
      J.array([&] {
        for (auto &BB : F) {
          J.array([&] {
            for (auto &I : BB) {
              if (isa<DbgInfoIntrinsic>(&I)) continue;
              if (auto *II = dyn_cast<IntrinsicInst>(&I))
                if (II->getIntrinsicID() == Intrinsic::lifetime_start || II->getIntrinsicID() == Intrinsic::lifetime_end)
                  continue;
              inst(I, names);
            }
          });
        }
      });
      J.attributeEnd();
    });
  }

  void inst(Instruction &I, std::map<const Value *, std::string> &names) {
    J.object([&] {
      J.attribute("i", ids[&I]);
      if (!I.getType()->isVoidTy()) J.attribute("t", llty(I.getType()));
      auto it = names.find(&I);
      if (it != names.end()) J.attribute("name", it->second);
      loc(I.getDebugLoc());
      auto ops = [&](const char *nm, std::initializer_list<const Value *> L) {
        J.attributeBegin(nm); J.array([&] { for (auto *V : L) op(V); }); J.attributeEnd();
      };
      if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("op", "load"); ops("a", {L->getPointerOperand()}); }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("op", "store"); ops("a", {S->getValueOperand(), S->getPointerOperand()});
        J.attribute("vt", llty(S->getValueOperand()->getType())); }
      else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("op", "alloca"); J.attribute("ty", llty(A->getAllocatedType()));
        if (A->getAllocatedType()->isSized()) J.attribute("size", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getKnownMinValue());
        ops("a", {A->getArraySize()}); }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        J.attribute("op", "gep"); ops("a", {G->getPointerOperand()});
        J.attributeBegin("path"); gepPath(cast<GEPOperator>(G)); J.attributeEnd(); }
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        J.attribute("op", "call");
        J.attributeBegin("callee"); op(C->getCalledOperand()); J.attributeEnd();
        J.attributeBegin("a"); J.array([&] { for (auto &A : C->args()) op(A.get()); }); J.attributeEnd();
        J.attributeBegin("at"); J.array([&] { for (auto &A : C->args()) J.value(llty(A->getType())); }); J.attributeEnd();
        if (C->doesNotReturn()) J.attribute("noreturn", true);
      }
      else if (auto *B = dyn_cast<BranchInst>(&I)) {
        J.attribute("op", "br");
        if (B->isConditional()) { ops("a", {B->getCondition()});
          J.attributeBegin("succ"); J.array([&] { J.value(bids[B->getSuccessor(0)]); J.value(bids[B->getSuccessor(1)]); }); J.attributeEnd(); }
        else { J.attributeBegin("succ"); J.array([&] { J.value(bids[B->getSuccessor(0)]); }); J.attributeEnd(); }
      }
      else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attribute("op", "switch"); ops("a", {S->getCondition()});
        J.attribute("default", bids[S->getDefaultDest()]);
        J.attributeBegin("cases"); J.array([&] { for (auto &c : S->cases()) J.array([&] {
          J.value((int64_t)c.getCaseValue()->getSExtValue()); J.value(bids[c.getCaseSuccessor()]); }); }); J.attributeEnd();
      }
      else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attribute("op", "phi");
        J.attributeBegin("in"); J.array([&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&] {
          op(P->getIncomingValue(i)); J.value(bids[P->getIncomingBlock(i)]); }); }); J.attributeEnd();
      }
      else if (auto *C = dyn_cast<CmpInst>(&I)) { J.attribute("op", isa<ICmpInst>(C) ? "icmp" : "fcmp");
        J.attribute("pred", CmpInst::getPredicateName(C->getPredicate())); ops("a", {C->getOperand(0), C->getOperand(1)});
        J.attribute("ot", llty(C->getOperand(0)->getType())); }
      else if (auto *R = dyn_cast<ReturnInst>(&I)) { J.attribute("op", "ret"); if (R->getReturnValue()) ops("a", {R->getReturnValue()}); }
      else if (isa<UnreachableInst>(&I)) { J.attribute("op", "unreachable"); }
      else if (auto *S = dyn_cast<SelectInst>(&I)) { J.attribute("op", "select"); ops("a", {S->getCondition(), S->getTrueValue(), S->getFalseValue()}); }
      else if (auto *C = dyn_cast<CastInst>(&I)) { J.attribute("op", "cast"); J.attribute("kind", I.getOpcodeName()); ops("a", {C->getOperand(0)});
        J.attribute("ot", llty(C->getOperand(0)->getType())); }
      else if (auto *B = dyn_cast<BinaryOperator>(&I)) { J.attribute("op", "bin"); J.attribute("kind", I.getOpcodeName()); ops("a", {B->getOperand(0), B->getOperand(1)});
        if (isa<OverflowingBinaryOperator>(B)) J.attribute("nsw", B->hasNoSignedWrap()); }
      else { J.attribute("op", "other"); J.attribute("kind", I.getOpcodeName());
        J.attributeBegin("a"); J.array([&] { for (auto &O : I.operands()) op(O.get()); }); J.attributeEnd(); }
    });
  }
};

static void promote(Function &F) {
  if (F.isDeclaration()) return;
  removeUnreachableBlocks(F);
  DominatorTree DT(F);
  AssumptionCache AC(F);
  while (true) {
    std::vector<AllocaInst *> As;
    for (auto &I : F.getEntryBlock())
      if (auto *A = dyn_cast<AllocaInst>(&I))
        if (isAllocaPromotable(A)) As.push_back(A);
    if (As.empty()) break;
    PromoteMemToReg(As, DT, &AC);
  }
}

static size_t fsize(Function &F) {
  size_t n = 0;
  for (auto &BB : F) for (auto &I : BB) if (!isa<DbgInfoIntrinsic>(I)) n++;
  return n;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc out.json [inline-limit]\n"; return 2; }
  int limit = argc > 3 ? atoi(argv[3]) : 0;
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  for (auto &F : *M) promote(F);
  if (limit > 0) {
    // functions that (transitively) call themselves are not inlined
    CallGraph CG(*M);
    auto reaches = [&](Function *S) {
      std::set<Function *> seen; std::vector<Function *> wl{S};
      while (!wl.empty()) { Function *F = wl.back(); wl.pop_back();
        for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *T = CB->getCalledFunction()) {
          if (T == S) return true; if (!T->isDeclaration() && seen.insert(T).second) wl.push_back(T); } }
      return false; };
    std::set<Function *> can;
    for (auto &F : *M) if (!F.isDeclaration() && F.hasLocalLinkage() && !F.isVarArg() && !(F.getSubprogram() && F.getSubprogram()->getFilename().starts_with("/usr/")) && (int)fsize(F) <= limit && !reaches(&F)) can.insert(&F);
    for (int round = 0; round < 8; round++) {
      bool changed = false;
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        std::vector<CallBase *> calls;
        for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *T = CB->getCalledFunction()) if (can.count(T) && T != &F) calls.push_back(CB);
        for (auto *CB : calls) { if (fsize(F) > 6000) break; InlineFunctionInfo IFI; if (InlineFunction(*CB, IFI).isSuccess()) changed = true; }
      }
      if (!changed) break;
    }
    for (auto &F : *M) promote(F);
  }
  std::error_code EC;
  raw_fd_ostream OS(argv[2], EC);
  Dumper D(*M, OS);
  D.run();
  return 0;
}
