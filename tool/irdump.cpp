// irdump: parse LLVM IR / bitcode and print the functions reachable from the
// named roots as JSON, with every type, constant and address computation
// resolved.  Used by the Python analyses in /verif/lib.
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
using namespace llvm;

static const DataLayout* DL;
static json::OStream* J;
static std::map<const Value*, int> Ids;
static std::set<const GlobalVariable*> Globals;
static std::vector<const GlobalVariable*> GlobalQ;
static std::map<std::vector<std::string>, int> Locs;
static std::vector<std::vector<std::string>> LocList;

static std::string ty(Type* T)
{
  std::string s;
  raw_string_ostream os(s);
  if(T->isDoubleTy()) return "f64";
  if(T->isFloatTy()) return "f32";
  if(T->isX86_FP80Ty()) return "f80";
  if(T->isPointerTy()) return "p";
  if(T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if(T->isVoidTy()) return "void";
  if(auto* V = dyn_cast<FixedVectorType>(T))
    return "v" + std::to_string(V->getNumElements()) + ":"
      + ty(V->getElementType());
  if(auto* A = dyn_cast<ArrayType>(T))
    return "a" + std::to_string(A->getNumElements()) + ":"
      + ty(A->getElementType());
  if(auto* S = dyn_cast<StructType>(T)) {
    std::string r = "s" + std::to_string(S->getNumElements()) + "(";
    for(auto* E : S->elements()) r += ty(E) + ",";
    return r + ")";
  }
  T->print(os);
  return "?" + os.str();
}

static void constant(const Constant* C);

static void gep(const GEPOperator* G, bool isconst);

static void operand(const Value* V)
{
  auto it = Ids.find(V);
  if(it != Ids.end()) {
    J->value(it->second);
    return;
  }
  if(auto* C = dyn_cast<Constant>(V)) {
    constant(C);
    return;
  }
  J->arrayBegin();
  J->value("other");
  J->arrayEnd();
}

static std::string fpstr(const APFloat& F)
{
  SmallString<64> s;
  if(F.isNaN()) return "nan";
  if(F.isInfinity()) return F.isNegative() ? "-inf" : "inf";
  if(&F.getSemantics() == &APFloat::IEEEdouble()
    || &F.getSemantics() == &APFloat::IEEEsingle()) {
    char b[64];
    F.convertToHexString(b, 0, false, APFloat::rmNearestTiesToEven);
    return b;
  }
  APFloat G = F;
  bool l;
  G.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
  char b[64];
  G.convertToHexString(b, 0, false, APFloat::rmNearestTiesToEven);
  return b;
}

static void constant(const Constant* C)
{
  J->array([&] {
    if(auto* I = dyn_cast<ConstantInt>(C)) {
      J->value("i");
      J->value(I->getBitWidth());
      SmallString<40> s;
      I->getValue().toStringSigned(s);
      J->value(StringRef(s));
    } else if(auto* F = dyn_cast<ConstantFP>(C)) {
      J->value("f");
      J->value(fpstr(F->getValueAPF()));
    } else if(isa<ConstantPointerNull>(C)) {
      J->value("null");
    } else if(isa<PoisonValue>(C)) {
      J->value("poison");
      J->value(ty(C->getType()));
    } else if(isa<UndefValue>(C)) {
      J->value("undef");
      J->value(ty(C->getType()));
    } else if(isa<ConstantAggregateZero>(C)) {
      J->value("zero");
      J->value(ty(C->getType()));
    } else if(auto* D = dyn_cast<ConstantDataSequential>(C)) {
      J->value("agg");
      J->array([&] {
        for(unsigned i = 0; i < D->getNumElements(); ++i)
          constant(D->getElementAsConstant(i));
      });
    } else if(auto* A = dyn_cast<ConstantAggregate>(C)) {
      J->value("agg");
      J->array([&] {
        for(unsigned i = 0; i < A->getNumOperands(); ++i)
          constant(cast<Constant>(A->getOperand(i)));
      });
    } else if(auto* F = dyn_cast<Function>(C)) {
      J->value("fn");
      J->value(F->getName());
    } else if(auto* G = dyn_cast<GlobalVariable>(C)) {
      J->value("g");
      J->value(G->getName());
      if(Globals.insert(G).second) GlobalQ.push_back(G);
    } else if(auto* G = dyn_cast<GlobalAlias>(C)) {
      J->value("g");
      J->value(G->getName());
    } else if(auto* E = dyn_cast<ConstantExpr>(C)) {
      if(auto* G = dyn_cast<GEPOperator>(E)) {
        J->value("gep");
        gep(G, true);
      } else {
        J->value("ce");
        J->value(E->getOpcodeName());
        for(unsigned i = 0; i < E->getNumOperands(); ++i)
          constant(cast<Constant>(E->getOperand(i)));
      }
    } else {
      J->value("?");
    }
  });
}

static void gep(const GEPOperator* G, bool)
{
  /* base, constant byte offset, [[index, scale]...] */
  operand(G->getPointerOperand());
  APInt Off(64, 0);
  MapVector<Value*, APInt> Var;
  if(G->collectOffset(*DL, 64, Var, Off)) {
    J->value(Off.getSExtValue());
    J->array([&] {
      for(auto& P : Var) {
        J->array([&] {
          operand(P.first);
          J->value(P.second.getSExtValue());
        });
      }
    });
  } else {
    J->value("fail");
  }
}

static int loc(const DebugLoc& D)
{
  std::vector<std::string> v;
  const DILocation* L = D.get();
  while(L) {
    std::string fn;
    if(auto* SP = L->getScope()->getSubprogram()) fn = SP->getName().str();
    v.push_back(
      (L->getFilename() + ":" + Twine(L->getLine()) + ":" + fn).str());
    L = L->getInlinedAt();
  }
  auto it = Locs.find(v);
  if(it != Locs.end()) return it->second;
  int n = (int) LocList.size();
  Locs[v] = n;
  LocList.push_back(v);
  return n;
}

static void inst(const Instruction& I)
{
  J->arrayBegin();
  J->value(Ids[&I]);
  J->value(I.getOpcodeName());
  J->value(ty(I.getType()));
  J->value(I.getDebugLoc() ? loc(I.getDebugLoc()) : -1);
  auto ops = [&](const User& U) {
    for(auto& O : U.operands()) operand(O.get());
  };
  if(auto* P = dyn_cast<PHINode>(&I)) {
    for(unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
      J->arrayBegin();
      J->value(Ids[P->getIncomingBlock(i)]);
      operand(P->getIncomingValue(i));
      J->arrayEnd();
    }
  } else if(auto* G = dyn_cast<GEPOperator>(&I)) {
    gep(G, false);
  } else if(auto* L = dyn_cast<LoadInst>(&I)) {
    operand(L->getPointerOperand());
    J->value((int64_t) DL->getTypeStoreSize(L->getType()).getFixedValue());
    J->value(L->isVolatile());
  } else if(auto* S = dyn_cast<StoreInst>(&I)) {
    operand(S->getValueOperand());
    operand(S->getPointerOperand());
    J->value((int64_t) DL->getTypeStoreSize(S->getValueOperand()->getType())
               .getFixedValue());
    J->value(ty(S->getValueOperand()->getType()));
    J->value(S->isVolatile());
  } else if(auto* A = dyn_cast<AllocaInst>(&I)) {
    J->value((int64_t) DL->getTypeAllocSize(A->getAllocatedType())
               .getFixedValue());
    operand(A->getArraySize());
  } else if(auto* C = dyn_cast<CmpInst>(&I)) {
    J->value(CmpInst::getPredicateName(C->getPredicate()));
    operand(C->getOperand(0));
    operand(C->getOperand(1));
    J->value(ty(C->getOperand(0)->getType()));
  } else if(auto* C = dyn_cast<CastInst>(&I)) {
    operand(C->getOperand(0));
    J->value(ty(C->getOperand(0)->getType()));
  } else if(auto* B = dyn_cast<BranchInst>(&I)) {
    if(B->isConditional()) {
      operand(B->getCondition());
      J->value(Ids[B->getSuccessor(0)]);
      J->value(Ids[B->getSuccessor(1)]);
    } else
      J->value(Ids[B->getSuccessor(0)]);
  } else if(auto* S = dyn_cast<SwitchInst>(&I)) {
    operand(S->getCondition());
    J->value(Ids[S->getDefaultDest()]);
    J->array([&] {
      for(auto& c : S->cases()) {
        J->arrayBegin();
        J->value(c.getCaseValue()->getSExtValue());
        J->value(Ids[c.getCaseSuccessor()]);
        J->arrayEnd();
      }
    });
  } else if(auto* C = dyn_cast<CallBase>(&I)) {
    /* callee, args, attrs[, normal, unwind] */
    operand(C->getCalledOperand()->stripPointerCasts());
    J->array([&] {
      for(auto& A : C->args()) {
        if(isa<MetadataAsValue>(A.get()))
          J->array([&] { J->value("md"); });
        else
          operand(A.get());
      }
    });
    J->object([&] {
      J->attribute("nounwind", C->doesNotThrow());
      J->attribute("noreturn", C->doesNotReturn());
      J->attribute("readonly", C->onlyReadsMemory());
      J->attribute("argtypes", json::Array{});
      J->attributeArray("byval", [&] {
        for(unsigned i = 0; i < C->arg_size(); ++i)
          if(C->isByValArgument(i))
            J->value((int64_t) DL->getTypeAllocSize(C->getParamByValType(i)));
          else
            J->value(0);
      });
      J->attributeArray("types", [&] {
        for(auto& A : C->args()) J->value(ty(A->getType()));
      });
    });
    if(auto* V = dyn_cast<InvokeInst>(C)) {
      J->value(Ids[V->getNormalDest()]);
      J->value(Ids[V->getUnwindDest()]);
    }
  } else if(auto* X = dyn_cast<ExtractValueInst>(&I)) {
    operand(X->getAggregateOperand());
    J->array([&] {
      for(auto k : X->indices()) J->value(k);
    });
  } else if(auto* X = dyn_cast<InsertValueInst>(&I)) {
    operand(X->getAggregateOperand());
    operand(X->getInsertedValueOperand());
    J->array([&] {
      for(auto k : X->indices()) J->value(k);
    });
  } else if(auto* X = dyn_cast<ShuffleVectorInst>(&I)) {
    operand(X->getOperand(0));
    operand(X->getOperand(1));
    J->array([&] {
      for(int k : X->getShuffleMask()) J->value(k);
    });
  } else if(auto* X = dyn_cast<LandingPadInst>(&I)) {
    J->value(X->isCleanup());
    J->array([&] {
      for(unsigned k = 0; k < X->getNumClauses(); ++k)
        J->value(std::string(X->isCatch(k) ? "catch:" : "filter:")
          + X->getClause(k)->stripPointerCasts()->getName().str());
    });
  } else {
    ops(I);
  }
  J->arrayEnd();
}

static void callees(const Function& F, std::vector<const Function*>& out)
{
  for(auto& B : F)
    for(auto& I : B) {
      if(auto* C = dyn_cast<CallBase>(&I)) {
        if(auto* G = dyn_cast<Function>(
             C->getCalledOperand()->stripPointerCasts()))
          out.push_back(G);
      }
      // functions whose address is taken may be called through a pointer
      for(auto& A : I.operands())
        if(A->getType()->isPointerTy())
          if(auto* G = dyn_cast<Function>(A->stripPointerCasts()))
            out.push_back(G);
    }
}

int main(int argc, char** argv)
{
  if(argc < 2) return 2;
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if(!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  DL = &M->getDataLayout();
  json::OStream JS(outs());
  J = &JS;
  std::set<std::string> prefix;
  for(int i = 2; i < argc; ++i) prefix.insert(argv[i]);
  std::set<const Function*> seen;
  std::vector<const Function*> q;
  for(auto& F : *M) {
    if(F.isDeclaration()) continue;
    bool take = prefix.empty();
    for(auto& p : prefix) take = take || F.getName().starts_with(p);
    if(take && seen.insert(&F).second) q.push_back(&F);
  }
  for(size_t i = 0; i < q.size(); ++i) {
    std::vector<const Function*> c;
    callees(*q[i], c);
    for(auto* F : c)
      if(seen.insert(F).second) q.push_back(F);
  }
  J->objectBegin();
  J->attributeArray("functions", [&] {
    for(auto* F : q) {
      Ids.clear();
      int n = 0;
      for(auto& A : F->args()) Ids[&A] = n++;
      for(auto& B : *F) {
        Ids[&B] = n++;
      }
      for(auto& B : *F)
        for(auto& I : B) Ids[&I] = n++;
      J->object([&] {
        J->attribute("name", F->getName());
        J->attribute("decl", F->isDeclaration());
        J->attribute("nounwind", F->doesNotThrow());
        std::string file;
        int line = 0;
        if(auto* SP = F->getSubprogram()) {
          file = SP->getFilename().str();
          line = SP->getLine();
        }
        J->attribute("file", file);
        J->attribute("line", line);
        J->attribute("ret", ty(F->getReturnType()));
        J->attributeArray("args", [&] {
          for(auto& A : F->args()) {
            J->arrayBegin();
            J->value(Ids[&A]);
            J->value(ty(A.getType()));
            J->value((int64_t) A.getDereferenceableBytes());
            J->arrayEnd();
          }
        });
        J->attributeArray("blocks", [&] {
          for(auto& B : *F) {
            J->arrayBegin();
            J->value(Ids[&B]);
            J->array([&] {
              for(auto& I : B) {
                if(isa<DbgInfoIntrinsic>(I)) continue;
                inst(I);
              }
            });
            J->arrayEnd();
          }
        });
      });
    }
  });
  Ids.clear();
  J->attributeArray("globals", [&] {
    for(size_t i = 0; i < GlobalQ.size(); ++i) {
      auto* G = GlobalQ[i];
      J->object([&] {
        J->attribute("name", G->getName());
        J->attribute("constant", G->isConstant());
        J->attribute("decl", G->isDeclaration());
        J->attribute("size",
          (int64_t) (G->getValueType()->isSized()
              ? DL->getTypeAllocSize(G->getValueType()).getFixedValue()
              : 0));
        J->attribute("type", ty(G->getValueType()));
        J->attribute("tls", G->isThreadLocal());
        if(G->hasInitializer() && G->isConstant()) {
          J->attributeBegin("init");
          constant(G->getInitializer());
          J->attributeEnd();
        }
      });
    }
  });
  J->attributeArray("locs", [&] {
    for(auto& v : LocList)
      J->array([&] {
        for(auto& s : v) J->value(s);
      });
  });
  J->objectEnd();
  return 0;
}
