// irdump FILE.ll|.bc PREFIX : JSON of every function whose name starts with PREFIX, plus constant globals they use
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> id;
static std::set<const GlobalVariable *> globs;
static json::Value val(const Value *V);
static std::string fpstr(const APFloat &F) { APFloat G(F); bool l; G.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); char b[64]; snprintf(b, 64, "%.17g", G.convertToDouble()); return b; }
static json::Value gepVal(const GEPOperator *G) {
  MapVector<Value *, APInt> var; APInt c(64, 0);
  json::Object o; o["p"] = val(G->getPointerOperand());
  if (!G->collectOffset(*DL, 64, var, c)) { o["top"] = true; return json::Value(json::Object{{"gep", std::move(o)}}); }
  o["o"] = c.getSExtValue();
  json::Array A; for (auto &kv : var) A.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
  o["v"] = std::move(A);
  return json::Value(json::Object{{"gep", std::move(o)}});
}
static json::Value val(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"a", (int64_t)A->getArgNo()}};
  if (auto *I = dyn_cast<Instruction>(V)) return json::Object{{"i", id[I]}};
  if (auto *C = dyn_cast<ConstantFP>(V)) return json::Object{{"f", fpstr(C->getValueAPF())}};
  if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() <= 64) return json::Object{{"n", C->getSExtValue()}}; return json::Object{{"big", true}}; }
  if (isa<UndefValue>(V)) return json::Object{{"undef", true}};
  if (isa<ConstantPointerNull>(V)) return json::Object{{"null", true}};
  if (auto *G = dyn_cast<GlobalVariable>(V)) { globs.insert(G); return json::Object{{"g", G->getName()}}; }
  if (auto *F = dyn_cast<Function>(V)) return json::Object{{"fn", F->getName()}};
  if (auto *G = dyn_cast<GEPOperator>(V)) return gepVal(G);
  if (auto *CE = dyn_cast<ConstantExpr>(V)) { if (CE->isCast()) return val(CE->getOperand(0)); }
  if (isa<ConstantAggregateZero>(V)) { if (auto *VT = dyn_cast<FixedVectorType>(V->getType())) { json::Array A; for (unsigned i = 0; i < VT->getNumElements(); ++i) A.push_back(val(Constant::getNullValue(VT->getElementType()))); return json::Object{{"vec", std::move(A)}}; } return json::Object{{"zero", true}}; }
  if (auto *D = dyn_cast<ConstantDataVector>(V)) { json::Array A; for (unsigned i = 0; i < D->getNumElements(); ++i) A.push_back(val(D->getElementAsConstant(i))); return json::Object{{"vec", std::move(A)}}; }
  if (auto *D = dyn_cast<ConstantVector>(V)) { json::Array A; for (unsigned i = 0; i < D->getNumOperands(); ++i) A.push_back(val(D->getOperand(i))); return json::Object{{"vec", std::move(A)}}; }
  return json::Object{{"other", true}};
}
static std::string ty(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str(); }
static void flat(const Constant *C, uint64_t off, json::Array &A) {
  Type *T = C->getType();
  if (auto *F = dyn_cast<ConstantFP>(C)) { A.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T), json::Object{{"f", fpstr(F->getValueAPF())}}}); return; }
  if (auto *N = dyn_cast<ConstantInt>(C)) { if (N->getBitWidth() <= 64) A.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T), json::Object{{"n", N->getSExtValue()}}}); return; }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) if (auto *E = C->getAggregateElement(i)) flat(E, off + SL->getElementOffset(i), A); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(AT->getElementType()); if (AT->getNumElements() > 100000) return; for (unsigned i = 0; i < AT->getNumElements(); ++i) if (auto *E = C->getAggregateElement(i)) flat(E, off + s * i, A); return; }
  if (T->isPointerTy()) { A.push_back(json::Array{(int64_t)off, 8, val(C)}); return; }
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic E; auto M = parseIRFile(argv[1], E, Ctx);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout(); std::string pre = argv[2];
  json::Array FS;
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with(pre)) continue;
    id.clear(); int n = 0; std::map<const BasicBlock *, int> bid; int nb = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) id[&I] = n++; }
    json::Array BS;
    for (auto &B : F) {
      json::Array IS;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o; o["id"] = id[&I]; o["op"] = I.getOpcodeName(); o["t"] = ty(I.getType());
        if (auto &L = I.getDebugLoc()) { const DILocation *D = L.get(); json::Array loc; for (int k = 0; D && k < 8; D = D->getInlinedAt(), ++k) loc.push_back((D->getFilename() + ":" + Twine(D->getLine())).str()); o["loc"] = std::move(loc); }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { o["gep"] = *gepVal(cast<GEPOperator>(G)).getAsObject()->get("gep"); }
        else if (auto *P = dyn_cast<PHINode>(&I)) { json::Array A; for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) A.push_back(json::Array{val(P->getIncomingValue(k)), bid[P->getIncomingBlock(k)]}); o["phi"] = std::move(A); }
        else if (auto *C = dyn_cast<CallBase>(&I)) { if (auto *CF = C->getCalledFunction()) o["callee"] = CF->getName(); json::Array A; for (auto &a : C->args()) A.push_back(val(a)); o["args"] = std::move(A);
          if (auto *IV = dyn_cast<InvokeInst>(&I)) o["succ"] = json::Array{bid[IV->getNormalDest()], bid[IV->getUnwindDest()]}; }
        else {
          json::Array A; for (auto &a : I.operands()) if (!isa<BasicBlock>(a.get())) A.push_back(val(a.get())); o["args"] = std::move(A);
          if (auto *C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()); o["ot"] = ty(C->getOperand(0)->getType()); }
          if (auto *S = dyn_cast<StoreInst>(&I)) { o["st"] = ty(S->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); }
          if (auto *L = dyn_cast<LoadInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType());
          if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["sz"] = (int64_t)DL->getTypeAllocSize(AI->getAllocatedType()); if (AI->isArrayAllocation()) o["vla"] = true; }
          if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { json::Array mk; for (int m : SV->getShuffleMask()) mk.push_back(m); o["mask"] = std::move(mk); }
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : EV->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); }
          if (auto *EV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : EV->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); }
          if (auto *BR = dyn_cast<BranchInst>(&I)) { json::Array s; for (unsigned k = 0; k < BR->getNumSuccessors(); ++k) s.push_back(bid[BR->getSuccessor(k)]); o["succ"] = std::move(s); }
          if (auto *SW = dyn_cast<SwitchInst>(&I)) { json::Array s; s.push_back(bid[SW->getDefaultDest()]); json::Array cs; for (auto &c : SW->cases()) { cs.push_back(c.getCaseValue()->getSExtValue()); s.push_back(bid[c.getCaseSuccessor()]); } o["succ"] = std::move(s); o["cases"] = std::move(cs); }
        }
        IS.push_back(std::move(o));
      }
      BS.push_back(std::move(IS));
    }
    json::Array AT; for (auto &a : F.args()) AT.push_back(ty(a.getType()));
    FS.push_back(json::Object{{"name", F.getName()}, {"args", std::move(AT)}, {"ret", ty(F.getReturnType())}, {"blocks", std::move(BS)}});
  }
  json::Object G;
  std::set<const GlobalVariable *> done;
  while (true) { const GlobalVariable *g = nullptr; for (auto *x : globs) if (!done.count(x)) { g = x; break; } if (!g) break; done.insert(g);
    json::Array A; if (g->hasInitializer() && g->isConstant()) flat(g->getInitializer(), 0, A);
    G[g->getName()] = json::Object{{"const", g->isConstant()}, {"size", (int64_t)DL->getTypeAllocSize(g->getValueType())}, {"v", std::move(A)}}; }
  outs() << json::Value(json::Object{{"functions", std::move(FS)}, {"globals", std::move(G)}});
}
