// dfmast: AST fact extractor and rule engine over one translation unit of delfem2.
// usage: dfmast --root=/repo/include/delfem2 --pass=a,b,c  file.cpp -- <clang flags>
// prints one JSON object with one member per pass.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/GlobalDecl.h"
#include "clang/AST/ODRHash.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "clang/Lex/PreprocessorOptions.h"
#include <functional>
#include <sstream>
#include <map>
#include <set>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("dfmast");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo/include/delfem2"));
static llvm::cl::opt<std::string> Passes("pass", llvm::cl::cat(Cat), llvm::cl::init("linkage"));

static json::Object Out;
static std::set<std::string> Pass;

struct Region { FileID fid; unsigned b, e; bool ndebugDefinedSide; };
static std::vector<Region> Regions;  // active code under a conditional that mentions NDEBUG

struct Ctx {
  ASTContext *C; SourceManager *SM; 
  bool inRoot(SourceLocation L) const {
    if (L.isInvalid()) return false;
    L = SM->getExpansionLoc(L);
    auto f = SM->getFilename(L);
    return f.starts_with(Root);
  }
  std::string file(SourceLocation L) const {
    L = SM->getExpansionLoc(L);
    llvm::StringRef f = SM->getFilename(L);
    if (f.starts_with(Root)) f = f.substr(Root.size() + 1);
    return f.str();
  }
  unsigned line(SourceLocation L) const { return SM->getExpansionLineNumber(L); }
  std::string loc(SourceLocation L) const { return file(L) + ":" + std::to_string(line(L)); }
  std::string text(SourceRange R) const {
    R = SourceRange(SM->getExpansionLoc(R.getBegin()), SM->getExpansionRange(R.getEnd()).getEnd());
    std::string s = Lexer::getSourceText(CharSourceRange::getTokenRange(R), *SM, C->getLangOpts()).str();
    std::string o; bool sp = false;
    for (char c : s) { if (isspace((unsigned char)c)) { sp = true; continue; } if (sp && !o.empty()) o += ' '; sp = false; o += c; }
    if (o.size() > 160) o = o.substr(0, 157) + "...";
    return o;
  }
};
static Ctx X;

static std::string sig(const FunctionDecl *FD) {
  std::string s; llvm::raw_string_ostream os(s);
  FD->printQualifiedName(os);
  os << "(";
  for (unsigned i = 0; i < FD->getNumParams(); ++i) {
    if (i) os << ", ";
    os << FD->getParamDecl(i)->getType().getAsString(X.C->getPrintingPolicy());
  }
  os << ")";
  if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->isConst()) os << " const";
  return s;
}
static std::string qname(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os); return s; }

static std::string mangled(const FunctionDecl *FD) {
  static std::unique_ptr<MangleContext> MC(X.C->createMangleContext());
  if (FD->isDependentContext()) return "";
  std::string s; llvm::raw_string_ostream os(s);
  GlobalDecl GD;
  if (auto *D = dyn_cast<CXXConstructorDecl>(FD)) GD = GlobalDecl(D, Ctor_Complete);
  else if (auto *D = dyn_cast<CXXDestructorDecl>(FD)) GD = GlobalDecl(D, Dtor_Complete);
  else GD = GlobalDecl(FD);
  if (MC->shouldMangleDeclName(FD)) MC->mangleName(GD, os); else os << FD->getNameAsString();
  return s;
}
static const FunctionDecl *pattern(const FunctionDecl *FD) {
  if (auto *P = FD->getTemplateInstantiationPattern()) return P;
  return FD;
}

// ------------------------------------------------------------------ visitor driver
struct V : RecursiveASTVisitor<V> {
  std::vector<const FunctionDecl *> funcs;   // every definition, incl. instantiations
  std::vector<const VarDecl *> vars;
  std::vector<const CXXRecordDecl *> recs;
  std::vector<const FunctionDecl *> decls;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!X.inRoot(FD->getLocation())) return true;
    decls.push_back(FD);
    if (FD->isThisDeclarationADefinition() && !FD->isDeleted() && !FD->isImplicit()) funcs.push_back(FD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) { if (X.inRoot(VD->getLocation())) vars.push_back(VD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (X.inRoot(RD->getLocation()) && RD->isThisDeclarationADefinition() && !RD->isLambda()) recs.push_back(RD);
    return true;
  }
};
static V Vis;

static SourceLocation declStart(const FunctionDecl *FD) { return FD->getInnerLocStart(); }

// ------------------------------------------------------------------ pass: linkage
static void passLinkage() {
  json::Array A;
  unsigned n = 0;
  for (auto *FD : Vis.funcs) {
    if (FD->isDependentContext()) continue;
    ++n;
    if (X.C->GetGVALinkageForFunction(FD) == GVA_StrongExternal) {
      SourceLocation L = declStart(FD);
      A.push_back(json::Object{{"name", sig(FD)}, {"file", X.file(L)}, {"line", X.line(L)}, {"col", X.SM->getExpansionColumnNumber(L)}, {"mangled", mangled(FD)}});
    }
  }
  json::Array B; unsigned nv = 0;
  for (auto *VD : Vis.vars) {
    if (!VD->isFileVarDecl() || !VD->isThisDeclarationADefinition()) continue;
    if (VD->getType()->isDependentType() || VD->getDeclContext()->isDependentContext()) continue;
    if (isa<VarTemplateSpecializationDecl>(VD) == false && VD->getDescribedVarTemplate()) continue;
    ++nv;
    if (X.C->GetGVALinkageForVariable(VD) == GVA_StrongExternal)
      B.push_back(json::Object{{"name", qname(VD)}, {"file", X.file(VD->getLocation())}, {"line", X.line(VD->getLocation())}});
  }
  Out["linkage"] = json::Object{{"functions_analysed", n}, {"variables_analysed", nv}, {"strong_functions", std::move(A)}, {"strong_variables", std::move(B)}};
}

// ------------------------------------------------------------------ pass: state
static bool constInit(const VarDecl *VD) { return VD->getType().isConstQualified() || VD->isConstexpr() || (VD->getType()->isArrayType() && X.C->getBaseElementType(VD->getType()).isConstQualified()); }
static void passState() {
  json::Array A; unsigned n = 0, nl = 0;
  for (auto *VD : Vis.vars) {
    if (isa<ParmVarDecl>(VD)) continue;
    if (!VD->hasGlobalStorage()) continue;
    if (VD->isStaticLocal() || VD->isLocalVarDecl()) ++nl; else ++n;
    bool cst = constInit(VD);
    // reference to mutable object is not constant state
    if (VD->getType()->isReferenceType()) cst = false;
    // neither is a constant (smart) pointer to something mutable
    if (cst) {
      QualType T = X.C->getBaseElementType(VD->getType()), Q;
      if (T->isPointerType()) Q = T->getPointeeType();
      else if (auto *S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(T->getAsCXXRecordDecl())) { std::string n = qname(S); if ((n == "std::unique_ptr" || n == "std::shared_ptr" || n == "std::reference_wrapper") && S->getTemplateArgs().size() && S->getTemplateArgs()[0].getKind() == TemplateArgument::Type) Q = S->getTemplateArgs()[0].getAsType(); }
      if (!Q.isNull() && !Q->isFunctionType() && !Q->isDependentType() && !X.C->getBaseElementType(Q).isConstQualified()) cst = false;
    }
    if (VD->getType()->isPointerType() && !VD->getType().isConstQualified()) cst = false;
    bool hasMut = false;
    if (auto *RD = X.C->getBaseElementType(VD->getType())->getAsCXXRecordDecl()) if (RD->hasDefinition() && RD->hasMutableFields()) hasMut = true;
    if (!cst || hasMut) A.push_back(json::Object{{"name", qname(VD)}, {"file", X.file(VD->getLocation())}, {"line", X.line(VD->getLocation())},
       {"kind", VD->isStaticLocal() ? "static local" : (VD->isStaticDataMember() ? "static member" : "namespace scope")}, {"tls", VD->getTLSKind() != VarDecl::TLS_None}, {"type", VD->getType().getAsString()}});
  }
  json::Array M; unsigned nf = 0;
  for (auto *RD : Vis.recs) for (auto *F : RD->fields()) { ++nf; if (F->isMutable()) M.push_back(json::Object{{"name", qname(F)}, {"file", X.file(F->getLocation())}, {"line", X.line(F->getLocation())}, {"type", F->getType().getAsString()}}); }
  Out["state"] = json::Object{{"globals_analysed", n}, {"static_locals_analysed", nl}, {"fields_analysed", nf}, {"mutable_state", std::move(A)}, {"mutable_fields", std::move(M)}};
}

// ------------------------------------------------------------------ pass: calls (who may call)
struct CallV : RecursiveASTVisitor<CallV> {
  std::function<void(const FunctionDecl *, SourceLocation, const Expr *)> cb;
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool VisitCallExpr(CallExpr *E) { if (auto *F = E->getDirectCallee()) cb(F, E->getBeginLoc(), E); else if (auto *U = dyn_cast<UnresolvedLookupExpr>(E->getCallee()->IgnoreParenImpCasts())) { for (auto *D : U->decls()) if (auto *F = dyn_cast<FunctionDecl>(D->getUnderlyingDecl())) cb(F, E->getBeginLoc(), E); } return true; }
  bool VisitCXXConstructExpr(CXXConstructExpr *E) { cb(E->getConstructor(), E->getBeginLoc(), E); return true; }
  bool VisitDeclRefExpr(DeclRefExpr *E) { if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) cb(F, E->getBeginLoc(), nullptr); return true; }
};
static void passCalls() {
  // all (enclosing function definition, external callee) pairs where callee is outside root
  std::map<std::string, json::Array> byCallee; unsigned nf = 0, nc = 0;
  std::set<std::string> seen;
  for (auto *FD : Vis.funcs) {
    ++nf;
    CallV cv;
    cv.cb = [&](const FunctionDecl *F, SourceLocation L, const Expr *) {
      ++nc;
      if (X.inRoot(F->getLocation())) return;
      std::string q = qname(F);
      std::string key = q + "|" + qname(FD) + "|" + X.loc(L);
      if (!seen.insert(key).second) return;
      if (q.rfind("std::", 0) == 0) {
        static const char *keep[] = {"random_device", "mersenne", "exit", "abort", "terminate", "async", "thread", "clock", "getenv", "rand", "distribution", "time", "unordered", "hash", "linear_congr", "setenv", "system", "setlocale","locale","signal", "quick_exit"};
        bool k = false; for (auto *s : keep) if (q.find(s) != std::string::npos) k = true;
        if (!k) return;
      }
      byCallee[q].push_back(json::Object{{"in", qname(FD)}, {"at", X.loc(L)}});
    };
    cv.TraverseDecl(const_cast<FunctionDecl *>(FD));
  }
  json::Object O; for (auto &p : byCallee) O[p.first] = std::move(p.second);
  Out["calls"] = json::Object{{"functions_analysed", nf}, {"call_sites", nc}, {"external", std::move(O)}};
}

// ------------------------------------------------------------------ pass: asserts (debug/release equivalence)
// is expression free of effects visible outside of `localTo` (decls declared in region)
struct EffectV : RecursiveASTVisitor<EffectV> {
  std::set<const Decl *> locals; std::vector<std::pair<SourceLocation, std::string>> bad;
  bool allowReturn = false;
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitVarDecl(VarDecl *D) { locals.insert(D); return true; }
  const Decl *base(const Expr *E) {
    for (;;) {
      E = E->IgnoreParenCasts();
      if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { E = A->getBase(); continue; }
      if (auto *M = dyn_cast<MemberExpr>(E)) { E = M->getBase(); continue; }
      if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E)) { if (M->isImplicitAccess()) return nullptr; E = M->getBase(); continue; }
      if (auto *U = dyn_cast<UnaryOperator>(E)) { if (U->getOpcode() == UO_Deref || U->getOpcode() == UO_AddrOf) { E = U->getSubExpr(); continue; } }
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) { if (O->getNumArgs() >= 1) { E = O->getArg(0); continue; } }
      if (auto *O = dyn_cast<CXXMemberCallExpr>(E)) { E = O->getImplicitObjectArgument(); continue; }
      if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) { E = M->getSubExpr(); continue; }
      if (auto *M = dyn_cast<CXXBindTemporaryExpr>(E)) { E = M->getSubExpr(); continue; }
      if (auto *B = dyn_cast<BinaryOperator>(E)) { if (B->isAdditiveOp()) { E = B->getLHS(); continue; } }
      if (auto *D = dyn_cast<DeclRefExpr>(E)) {
        if (auto *VD = dyn_cast<VarDecl>(D->getDecl())) {
          if (VD->getType()->isReferenceType() || VD->getType()->isPointerType()) {
            // alias: local iff initialised from a local
            if (locals.count(VD) && VD->hasInit() && !VD->getType()->getPointeeType().isConstQualified()) { E = VD->getInit(); continue; }
          }
          return VD;
        }
        return D->getDecl();
      }
      if (isa<CXXTemporaryObjectExpr>(E) || isa<CXXConstructExpr>(E) || isa<InitListExpr>(E) || isa<CallExpr>(E)|| isa<LambdaExpr>(E)) return (const Decl *)1;
      return nullptr;
    }
  }
  bool isLocal(const Expr *E) { const Decl *D = base(E); return D == (const Decl *)1 || (D && locals.count(D)); }
  bool isStream(QualType T) { std::string s = T.getNonReferenceType().getAsString(); return s.find("ostream") != std::string::npos || s.find("FILE") != std::string::npos; }
  void rep(const Expr *E, std::string why) { bad.push_back({E->getBeginLoc(), why}); }
  bool VisitUnaryOperator(UnaryOperator *U) { if (U->isIncrementDecrementOp() && !isLocal(U->getSubExpr())) rep(U, "increments/decrements " + X.text(U->getSubExpr()->getSourceRange())); return true; }
  bool VisitBinaryOperator(BinaryOperator *B) { if (B->isAssignmentOp() && !isLocal(B->getLHS())) rep(B, "assigns " + X.text(B->getLHS()->getSourceRange())); return true; }
  bool VisitCXXNewExpr(CXXNewExpr *E) { rep(E, "allocates"); return true; }
  bool VisitCXXDeleteExpr(CXXDeleteExpr *E) { rep(E, "deletes"); return true; }
  bool VisitCXXThrowExpr(CXXThrowExpr *E) { rep(E, "throws"); return true; }
  void control(const Stmt *S, const char *w) { bad.push_back({S->getBeginLoc(), w}); }
  unsigned loopDepth = 0;
  bool TraverseForStmt(ForStmt *S) { ++loopDepth; bool r = RecursiveASTVisitor::TraverseForStmt(S); --loopDepth; return r; }
  bool TraverseWhileStmt(WhileStmt *S) { ++loopDepth; bool r = RecursiveASTVisitor::TraverseWhileStmt(S); --loopDepth; return r; }
  bool TraverseDoStmt(DoStmt *S) { ++loopDepth; bool r = RecursiveASTVisitor::TraverseDoStmt(S); --loopDepth; return r; }
  bool TraverseCXXForRangeStmt(CXXForRangeStmt *S) { ++loopDepth; bool r = RecursiveASTVisitor::TraverseCXXForRangeStmt(S); --loopDepth; return r; }
  bool TraverseSwitchStmt(SwitchStmt *S) { ++loopDepth; bool r = RecursiveASTVisitor::TraverseSwitchStmt(S); --loopDepth; return r; }
  bool TraverseLambdaExpr(LambdaExpr *E) { bool o = allowReturn; allowReturn = true; bool r = RecursiveASTVisitor::TraverseLambdaExpr(E); allowReturn = o; return r; }
  bool VisitReturnStmt(ReturnStmt *S) { if (!allowReturn) control(S, "returns from the function"); return true; }
  bool VisitBreakStmt(BreakStmt *S) { if (!loopDepth) control(S, "breaks an enclosing loop"); return true; }
  bool VisitContinueStmt(ContinueStmt *S) { if (!loopDepth) control(S, "continues an enclosing loop"); return true; }
  bool VisitGotoStmt(GotoStmt *S) { control(S, "jumps"); return true; }
  bool VisitCallExpr(CallExpr *E) {
    const FunctionDecl *F = E->getDirectCallee();
    if (!F) {
      if (E->isTypeDependent() || E->getCallee()->isTypeDependent()) {
        // dependent call: judged on the instantiations, except members whose name says they mutate
        if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E->getCallee()->IgnoreParens())) {
          static const std::set<std::string> mu = {"push_back", "emplace_back", "pop_back", "push", "pop", "resize", "clear", "erase", "insert", "emplace", "assign", "swap", "reserve", "reset", "setZero", "SetZero", "fill"};
          if (mu.count(M->getMember().getAsString()) && !M->isImplicitAccess() && !isLocal(M->getBase())) rep(E, "calls mutating member " + X.text(E->getSourceRange()));
        }
        return true;
      }
      if (isa<CXXPseudoDestructorExpr>(E->getCallee())) return true;
      rep(E, "indirect call " + X.text(E->getSourceRange())); return true;
    }
    std::string q = qname(F);
    static const std::set<std::string> badfn = {"rand", "srand", "std::rand", "fgetc", "fgets", "fread", "getchar", "fscanf", "fclose", "exit", "_exit", "std::exit", "fopen"};
    if (badfn.count(q)) { rep(E, "calls " + q); return true; }
    unsigned off = 0;
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = MC->getMethodDecl();
      if (M && !M->isConst() && !M->isStatic()) {
        static const std::set<std::string> ro = {"begin", "end", "data", "at", "front", "back", "find", "size", "empty", "top", "cbegin", "cend", "rbegin", "rend", "lower_bound", "upper_bound", "dot", "norm"};
        if (!isLocal(MC->getImplicitObjectArgument()) && !isStream(MC->getImplicitObjectArgument()->getType())) {
          bool std = X.SM->isInSystemHeader(M->getLocation());
          if (!(std && ro.count(M->getNameAsString())) ) { if (!returnsRefOnly(M)) rep(E, "calls non-const member " + q); }
        }
      }
    } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        off = 1;
        auto op = OC->getOperator();
        bool access = op == OO_Subscript || op == OO_Star || op == OO_Arrow || op == OO_Call;
        if (!M->isConst() && !isLocal(OC->getArg(0)) && !isStream(OC->getArg(0)->getType())) {
          if (!access) rep(E, "calls non-const " + q);
        }
        if (op == OO_Call && isLocal(OC->getArg(0)) ) {}
      }
    }
    for (unsigned i = 0; i < F->getNumParams() && i + off < E->getNumArgs(); ++i) {
      QualType T = F->getParamDecl(i)->getType();
      bool mut = false;
      if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) mut = true;
      if (T->isPointerType() && !T->getPointeeType().isConstQualified() && !T->getPointeeType()->isFunctionType()) mut = true;
      if (!mut) continue;
      const Expr *Arg = E->getArg(i + off);
      if (isStream(Arg->getType())) continue;
      if (isLocal(Arg)) continue;
      if (!paramMutated(F, i)) continue;
      if (X.SM->isInSystemHeader(F->getLocation()) && T->isLValueReferenceType() && (q == "std::get" || q == "std::begin" || q == "std::end")) continue;
      rep(E, "passes " + X.text(Arg->getSourceRange()) + " to a mutable parameter of " + q);
    }
    return true;
  }
  // does calling F have an effect through its i-th (mutable reference/pointer) parameter, or any effect on non-locals?
  static bool paramMutated(const FunctionDecl *F, unsigned i) {
    static std::map<std::pair<const FunctionDecl *, unsigned>, int> memo;
    const FunctionDecl *D = nullptr; const Stmt *B = F->getBody(D);
    if (!B) if (auto *P = F->getTemplateInstantiationPattern()) B = P->getBody(D);
    if (!B || !D || i >= D->getNumParams()) return true;
    auto it = memo.find({D, i}); if (it != memo.end()) return it->second == 1;  // in progress: assume not (least fixpoint)
    memo[{D, i}] = 0;
    EffectV v; v.allowReturn = true;
    for (unsigned k = 0; k < D->getNumParams(); ++k) if (k != i) v.locals.insert(D->getParamDecl(k));
    v.TraverseStmt(const_cast<Stmt *>(B));
    return (memo[{D, i}] = v.bad.empty() ? 0 : 1) == 1;
  }
  // non-const accessor: body is a single return of a reference/pointer without effects (data(), operator[])
  bool returnsRefOnly(const CXXMethodDecl *M) {
    const FunctionDecl *D = nullptr; const Stmt *B = M->getBody(D);
    if (!B) { if (auto *P = M->getTemplateInstantiationPattern()) B = P->getBody(); }
    if (!B) return false;
    EffectV v; v.allowReturn = true; v.TraverseStmt(const_cast<Stmt *>(B));
    return v.bad.empty();
  }
};
static bool inRegion(SourceLocation L, bool *side = nullptr) {
  L = X.SM->getExpansionLoc(L);
  auto d = X.SM->getDecomposedLoc(L);
  for (auto &r : Regions) if (r.fid == d.first && d.second >= r.b && d.second < r.e) { if (side) *side = r.ndebugDefinedSide; return true; }
  return false;
}
static bool fromAssert(SourceLocation L) {
  while (L.isMacroID()) {
    llvm::StringRef n = Lexer::getImmediateMacroName(L, *X.SM, X.C->getLangOpts());
    if (n == "assert") return true;
    L = X.SM->getImmediateMacroCallerLoc(L);
  }
  return false;
}
struct AssertV : RecursiveASTVisitor<AssertV> {
  unsigned nassert = 0, nregionstmts = 0; std::vector<std::tuple<std::string, std::string, std::string>> bad; const FunctionDecl *F = nullptr;
  std::set<std::string> seenLoc;
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitConditionalOperator(ConditionalOperator *E) {
    if (!fromAssert(E->getQuestionLoc())) return true;
    // only the assert's own conditional: false branch calls a noreturn function
    auto *C = dyn_cast<CallExpr>(E->getFalseExpr()->IgnoreParenImpCasts());
    if (!C || !C->getDirectCallee() || !C->getDirectCallee()->isNoReturn()) return true;
    ++nassert;
    if (inRegion(E->getBeginLoc())) return true;  // judged as part of the region
    EffectV v; v.TraverseStmt(E->getCond());
    for (auto &b : v.bad) bad.push_back({X.loc(E->getQuestionLoc()), qname(F), "assert condition " + b.second});
    return true;
  }
  // statement lists: collect maximal runs of statements in regions
  bool VisitCompoundStmt(CompoundStmt *S) {
    bool any = false, all = true;
    std::vector<Stmt *> in;
    for (auto *c : S->body()) { if (inRegion(c->getBeginLoc())) { any = true; in.push_back(c); } else all = false; }
    if (!any || inRegion(S->getBeginLoc())) return true;
    bool fnBody = F->getBody() == S;
    std::set<const Decl *> locals;
    EffectV v;
    v.allowReturn = fnBody && all && F->getReturnType()->isVoidType();
    for (auto *c : in) { ++nregionstmts; v.TraverseStmt(c); }
    for (auto &b : v.bad) bad.push_back({X.loc(b.first), qname(F), "code compiled only with" + std::string(NDEBUGmode() ? "" : "out") + " NDEBUG " + b.second});
    return true;
  }
  static bool NDEBUGmode();
  bool VisitStmt(Stmt *S) {
    // condition pieces inside an expression under NDEBUG are not supported -> report as region use
    return true;
  }
};
static bool NDEBUGMode = false;
bool AssertV::NDEBUGmode() { return NDEBUGMode; }
static void passAsserts() {
  json::Array A; unsigned n = 0, na = 0, nr = 0; std::set<std::string> dedupe, files;
  for (auto *FD : Vis.funcs) {
    ++n; AssertV v; v.F = FD;
    if (auto *B = FD->getBody()) v.TraverseStmt(B);
    na += v.nassert; nr += v.nregionstmts;
    for (auto &b : v.bad) { std::string k = std::get<0>(b) + std::get<2>(b); if (dedupe.insert(k).second) A.push_back(json::Object{{"at", std::get<0>(b)}, {"in", std::get<1>(b)}, {"what", std::get<2>(b)}}); }
  }
  // declarations (fields, functions, includes) under NDEBUG conditionals
  auto declCheck = [&](const Decl *D, std::string what) { if (inRegion(D->getBeginLoc())) { std::string k = X.loc(D->getBeginLoc()) + what; if (dedupe.insert(k).second) A.push_back(json::Object{{"at", X.loc(D->getBeginLoc())}, {"in", what}, {"what", "declaration exists in only one of the debug/release configurations"}}); } };
  for (auto *FD : Vis.funcs) declCheck(FD, qname(FD));
  for (auto *RD : Vis.recs) for (auto *F : RD->fields()) declCheck(F, qname(F));
  for (auto *VD : Vis.vars) if (VD->isFileVarDecl()) declCheck(VD, qname(VD));
  Out["asserts"] = json::Object{{"functions_analysed", n}, {"assertions", na}, {"region_statements", nr}, {"regions", (int64_t)Regions.size()}, {"bad", std::move(A)}};
}

// ------------------------------------------------------------------ pass: casts
struct CastV : RecursiveASTVisitor<CastV> {
  unsigned n = 0; json::Array bad, addr; std::set<std::string> seen; const FunctionDecl *F = nullptr;
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool VisitExplicitCastExpr(ExplicitCastExpr *E) {
    if (!X.inRoot(E->getBeginLoc())) return true;
    ++n;
    QualType S = E->getSubExprAsWritten()->getType(), T = E->getType(), TW = E->getTypeAsWritten();
    if (S->isDependentType() || TW->isDependentType()) return true;
    QualType sp, tp;
    if (E->getCastKind() == CK_PointerToIntegral) { std::string k = "i" + X.loc(E->getBeginLoc()) + X.text(E->getSourceRange()); if (seen.insert(k).second) addr.push_back(json::Object{{"at", X.loc(E->getBeginLoc())}, {"in", F ? qname(F) : ""}, {"expr", X.text(E->getSourceRange())}}); }
    // an address that went through an integer has lost its constness
    if (TW->isPointerType() && S->isIntegerType() && E->getCastKind() == CK_IntegralToPointer && !TW->getPointeeType().isConstQualified() && !TW->getPointeeType()->isFunctionType()) {
      std::string k = X.loc(E->getBeginLoc()) + X.text(E->getSourceRange()); if (seen.insert(k).second) bad.push_back(json::Object{{"at", X.loc(E->getBeginLoc())}, {"in", F ? qname(F) : ""}, {"expr", X.text(E->getSourceRange())}, {"from", S.getAsString()}, {"to", TW.getAsString()}});
      return true;
    }
    if (TW->isReferenceType()) { sp = S; tp = TW->getPointeeType(); }
    else if (TW->isPointerType()) { if (S->isPointerType()) sp = S->getPointeeType(); else if (S->isArrayType()) sp = X.C->getAsArrayType(S)->getElementType(); else return true; tp = TW->getPointeeType(); }
    else return true;
    // strip pointer levels
    bool lost = false;
    while (!sp.isNull() && !tp.isNull()) {
      QualType se = X.C->getBaseElementType(sp), te = X.C->getBaseElementType(tp);
      if (se.isConstQualified() && !te.isConstQualified()) { lost = true; break; }
      if (se->isPointerType() && te->isPointerType()) { sp = se->getPointeeType(); tp = te->getPointeeType(); } else break;
    }
    if (lost) { std::string k = X.loc(E->getBeginLoc()) + X.text(E->getSourceRange()); if (seen.insert(k).second) bad.push_back(json::Object{{"at", X.loc(E->getBeginLoc())}, {"in", F ? qname(F) : ""}, {"expr", X.text(E->getSourceRange())}, {"from", S.getAsString()}, {"to", TW.getAsString()}}); }
    return true;
  }
};
static void passCasts() {
  CastV v; unsigned nf = 0;
  for (auto *FD : Vis.funcs) { ++nf; v.F = FD; if (auto *B = FD->getBody()) v.TraverseStmt(B); }
  Out["casts"] = json::Object{{"functions_analysed", nf}, {"casts_analysed", v.n}, {"bad", std::move(v.bad)}, {"addresses", std::move(v.addr)}};
}

// ------------------------------------------------------------------ pass: classes
static bool scalarField(QualType T) { T = X.C->getBaseElementType(T); return T->isScalarType() || T->isEnumeralType(); }
static bool triviallyUninit(QualType T) {  // default-initialisation leaves it indeterminate
  T = X.C->getBaseElementType(T);
  if (T->isDependentType()) return false;
  return T->isScalarType();
}
// definite-assignment of fields in constructor body (straight-line + loops over arrays considered as assigning)
struct AssignedV : RecursiveASTVisitor<AssignedV> {
  std::set<const FieldDecl *> assigned; std::set<const FunctionDecl *> seen; const CXXRecordDecl *RD = nullptr;
  static const FieldDecl *byName(const CXXRecordDecl *R, llvm::StringRef n) {
    if (!R) return nullptr;
    for (auto *F : R->fields()) { if (F->getDeclName() && F->getName() == n) return F; if (F->isAnonymousStructOrUnion()) if (auto *r = byName(F->getType()->getAsCXXRecordDecl(), n)) return r; }
    return nullptr;
  }
  // all scalar storage of F is assigned (anonymous unions: one alternative suffices)
  bool covered(const FieldDecl *F) {
    if (!F->isAnonymousStructOrUnion()) return assigned.count(F->getCanonicalDecl()) > 0;
    auto *R = F->getType()->getAsCXXRecordDecl(); if (!R) return true;
    bool any = false, all = true; for (auto *G : R->fields()) { if (covered(G) || G->hasInClassInitializer()) any = true; else all = false; }
    return R->isUnion() ? any : all;
  }
  bool shouldVisitImplicitCode() const { return true; }
  const FieldDecl *fieldOf(const Expr *E) {
    for (;;) {
      E = E->IgnoreParenImpCasts();
      if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { E = A->getBase(); continue; }
      if (auto *M = dyn_cast<MemberExpr>(E)) {
        if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) { if (isa<CXXThisExpr>(M->getBase()->IgnoreParenImpCasts())) return F; E = M->getBase(); continue; }
        return nullptr;
      }
      if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E)) { if (M->isImplicitAccess() || isa<CXXThisExpr>(M->getBase()->IgnoreParenImpCasts())) return byName(RD, M->getMember().getAsString()); E = M->getBase(); continue; }
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) { if (O->getNumArgs() >= 1) { E = O->getArg(0); continue; } }
      if (auto *U = dyn_cast<UnaryOperator>(E)) { if (U->getOpcode() == UO_AddrOf || U->getOpcode() == UO_Deref) { E = U->getSubExpr(); continue; } }
      return nullptr;
    }
  }
  // ---- assigned on every path: branches are intersected, returns are exits, a loop body counts as executed
  typedef std::set<const FieldDecl *> FS;
  std::map<const FunctionDecl *, FS> *memo = nullptr;
  FS flat(const Stmt *S) { AssignedV v; v.RD = RD; v.memo = memo; if (S) v.TraverseStmt(const_cast<Stmt *>(S)); return v.assigned; }
  static void add(FS &a, const FS &b) { a.insert(b.begin(), b.end()); }
  static FS meet(const FS &a, const FS &b) { FS r; for (auto *f : a) if (b.count(f)) r.insert(f); return r; }
  bool must(const Stmt *S, FS &in, std::vector<FS> &exits) {   // returns whether control reaches the end
    if (!S) return true;
    if (auto *C = dyn_cast<CompoundStmt>(S)) { for (auto *c : C->body()) if (!must(c, in, exits)) return false; return true; }
    if (auto *L = dyn_cast<LabelStmt>(S)) return must(L->getSubStmt(), in, exits);
    if (auto *A = dyn_cast<AttributedStmt>(S)) return must(A->getSubStmt(), in, exits);
    if (auto *I = dyn_cast<IfStmt>(S)) {
      add(in, flat(I->getInit())); add(in, flat(I->getConditionVariableDeclStmt())); add(in, flat(I->getCond()));
      if (I->isConstexpr()) { add(in, flat(I->getThen())); add(in, flat(I->getElse())); return true; }
      FS a = in, b = in; bool fa = must(I->getThen(), a, exits), fb = must(I->getElse(), b, exits);
      in = fa && fb ? meet(a, b) : (fa ? a : b);
      return fa || fb;
    }
    if (isa<ForStmt>(S) || isa<WhileStmt>(S) || isa<DoStmt>(S) || isa<CXXForRangeStmt>(S)) {
      FS a = in; const Stmt *B = isa<ForStmt>(S) ? cast<ForStmt>(S)->getBody() : isa<WhileStmt>(S) ? cast<WhileStmt>(S)->getBody() : isa<DoStmt>(S) ? cast<DoStmt>(S)->getBody() : cast<CXXForRangeStmt>(S)->getBody();
      must(B, a, exits); add(in, flat(S)); return true;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { add(in, flat(R->getRetValue())); exits.push_back(in); return false; }
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *e = E->IgnoreParenImpCasts(); if (auto *W = dyn_cast<ExprWithCleanups>(e)) e = W->getSubExpr()->IgnoreParenImpCasts();
      if (auto *Q = dyn_cast<ConditionalOperator>(e)) {       // an assertion that always fails
        bool v; if (!Q->getCond()->isValueDependent() && Q->getCond()->EvaluateAsBooleanCondition(v, *X.C)) e = (v ? Q->getTrueExpr() : Q->getFalseExpr())->IgnoreParenImpCasts();
      }
      if (isa<CXXThrowExpr>(e)) return false;
      if (auto *C = dyn_cast<CallExpr>(e)) if (auto *F = C->getDirectCallee()) if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) return false;
    }
    add(in, flat(S)); return true;
  }
  FS must(const FunctionDecl *D) {
    auto it = memo->find(D); if (it != memo->end()) return it->second;
    (*memo)[D] = FS();                                      // recursion: nothing known
    FS in; std::vector<FS> ex; bool f = must(D->getBody(), in, ex);
    if (f) ex.push_back(in);
    FS r; if (ex.empty()) r = flat(D->getBody()); else { r = ex[0]; for (auto &e : ex) r = meet(r, e); }
    return (*memo)[D] = r;
  }
  bool VisitBinaryOperator(BinaryOperator *B) { if (B->getOpcode() == BO_Assign) if (auto *F = fieldOf(B->getLHS())) assigned.insert(F->getCanonicalDecl()); return true; }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *O) { if (O->getOperator() == OO_Equal) if (auto *F = fieldOf(O->getArg(0))) assigned.insert(F->getCanonicalDecl()); return true; }
  bool VisitCallExpr(CallExpr *E) {
    const FunctionDecl *F = E->getDirectCallee();
    if (!F) {
      // dependent call: arguments that are fields count as assigned
      for (auto *A : E->arguments()) if (auto *f = fieldOf(A)) assigned.insert(f->getCanonicalDecl());
      return true;
    }
    for (unsigned i = 0; i < F->getNumParams() && i < E->getNumArgs(); ++i) {
      QualType T = F->getParamDecl(i)->getType();
      unsigned off = (isa<CXXOperatorCallExpr>(E) && isa<CXXMethodDecl>(F)) ? 1 : 0;
      if (i + off >= E->getNumArgs()) break;
      bool mut = (T->isReferenceType() && !T->getPointeeType().isConstQualified()) || (T->isPointerType() && !T->getPointeeType().isConstQualified());
      if (mut) if (auto *f = fieldOf(E->getArg(i + off))) assigned.insert(f->getCanonicalDecl());
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *M = MC->getMethodDecl()) {
        if (isa<CXXThisExpr>(MC->getImplicitObjectArgument()->IgnoreParenImpCasts())) {
          const FunctionDecl *D = nullptr; M->getBody(D);
          if (!D) if (auto *P = M->getTemplateInstantiationPattern()) P->getBody(D);
          if (D) { auto r = must(D); assigned.insert(r.begin(), r.end()); }
        } else if (!M->isConst()) { if (auto *f = fieldOf(MC->getImplicitObjectArgument())) assigned.insert(f->getCanonicalDecl()); }
      }
    }
    return true;
  }
};
static std::string fieldKey(const FieldDecl *F) { return F->getNameAsString(); }
static void passClasses() {
  json::Array uninit, rule3, vdtor; unsigned nr = 0, nc = 0, nfield = 0; std::set<std::string> dd;
  json::Array ctorAll;
  for (auto *RD0 : Vis.recs) {
    const CXXRecordDecl *RD = RD0;
    if (RD->isDependentContext() && !RD->getDescribedClassTemplate() ) {}
    if (isa<ClassTemplateSpecializationDecl>(RD) && cast<ClassTemplateSpecializationDecl>(RD)->getSpecializationKind() == TSK_ImplicitInstantiation) continue;  // the pattern is analysed
    ++nr;
    // ---- fields needing initialisation
    std::vector<const FieldDecl *> need;
    for (auto *F : RD->fields()) { ++nfield; if (F->isAnonymousStructOrUnion()) { need.push_back(F); continue; } if (!F->getDeclName()) continue; if (F->hasInClassInitializer()) continue; if (triviallyUninit(F->getType()) || F->getType()->isTemplateTypeParmType() || X.C->getBaseElementType(F->getType())->isTemplateTypeParmType()) need.push_back(F); }
    bool anyUserCtor = false;
    for (auto *CD : RD->ctors()) {
      if (CD->isImplicit() || CD->isDeleted()) continue;
      anyUserCtor = true;
      const FunctionDecl *Def = nullptr;
      if (!CD->getBody(Def)) { if (!CD->isDefaulted()) continue; }
      auto *CDef = Def ? cast<CXXConstructorDecl>(Def) : CD;
      ++nc;
      bool delegating = CDef->isDelegatingConstructor();
      if (CD->isCopyOrMoveConstructor() && CD->isDefaulted()) continue;
      AssignedV av; av.RD = RD; std::map<const FunctionDecl *, AssignedV::FS> memo; av.memo = &memo;
      for (auto *I : CDef->inits()) if (I->isIndirectMemberInitializer() && I->isWritten()) av.assigned.insert(I->getAnyMember()->getCanonicalDecl());
      for (auto *I : CDef->inits()) if (I->isMemberInitializer() && I->isWritten()) av.assigned.insert(I->getMember()->getCanonicalDecl());
      for (auto *I : CDef->inits()) if (I->isWritten() && I->getInit()) av.TraverseStmt(I->getInit());
      if (CDef->getBody()) { auto r = av.must(CDef); av.assigned.insert(r.begin(), r.end()); }
      if (delegating) continue;
      json::Array miss;
      for (auto *F : need) if (!av.covered(F)) miss.push_back(F->isAnonymousStructOrUnion() ? std::string("(anonymous union)") : F->getNameAsString());
      json::Object o{{"class", qname(RD)}, {"at", X.loc(CD->getLocation())}, {"ctor", sig(CD)}, {"missing", std::move(miss)}, {"need", (int64_t)need.size()}};
      std::string k = X.loc(CD->getLocation()) + sig(CD);
      if (dd.insert(k).second) ctorAll.push_back(std::move(o));
    }
    if (!anyUserCtor && !need.empty()) {
      json::Array miss; for (auto *F : need) miss.push_back(F->getNameAsString());
      std::string k = "agg" + qname(RD);
      miss = json::Array(); for (auto *F : need) if (!X.C->getBaseElementType(F->getType())->isTemplateTypeParmType()) miss.push_back(F->getNameAsString());
      if (dd.insert(k).second) { int64_t nm = 0, ni = 0; for (auto *M : RD->methods()) if (!M->isImplicit() && !isa<CXXDestructorDecl>(M)) ++nm; for (auto *F : RD->fields()) if (F->hasInClassInitializer()) ++ni;
        ctorAll.push_back(json::Object{{"class", qname(RD)}, {"at", X.loc(RD->getLocation())}, {"ctor", "<implicit>"}, {"missing", std::move(miss)}, {"need", (int64_t)need.size()}, {"methods", nm}, {"inits", ni}, {"anon", RD->isAnonymousStructOrUnion()}}); }
    }
    // ---- rule of three: destructor frees something
    bool frees = false, userDtor = false;
    if (auto *D = RD->getDestructor()) if (!D->isImplicit()) { userDtor = true; const FunctionDecl *Def = nullptr; if (auto *B = D->getBody(Def)) {
      struct DV : RecursiveASTVisitor<DV> { bool f = false; std::set<const FunctionDecl *> seen; bool VisitCXXDeleteExpr(CXXDeleteExpr *) { f = true; return true; }
        bool VisitCallExpr(CallExpr *E) { if (auto *F = E->getDirectCallee()) { std::string n = qname(F); if (n == "free" || n == "fclose") f = true; const FunctionDecl *D = nullptr; if (isa<CXXMethodDecl>(F)) if (auto *B = F->getBody(D)) if (X.inRoot(F->getLocation()) && seen.insert(D).second) TraverseStmt(const_cast<Stmt *>(B)); } return true; } } dv;
      dv.TraverseStmt(const_cast<Stmt *>(B)); frees = dv.f; } }
    if (frees) {
      bool copyOk = RD->hasUserDeclaredCopyConstructor(), asgOk = RD->hasUserDeclaredCopyAssignment();
      bool memberNoCopy = false;
      for (auto *F : RD->fields()) if (auto *FR = F->getType()->getAsCXXRecordDecl()) if (FR->hasDefinition() && (FR->defaultedCopyConstructorIsDeleted())) memberNoCopy = true;
      rule3.push_back(json::Object{{"class", qname(RD)}, {"at", X.loc(RD->getLocation())}, {"copy_ctor", copyOk}, {"copy_assign", asgOk}, {"noncopyable_member", memberNoCopy}});
    }
    // raw owning pointer fields (assigned from new in any method)
    if (RD->isPolymorphic()) {
      bool v = false; if (auto *D = RD->getDestructor()) v = D->isVirtual();
      vdtor.push_back(json::Object{{"class", qname(RD)}, {"at", X.loc(RD->getLocation())}, {"virtual_dtor", v}, {"final", RD->hasAttr<FinalAttr>()}, {"bases", (int64_t)RD->getNumBases()}});
    }
  }
  Out["classes"] = json::Object{{"records", nr}, {"ctors", nc}, {"fields", nfield}, {"ctor_init", std::move(ctorAll)}, {"freeing", std::move(rule3)}, {"polymorphic", std::move(vdtor)}};
}

// ------------------------------------------------------------------ pass: tables
static json::Value apv(const APValue &V) {
  switch (V.getKind()) {
    case APValue::Int: return V.getInt().isSigned() ? json::Value(V.getInt().getSExtValue()) : json::Value((int64_t)V.getInt().getZExtValue());
    case APValue::Float: { llvm::SmallString<40> s; V.getFloat().toString(s, 0, 0); std::string t = s.str().str(); double d = V.getFloat().convertToDouble(); char b[64]; snprintf(b, 64, "%.17g", d); return json::Value(std::string("f:") + b); }
    case APValue::Array: { json::Array A; for (unsigned i = 0; i < V.getArraySize(); ++i) A.push_back(apv(i < V.getArrayInitializedElts() ? V.getArrayInitializedElt(i) : V.getArrayFiller())); return A; }
    case APValue::Struct: { json::Array A; for (unsigned i = 0; i < V.getStructNumFields(); ++i) A.push_back(apv(V.getStructField(i))); return A; }
    case APValue::LValue: {
      auto B = V.getLValueBase();
      if (auto *VD = B.dyn_cast<const ValueDecl *>()) return json::Value("&" + qname(VD));
      return json::Value(V.isNullPointer() ? "null" : "lvalue"); }
    default: return json::Value("?");
  }
}
static void passTables() {
  json::Array A; std::set<std::string> seen;
  for (auto *VD : Vis.vars) {
    if (isa<ParmVarDecl>(VD) || !VD->hasInit()) continue;
    if (!(VD->hasGlobalStorage() || VD->getType().isConstQualified() || VD->getType()->isConstantArrayType())) continue;
    QualType T = VD->getType();
    if (T->isDependentType() || VD->getDeclContext()->isDependentContext()) {
      continue; }
    if (!T->isArrayType() && !T->isRecordType() && !T->isIntegralOrEnumerationType() && !T->isPointerType()) continue;
    if (VD->getInit()->isValueDependent()) continue;
    if (!X.C->getBaseElementType(T).isConstQualified() && !VD->hasGlobalStorage()) { if (!T->isArrayType()) continue; }
    if (VD->isLocalVarDecl() && !VD->isStaticLocal() && !T->isArrayType()) continue;
    const APValue *V = nullptr;
    Expr::EvalResult R; APValue tmp; SmallVector<PartialDiagnosticAt, 4> notes;
    if (VD->getInit()->EvaluateAsInitializer(tmp, *X.C, VD, notes, true)) V = &tmp;
    if (!V) continue;
    std::string fn; for (const DeclContext *DC = VD->getDeclContext(); DC; DC = DC->getParent()) if (auto *F = dyn_cast<FunctionDecl>(DC)) { fn = qname(F); break; }
    std::string k = X.loc(VD->getLocation()) + qname(VD);
    std::string targs; if (auto *S = dyn_cast<VarTemplateSpecializationDecl>(VD)) { llvm::raw_string_ostream os(targs); for (auto &a : S->getTemplateArgs().asArray()) { a.print(X.C->getPrintingPolicy(), os, true); os << ","; } }
    k += targs;
    if (!seen.insert(k).second) continue;
    A.push_back(json::Object{{"name", qname(VD)}, {"short", VD->getNameAsString()}, {"targs", targs}, {"in", fn}, {"at", X.loc(VD->getLocation())}, {"type", T.getAsString()}, {"value", apv(*V)}});
  }
  json::Array E;
  struct EV : RecursiveASTVisitor<EV> { json::Array *A; bool VisitEnumDecl(EnumDecl *D) { if (!X.inRoot(D->getLocation())) return true; json::Array L; for (auto *c : D->enumerators()) L.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()}); A->push_back(json::Object{{"name", qname(D)}, {"at", X.loc(D->getLocation())}, {"values", std::move(L)}}); return true; } } ev;
  ev.A = &E; ev.TraverseDecl(X.C->getTranslationUnitDecl());
  Out["tables"] = json::Object{{"vars", std::move(A)}, {"enums", std::move(E)}};
}

// ------------------------------------------------------------------ pass: api (declarations and definitions)
static void passApi() {
  json::Array A; std::set<std::string> seen;
  for (auto *FD : Vis.decls) {
    if (FD->isImplicit()) continue;
    TemplateSpecializationKind K = FD->getTemplateSpecializationKind();
    if (K == TSK_ImplicitInstantiation) continue;
    const FunctionDecl *PD = FD;
    if (auto *M = FD->getInstantiatedFromMemberFunction()) PD = M;
    if (auto *PT = PD->getPrimaryTemplate()) { while (auto *MT = PT->getInstantiatedFromMemberTemplate()) PT = MT; PD = PT->getTemplatedDecl(); }
    PD = PD->getCanonicalDecl();
    std::string tmpl; if (FD->getDescribedFunctionTemplate()) tmpl = "pattern"; else if (K == TSK_ExplicitSpecialization) tmpl = "spec"; else if (K == TSK_ExplicitInstantiationDefinition) tmpl = "instdef"; else if (K == TSK_ExplicitInstantiationDeclaration) tmpl = "instdecl";
    bool inclass = isa<CXXMethodDecl>(FD);
    std::string cls = inclass ? qname(cast<CXXMethodDecl>(FD)->getParent()) : "";
    bool dep = FD->isDependentContext();
    A.push_back(json::Object{{"name", qname(FD)}, {"sig", sig(FD)}, {"file", X.file(FD->getLocation())}, {"line", X.line(FD->getLocation())}, {"def", FD->isThisDeclarationADefinition() && !FD->isDeleted()}, {"deleted", FD->isDeleted()}, {"pure", FD->isPureVirtual()}, {"dep", dep}, {"tmpl", tmpl}, {"cls", cls}, {"inl", FD->isInlined()}, {"mangled", dep ? "" : mangled(FD)}, {"defaulted", FD->isDefaulted()}, {"canon", X.loc(PD->getLocation())}, {"canonsig", sig(PD)},
      {"anydef", FD->isDefined() || (FD->getTemplateInstantiationPattern() && FD->getTemplateInstantiationPattern()->isDefined())}});
  }
  Out["api"] = std::move(A);
}

// ------------------------------------------------------------------ pass: odr (body hashes)
static void passOdr() {
  json::Object O; unsigned n = 0;
  for (auto *FD : Vis.funcs) {
    if (FD->isTemplateInstantiation()) continue;
    auto *B = FD->getBody(); if (!B) continue;
    ODRHash H; H.AddStmt(B);
    std::string s = sig(FD);
    O[s] = json::Object{{"hash", std::to_string(H.CalculateHash())}, {"at", X.loc(FD->getLocation())}};
    ++n;
  }
  Out["odr"] = std::move(O);
}

#include "dfmast_passes.inc"

// ------------------------------------------------------------------ frontend
struct PP : PPCallbacks {
  Preprocessor &P; SourceManager &SM;
  struct Fr { bool nd; bool active; unsigned start; FileID fid; bool defd; };
  std::vector<Fr> st;
  PP(Preprocessor &P) : P(P), SM(P.getSourceManager()) {}
  std::string txt(SourceRange R) { return Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, P.getLangOpts()).str(); }
  void open(SourceLocation L, bool nd, bool active) { auto d = SM.getDecomposedLoc(SM.getExpansionLoc(L)); st.push_back({nd, active, d.second, d.first, false}); }
  void close(SourceLocation L) { auto &f = st.back(); auto d = SM.getDecomposedLoc(SM.getExpansionLoc(L)); if (f.nd && f.active && d.first == f.fid) Regions.push_back({f.fid, f.start, d.second, false}); }
  static bool guardish(llvm::StringRef s) { return s.contains("NDEBUG") || s.contains("_DEBUG"); }
  void If(SourceLocation L, SourceRange C, ConditionValueKind V) override { open(L, guardish(txt(C)), V == CVK_True); }
  void Ifdef(SourceLocation L, const Token &T, const MacroDefinition &MD) override { open(L, guardish(T.getIdentifierInfo()->getName()), (bool)MD); }
  void Ifndef(SourceLocation L, const Token &T, const MacroDefinition &MD) override { open(L, guardish(T.getIdentifierInfo()->getName()), !MD); }
  void flip(SourceLocation L, bool active) { if (st.empty()) return; close(L); auto d = SM.getDecomposedLoc(SM.getExpansionLoc(L)); st.back().start = d.second; st.back().active = active; }
  bool was = false;
  void Elif(SourceLocation L, SourceRange, ConditionValueKind V, SourceLocation) override { flip(L, V == CVK_True); }
  void Else(SourceLocation L, SourceLocation) override { if (!st.empty()) flip(L, !st.back().active); }
  void Endif(SourceLocation L, SourceLocation) override { if (!st.empty()) { close(L); st.pop_back(); } }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    X.C = &C; X.SM = &C.getSourceManager();
    if (C.getDiagnostics().hasErrorOccurred()) { Out["error"] = "compile errors"; return; }
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    if (Pass.count("linkage")) passLinkage();
    if (Pass.count("state")) passState();
    if (Pass.count("calls")) passCalls();
    if (Pass.count("asserts")) passAsserts();
    if (Pass.count("casts")) passCasts();
    if (Pass.count("classes")) passClasses();
    if (Pass.count("tables")) passTables();
    if (Pass.count("api")) passApi();
    if (Pass.count("odr")) passOdr();
    runExtraPasses();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<PP>(CI.getPreprocessor()));
    NDEBUGMode = false;
    for (auto &m : CI.getPreprocessorOpts().Macros) if (m.first == "NDEBUG" || m.first == "NDEBUG=1") NDEBUGMode = !m.second;
    return std::make_unique<Consumer>();
  }
};
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  std::stringstream ss(Passes); std::string t; while (std::getline(ss, t, ',')) Pass.insert(t);
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  int rc = T.run(newFrontendActionFactory<Action>().get());
  llvm::outs() << llvm::formatv("{0}", json::Value(std::move(Out))) << "\n";
  return rc;
}
