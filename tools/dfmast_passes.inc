// ------------------------------------------------------------------ pass: graph (call graph over the resolved program)
static const FunctionDecl *canonFn(const FunctionDecl *F) {
  if (auto *P = F->getTemplateInstantiationPattern()) F = P;
  return F->getCanonicalDecl();
}
// the function a piece of code belongs to: lambdas and local classes belong to the enclosing function
static const FunctionDecl *ownerFn(const FunctionDecl *F) {
  for (;;) {
    const DeclContext *DC = F->getDeclContext();
    const FunctionDecl *O = nullptr;
    while (DC && !DC->isFileContext()) { if (auto *P = dyn_cast<FunctionDecl>(DC)) { O = P; break; } DC = DC->getParent(); }
    if (!O) return F;
    F = O;
  }
}
static void passGraph() {
  std::map<const FunctionDecl *, unsigned> id; std::vector<const FunctionDecl *> fn;
  std::vector<std::map<unsigned, std::string>> edges; std::vector<std::map<std::string, std::string>> ext; std::vector<std::set<std::string>> types;
  auto get = [&](const FunctionDecl *F) { F = canonFn(ownerFn(canonFn(F))); auto it = id.find(F); if (it != id.end()) return it->second; id[F] = fn.size(); fn.push_back(F); edges.emplace_back(); ext.emplace_back(); types.emplace_back(); return (unsigned)fn.size() - 1; };
  std::map<const FunctionDecl *, std::vector<const FunctionDecl *>> overriders;
  for (auto *FD : Vis.decls) if (auto *M = dyn_cast<CXXMethodDecl>(FD)) for (auto *O : M->overridden_methods()) overriders[canonFn(O)].push_back(M);
  unsigned nc = 0, nf = 0;
  std::set<unsigned> defined;
  for (auto *FD : Vis.funcs) {
    unsigned me = get(FD); defined.insert(me); ++nf;
    CallV cv;
    cv.cb = [&](const FunctionDecl *F, SourceLocation L, const Expr *) {
      ++nc;
      if (X.inRoot(F->getLocation())) {
        std::vector<const FunctionDecl *> W{F};
        for (unsigned i = 0; i < W.size() && i < 200; ++i) { unsigned t = get(W[i]); if (t != me) edges[me].insert({t, X.loc(L)}); auto it = overriders.find(canonFn(W[i])); if (it != overriders.end()) for (auto *o : it->second) W.push_back(o); }
      } else ext[me].insert({qname(F), X.loc(L)});
    };
    cv.TraverseDecl(const_cast<FunctionDecl *>(FD));
  }
  json::Array A;
  for (unsigned i = 0; i < fn.size(); ++i) {
    auto *F = fn[i];
    json::Array c; for (auto &e : edges[i]) c.push_back(json::Array{(int64_t)e.first, e.second});
    json::Object x; for (auto &e : ext[i]) x[e.first] = e.second;
    std::string cf = X.file(F->getLocation());
    bool pub = F->getAccess() != AS_private && F->getFormalLinkage() != Linkage::Internal && !F->isInAnonymousNamespace();
    A.push_back(json::Object{{"id", (int64_t)i}, {"name", qname(F)}, {"sig", sig(F)}, {"at", X.loc(F->getLocation())}, {"header", llvm::StringRef(cf).ends_with(".h")}, {"public", pub}, {"defined", defined.count(i) > 0}, {"calls", std::move(c)}, {"ext", std::move(x)}});
  }
  Out["graph"] = json::Object{{"functions_analysed", nf}, {"call_sites", nc}, {"nodes", std::move(A)}};
}
// types of variables, fields and parameters (for unordered / pointer-ordered containers)
static void passTypes() {
  json::Object O; unsigned n = 0;
  auto add = [&](QualType T, SourceLocation L, std::string in) {
    ++n; std::string s = T.getCanonicalType().getAsString(X.C->getPrintingPolicy());
    bool hit = s.find("unordered_") != std::string::npos;
    for (auto *k : {"std::set<", "std::map<", "std::multiset<", "std::multimap<", "std::priority_queue<"}) { auto p = s.find(k); while (p != std::string::npos) { auto b = p + strlen(k); int d = 0; size_t e = b; for (; e < s.size(); ++e) { if (s[e] == '<') ++d; if (s[e] == '>') { if (!d) break; --d; } if (s[e] == ',' && !d) break; } while (e > b && s[e-1] == ' ') --e; if (e > b && s[e - 1] == '*') hit = true; p = s.find(k, b); } }
    if (s.find("std::hash<") != std::string::npos || s.find("thread::id") != std::string::npos) hit = true;
    if (hit) O[X.loc(L)] = in + " : " + T.getAsString();
  };
  for (auto *VD : Vis.vars) add(VD->getType(), VD->getLocation(), qname(VD));
  for (auto *RD : Vis.recs) for (auto *F : RD->fields()) add(F->getType(), F->getLocation(), qname(F));
  Out["types"] = json::Object{{"declarations", n}, {"order_dependent", std::move(O)}};
}
// ------------------------------------------------------------------ pass: conv (value-losing implicit conversions)
struct ConvV : RecursiveASTVisitor<ConvV> {
  json::Array *A; unsigned n = 0; const FunctionDecl *F = nullptr; std::set<std::string> seen; unsigned explicitDepth = 0;
  bool shouldVisitImplicitCode() const { return false; }
  std::vector<const Expr *> argOf;
  static bool dblData(const Expr *E, int d = 0) {  // does the value depend on data held in double precision?
    if (d > 60) return true;
    E = E->IgnoreParens();
    if (auto *C = dyn_cast<CastExpr>(E)) {
      QualType S = C->getSubExpr()->getType();
      if (S->isRealFloatingType() && X.C->getTypeSize(S) <= 32) return false;
      if (!S->isRealFloatingType() && C->getType()->isRealFloatingType()) return false;
      return dblData(C->getSubExpr(), d + 1);
    }
    if (!E->getType()->isRealFloatingType()) return false;
    if (X.C->getTypeSize(E->getType()) <= 32) return false;
    if (isa<FloatingLiteral>(E)) return false;
    if (auto *B = dyn_cast<BinaryOperator>(E)) return dblData(B->getLHS(), d + 1) || dblData(B->getRHS(), d + 1);
    if (auto *U = dyn_cast<UnaryOperator>(E)) { if (U->getOpcode() == UO_Minus || U->getOpcode() == UO_Plus) return dblData(U->getSubExpr(), d + 1); return true; }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) return dblData(Q->getTrueExpr(), d + 1) || dblData(Q->getFalseExpr(), d + 1);
    if (auto *C = dyn_cast<CallExpr>(E)) {
      if (isa<CXXOperatorCallExpr>(C) || isa<CXXMemberCallExpr>(C)) return true;
      bool anyF = false, r = false;
      for (auto *A : C->arguments()) { if (A->getType()->isRealFloatingType()) { anyF = true; r = r || dblData(A, d + 1); } else if (!A->getType()->isArithmeticType()) r = true; }
      return anyF ? r : true;
    }
    return true;
  }
  static bool mentionsFloat(QualType T) { std::string s = T.getCanonicalType().getAsString(X.C->getPrintingPolicy()); auto p = s.find("float"); return p != std::string::npos; }
  static bool recFloat(const CXXRecordDecl *R, int d = 0) {
    if (!R || !R->hasDefinition() || d > 4) return false;
    for (auto *f : R->fields()) { if (mentionsFloat(f->getType())) return true; if (auto *Q = f->getType()->getAsCXXRecordDecl()) if (X.inRoot(Q->getLocation()) && recFloat(Q, d + 1)) return true; }
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) for (auto &a : S->getTemplateArgs().asArray()) if (a.getKind() == TemplateArgument::Type) { if (mentionsFloat(a.getAsType()) || recFloat(a.getAsType()->getAsCXXRecordDecl(), d + 1)) return true; }
    for (auto &b : R->bases()) if (recFloat(b.getType()->getAsCXXRecordDecl(), d + 1)) return true;
    return false;
  }
  static bool floatInterface(const FunctionDecl *F) {
    F = ownerFn(F);
    if (mentionsFloat(F->getReturnType())) return true;
    for (auto *P : F->parameters()) { if (mentionsFloat(P->getType())) return true; QualType T = P->getType(); if (T->isReferenceType() || T->isPointerType()) T = T->getPointeeType(); if (recFloat(T->getAsCXXRecordDecl())) return true; }
    if (auto *A = F->getTemplateSpecializationArgs()) for (auto &a : A->asArray()) if (a.getKind() == TemplateArgument::Type && mentionsFloat(a.getAsType())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) return recFloat(M->getParent());
    return false;
  }
  void repLocal(const VarDecl *D) {
    std::string key = X.loc(D->getLocation()) + D->getNameAsString();
    if (seen.insert(key).second) A->push_back(json::Object{{"kind", "float local"}, {"at", X.loc(D->getLocation())}, {"in", qname(F)}, {"insig", sig(F)}, {"floatif", floatInterface(F)}, {"dbl", true}, {"expr", D->getType().getAsString() + " " + D->getNameAsString()}, {"extra", ""}, {"tinst", F->isTemplateInstantiation()}});
  }
  bool force = false;
  void rep(const Expr *E, const char *k, std::string extra = "", const Expr *src = nullptr) {
    std::string key = X.loc(E->getExprLoc()) + k + X.text(E->getSourceRange());
    if (seen.insert(key).second) A->push_back(json::Object{{"kind", k}, {"at", X.loc(E->getExprLoc())}, {"in", qname(F)}, {"insig", sig(F)}, {"floatif", floatInterface(F)}, {"dbl", force || !E->isValueDependent() && dblData(src ? src : isa<CastExpr>(E) ? cast<CastExpr>(E)->getSubExpr() : E)}, {"expr", X.text(E->getSourceRange())}, {"extra", extra}, {"tinst", F->isTemplateInstantiation()}});
  }
  // the integer initialises a local variable that the function uses as an integer (subscript, loop bound, integer argument)
  bool indexIntent(const Expr *E) {
    DynTypedNodeList P = X.C->getParents(*E);
    const VarDecl *VD = nullptr;
    for (int k = 0; k < 6 && !P.empty(); ++k) { if (auto *D = P[0].get<VarDecl>()) { VD = D; break; } if (auto *S = P[0].get<Expr>()) P = X.C->getParents(*S); else break; }
    if (!VD || !F->getBody()) return false;
    struct UV : RecursiveASTVisitor<UV> { const VarDecl *VD; bool hit = false;
      static bool refs(const Expr *E, const VarDecl *V) { E = E->IgnoreParenImpCasts(); if (auto *D = dyn_cast<DeclRefExpr>(E)) return D->getDecl() == V; if (auto *B = dyn_cast<BinaryOperator>(E)) { if (!B->getType()->isIntegerType()) return false; return refs(B->getLHS(), V) || refs(B->getRHS(), V); } return false; }
      bool VisitArraySubscriptExpr(ArraySubscriptExpr *A) { if (refs(A->getIdx(), VD)) hit = true; return true; }
      bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *O) { if (O->getOperator() == OO_Subscript && refs(O->getArg(1), VD)) hit = true; return true; }
      bool VisitVarDecl(VarDecl *D) { if (D->getType()->isIntegerType() && D->getInit() && refs(D->getInit(), VD)) hit = true; return true; } } u;
    u.VD = VD; u.TraverseStmt(F->getBody()); return u.hit;
  }
  bool VisitCompoundAssignOperator(CompoundAssignOperator *E) {
    if (E->isTypeDependent() || E->isValueDependent() || E->getLHS()->isTypeDependent() || E->getRHS()->isTypeDependent()) return true;
    ++n;
    QualType L = E->getLHS()->getType(), C = E->getComputationResultType();
    if (!C->isRealFloatingType()) return true;
    if (L->isRealFloatingType() && X.C->getTypeSize(L) < X.C->getTypeSize(C)) rep(E, "double->float", "", E->getRHS());
    if (L->isIntegralOrEnumerationType()) rep(E, "float->int");
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || !D->isLocalVarDecl() || D->getType()->isDependentType() || D->getType()->isUndeducedType()) return true;
    ++n;
    if (mentionsFloat(D->getType())) repLocal(D);
    return true;
  }
  bool VisitFloatingLiteral(FloatingLiteral *E) {
    if (!E->getType()->isSpecificBuiltinType(BuiltinType::Float)) return true;
    std::string t = X.text(E->getSourceRange());
    ++n;
    if (t.empty() || !(isdigit(t[0]) || t[0] == '.')) return true;
    double d = strtod(t.c_str(), nullptr); double f = E->getValue().convertToDouble();
    if (d != f) rep(E, "inexact float literal");
    return true;
  }
  bool VisitCallExpr(CallExpr *E) {
    auto *FD = E->getDirectCallee();
    // mathematical functions with an integer overload: the exponent or argument is a truncated ratio
    static const std::set<std::string> mf{"pow", "exp", "log", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "hypot", "log10", "exp2", "log2"};
    if (FD && FD->getIdentifier() && mf.count(FD->getName().str()) && !X.inRoot(FD->getLocation())) for (auto *A : E->arguments()) if (!A->isTypeDependent() && A->getType()->isIntegralOrEnumerationType() && hasDiv(A)) rep(A, "int-div->float");
    if (!FD || !FD->getIdentifier() || !FD->isInStdNamespace() || E->getNumArgs() < 3) return true;
    auto nm = FD->getName();
    if (nm != "accumulate" && nm != "reduce" && nm != "inner_product") return true;
    ++n;
    QualType R = E->getType(), V;
    QualType I = E->getArg(0)->getType();
    if (I->isPointerType()) V = I->getPointeeType();
    else if (auto *RD = I->getAsCXXRecordDecl()) if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) if (S->getTemplateArgs().size() && S->getTemplateArgs()[0].getKind() == TemplateArgument::Type) { V = S->getTemplateArgs()[0].getAsType(); if (V->isPointerType()) V = V->getPointeeType(); }
    if (V.isNull()) return true;
    if (V->isRealFloatingType() && R->isIntegralOrEnumerationType()) rep(E, "float->int");
    if (V->isRealFloatingType() && R->isRealFloatingType() && X.C->getTypeSize(R) < X.C->getTypeSize(V)) { force = true; rep(E, "double->float"); force = false; }
    return true;
  }
  bool VisitImplicitCastExpr(ImplicitCastExpr *E) {
    if (E->isPartOfExplicitCast()) return true;
    ++n;
    if (E->getType()->isDependentType() || E->getSubExpr()->getType()->isDependentType()) return true;
    if (E->getCastKind() == CK_FloatingToIntegral) rep(E, indexIntent(E) ? "float->int index" : "float->int");
    if (E->getCastKind() == CK_FloatingCast && X.C->getTypeSize(E->getType()) < X.C->getTypeSize(E->getSubExpr()->getType())) {
      Expr::EvalResult R; if (!E->getSubExpr()->isValueDependent() && E->getSubExpr()->EvaluateAsRValue(R, *X.C)) return true;  // constants
      rep(E, "double->float");
    }
    if (E->getCastKind() == CK_IntegralToFloating) {
      // integer division feeding a floating value
      if (hasDiv(E->getSubExpr())) rep(E, "int-div->float");
    }
    return true;
  }
  static bool hasDiv(const Expr *S) {
    S = S->IgnoreParenImpCasts();
    if (auto *U = dyn_cast<UnaryOperator>(S)) return (U->getOpcode() == UO_Minus || U->getOpcode() == UO_Plus) && hasDiv(U->getSubExpr());
    if (auto *Q = dyn_cast<ConditionalOperator>(S)) return hasDiv(Q->getTrueExpr()) || hasDiv(Q->getFalseExpr());
    auto *B = dyn_cast<BinaryOperator>(S); if (!B || !B->getType()->isIntegralOrEnumerationType()) return false;
    if (B->getOpcode() == BO_Div) return true;
    return (B->getOpcode() == BO_Add || B->getOpcode() == BO_Sub || B->getOpcode() == BO_Mul) && (hasDiv(B->getLHS()) || hasDiv(B->getRHS()));
  }
  bool VisitExplicitCastExpr(ExplicitCastExpr *E) {
    if (E->getType()->isDependentType() || E->getSubExpr()->getType()->isDependentType()) return true;
    QualType S = E->getSubExpr()->IgnoreParenImpCasts()->getType(), T = E->getType();
    ++n;
    if (S->isRealFloatingType() && T->isRealFloatingType() && X.C->getTypeSize(T) < X.C->getTypeSize(S)) {
      Expr::EvalResult R; if (!E->getSubExpr()->isValueDependent() && E->getSubExpr()->EvaluateAsRValue(R, *X.C)) return true;
      rep(E, "explicit double->float");
    }
    if (S->isRealFloatingType() && T->isIntegralOrEnumerationType() && !T->isBooleanType()) rep(E, "explicit float->int");
    if (T->isRealFloatingType() && S->isIntegralOrEnumerationType()) { if (hasDiv(E->getSubExpr())) rep(E, "explicit int-div->float"); }
    return true;
  }
};
static void passConv() {
  json::Array A; ConvV v; v.A = &A; unsigned nf = 0;
  for (auto *FD : Vis.funcs) { ++nf; v.F = FD; v.TraverseDecl(const_cast<FunctionDecl *>(FD)); }
  Out["conv"] = json::Object{{"functions_analysed", nf}, {"conversions", v.n}, {"hits", std::move(A)}};
}
// ------------------------------------------------------------------ pass: tmpl (which generic functions have a type-checked instance)
static void passTmpl() {
  json::Array A; std::set<std::string> inst; std::map<std::string, std::pair<std::string, std::string>> pat; std::map<std::string, std::string> par;
  for (auto *FD : Vis.funcs) {
    if (FD->isDependentContext()) { if (auto *T = FD->getDescribedFunctionTemplate()) { std::string t; for (auto *P : *T->getTemplateParameters()) { if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(P)) t += N->getType().getAsString() + " "; t += P->getNameAsString() + ","; } par[X.loc(FD->getLocation()) + " " + qname(FD)] = t; }
      if (!isa<CXXDeductionGuideDecl>(FD)) pat[X.loc(FD->getLocation()) + " " + qname(FD)] = {sig(FD), X.loc(FD->getLocation())}; }
    else if (auto *P = FD->getTemplateInstantiationPattern()) inst.insert(X.loc(P->getLocation()) + " " + qname(P));
  }
  for (auto &p : pat) A.push_back(json::Object{{"key", p.first}, {"params", par[p.first]}, {"sig", p.second.first}, {"at", p.second.second}, {"inst", (bool)inst.count(p.first)}});
  Out["tmpl"] = std::move(A);
}
static void runExtraPasses() {
  if (Pass.count("tmpl")) passTmpl();
  if (Pass.count("conv")) passConv();
  if (Pass.count("graph")) passGraph();
  if (Pass.count("types")) passTypes();
}
