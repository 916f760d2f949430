// astdump: dumps the type-checked clang AST of one translation unit as JSON.
// Only declarations spelled under the given root directory are dumped (plus lambdas in them).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true;   // hide std::__cxx11 inline namespace where possible
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }
  std::string ty(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); auto F = SM.getFilename(L); return F.str(); }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(const Decl *D) { auto f = file(D->getLocation()); return f.rfind(Root, 0) == 0; }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
  // printable name incl. template args of the enclosing class
  std::string fname(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string cls = ty(C.getTypeDeclType(M->getParent()));
      if (isa<CXXConstructorDecl>(M)) return cls + "::<ctor>";
      if (isa<CXXDestructorDecl>(M)) return cls + "::<dtor>";
      return cls + "::" + M->getNameAsString();
    }
    return qn(F);
  }
  void fn(json::Object &o, const FunctionDecl *F) {
    o["f"] = fname(F);
    json::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType()));
    o["sig"] = std::move(ps);
    o["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true; }
    const FunctionDecl *def = nullptr;
    if (F->isDefined(def) && inRoot(def)) o["def"] = id(def);
    else if (inRoot(F)) o["decl"] = id(F);
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent nodes
    if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
    if (auto *x = dyn_cast<OpaqueValueExpr>(E)) return expr(x->getSourceExpr());
    json::Object o;
    o["k"] = E->getStmtClassName();
    o["l"] = line(E->getBeginLoc());
    o["t"] = ty(E->getType());
    if (E->isLValue()) o["lv"] = true;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str();
      }
    }
    json::Array ch;
    if (auto *x = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; x->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); o["v"] = s.str().str(); }
    else if (auto *x = dyn_cast<CharacterLiteral>(E)) o["v"] = std::to_string((int)x->getValue());
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) o["v"] = x->getValue();
    else if (auto *x = dyn_cast<clang::StringLiteral>(E)) { json::Array b; for (unsigned char ch : x->getBytes()) b.push_back((int)ch); o["v"] = std::move(b); }
    else if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl(); o["n"] = D->getNameAsString(); o["id"] = id(D); o["dk"] = D->getDeclKindName(); o["q"] = qn(D);
      if (auto *F = dyn_cast<FunctionDecl>(D)) fn(o, F);
      if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage()) o["global"] = true; if (V->isStaticLocal()) o["staticlocal"] = true; o["vt"] = ty(V->getType()); }
    }
    else if (auto *x = dyn_cast<MemberExpr>(E)) {
      o["n"] = x->getMemberDecl()->getNameAsString(); o["arrow"] = x->isArrow();
      o["cls"] = ty(C.getTypeDeclType(cast<TypeDecl>(Decl::castFromDeclContext(x->getMemberDecl()->getDeclContext()))));
      if (auto *F = dyn_cast<FunctionDecl>(x->getMemberDecl())) fn(o, F);
      if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["vt"] = ty(fd->getType());
      ch.push_back(expr(x->getBase()));
    }
    else if (auto *x = dyn_cast<CastExpr>(E)) { o["ck"] = x->getCastKindName(); ch.push_back(expr(x->getSubExpr())); }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *F = x->getMethodDecl()) fn(o, F);
      o["virt"] = false;
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); o["obj"] = expr(me->getBase()); }
      else o["obj"] = expr(x->getImplicitObjectArgument());
      for (auto *a : x->arguments()) ch.push_back(expr(a));
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) { fn(o, F); if (isa<CXXMethodDecl>(F)) o["method"] = true; }
      o["op"] = getOperatorSpelling(x->getOperator());
      for (auto *a : x->arguments()) ch.push_back(expr(a));
    }
    else if (auto *x = dyn_cast<CallExpr>(E)) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) fn(o, F);
      else o["callee"] = expr(x->getCallee());
      for (auto *a : x->arguments()) ch.push_back(expr(a));
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      fn(o, x->getConstructor()); o["elidable"] = x->isElidable(); o["listinit"] = x->isListInitialization();
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      if (x->getConstructor()->isDefaultConstructor()) o["default"] = true;
      for (auto *a : x->arguments()) ch.push_back(expr(a));
    }
    else if (auto *x = dyn_cast<BinaryOperator>(E)) { o["op"] = x->getOpcodeStr().str(); 
      if (auto *ca = dyn_cast<CompoundAssignOperator>(E)) { o["ct"] = ty(ca->getComputationResultType()); o["clt"] = ty(ca->getComputationLHSType()); }
      ch.push_back(expr(x->getLHS())); ch.push_back(expr(x->getRHS())); }
    else if (auto *x = dyn_cast<UnaryOperator>(E)) { o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); ch.push_back(expr(x->getSubExpr())); }
    else if (auto *x = dyn_cast<ConditionalOperator>(E)) { ch.push_back(expr(x->getCond())); ch.push_back(expr(x->getTrueExpr())); ch.push_back(expr(x->getFalseExpr())); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) { ch.push_back(expr(x->getBase())); ch.push_back(expr(x->getIdx())); }
    else if (auto *x = dyn_cast<CXXThrowExpr>(E)) { if (x->getSubExpr()) ch.push_back(expr(x->getSubExpr())); }
    else if (auto *x = dyn_cast<CXXNewExpr>(E)) { o["nt"] = ty(x->getAllocatedType()); o["array"] = x->isArray(); if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize()); if (x->getInitializer()) ch.push_back(expr(x->getInitializer())); }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { ch.push_back(expr(x->getArgument())); }
    else if (auto *x = dyn_cast<InitListExpr>(E)) { const InitListExpr *s = x->isSemanticForm() ? x : x->getSemanticForm(); if (!s) s = x; for (auto *a : s->inits()) ch.push_back(expr(a)); if (s->hasArrayFiller()) o["filler"] = true; }
    else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) ch.push_back(expr(x->getSubExpr()));
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["trait"] = (int)x->getKind(); }
    else if (auto *x = dyn_cast<LambdaExpr>(E)) {
      json::Array caps;
      for (auto &c : x->captures()) {
        json::Object co; co["byref"] = c.getCaptureKind() == LCK_ByRef; co["this"] = c.capturesThis();
        if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["t"] = ty(c.getCapturedVar()->getType()); }
        caps.push_back(std::move(co));
      }
      o["captures"] = std::move(caps);
      o["params"] = params(x->getCallOperator());
      o["ret"] = ty(x->getCallOperator()->getReturnType());
      o["body"] = stmt(x->getBody());
    }
    else if (isa<CXXThisExpr>(E) || isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E) || isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {}
    else { for (auto *c : E->children()) ch.push_back(c ? stmt(c) : json::Value(nullptr)); }
    if (!ch.empty()) o["c"] = std::move(ch);
    return json::Value(std::move(o));
  }
  json::Value params(const FunctionDecl *F) {
    json::Array a;
    for (auto *p : F->parameters()) { json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); a.push_back(std::move(po)); }
    return json::Value(std::move(a));
  }
  json::Object var(const VarDecl *V) {
    json::Object o; o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["q"] = qn(V); o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["staticlocal"] = true;
    if (V->hasGlobalStorage()) o["global"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    json::Object o; o["k"] = S->getStmtClassName(); o["l"] = line(S->getBeginLoc());
    json::Array ch;
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      json::Array vs; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) vs.push_back(var(v)); 
      o["vars"] = std::move(vs);
    }
    else if (auto *x = dyn_cast<IfStmt>(S)) { if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable()); o["cond"] = expr(x->getCond()); o["then"] = stmt(x->getThen()); o["else"] = stmt(x->getElse()); }
    else if (auto *x = dyn_cast<WhileStmt>(S)) { if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable()); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<DoStmt>(S)) { o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ForStmt>(S)) { o["init"] = stmt(x->getInit()); o["cond"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(S)) { o["range"] = expr(x->getRangeInit()); o["var"] = var(x->getLoopVariable()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ReturnStmt>(S)) { if (x->getRetValue()) o["v"] = expr(x->getRetValue()); }
    else if (auto *x = dyn_cast<SwitchStmt>(S)) { if (x->getInit()) o["init"] = stmt(x->getInit()); o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CaseStmt>(S)) { o["v"] = expr(x->getLHS()); o["sub"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<DefaultStmt>(S)) { o["sub"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<GotoStmt>(S)) { o["label"] = x->getLabel()->getNameAsString(); }
    else if (auto *x = dyn_cast<LabelStmt>(S)) { o["label"] = x->getName(); o["sub"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      o["body"] = stmt(x->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto *h = x->getHandler(i); json::Object ho; if (h->getExceptionDecl()) { ho["t"] = ty(h->getCaughtType()); ho["var"] = var(h->getExceptionDecl()); } ho["body"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
      o["handlers"] = std::move(hs);
    }
    else if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    else { for (auto *c : S->children()) ch.push_back(c ? stmt(c) : json::Value(nullptr)); }
    if (!ch.empty()) o["c"] = std::move(ch);
    return json::Value(std::move(o));
  }
  json::Object func(const FunctionDecl *F) {
    json::Object o; fn(o, F);
    o["id"] = id(F); o["n"] = F->getNameAsString(); o["file"] = file(F->getLocation()); o["l"] = line(F->getLocation()); o["el"] = line(F->getEndLoc());
    o["params"] = params(F);
    if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) o["internal"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = ty(C.getTypeDeclType(M->getParent())); o["virtual"] = M->isVirtual(); 
      o["access"] = (int)M->getAccess(); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true; json::Array is;
      for (auto *i : K->inits()) { json::Object io; if (i->isAnyMemberInitializer()) { io["m"] = i->getAnyMember()->getNameAsString(); io["mt"] = ty(i->getAnyMember()->getType()); } else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0)); else io["delegating"] = true; io["written"] = i->isWritten(); io["e"] = expr(i->getInit()); is.push_back(std::move(io)); }
      o["inits"] = std::move(is);
      o["implicit"] = K->isImplicit();
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    o["body"] = stmt(F->getBody());
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; json::Array funcs, records, enums, globals;
  std::set<const Decl*> seen;
  V(Dumper &d) : D(d) {}
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !D.inRoot(F) || F->isDependentContext()) return true;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!F->getBody()) return true;
    if (!seen.insert(F).second) return true;
    funcs.push_back(D.func(F)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !D.inRoot(R) || R->isLambda() || R->isDependentContext()) return true;
    json::Object o; o["n"] = D.ty(D.C.getTypeDeclType(R));
    json::Array bs; for (auto &b : R->bases()) bs.push_back(D.ty(b.getType())); o["bases"] = std::move(bs);
    json::Array fs; for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = D.ty(f->getType()); if (f->hasInClassInitializer()) fo["init"] = D.expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs); records.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!D.inRoot(E) || !E->isThisDeclarationADefinition()) return true;
    json::Object o; o["n"] = D.ty(D.C.getTypeDeclType(E)); json::Array vs;
    for (auto *e : E->enumerators()) { json::Object eo; eo["n"] = e->getNameAsString(); llvm::SmallString<32> s; e->getInitVal().toString(s, 10); eo["v"] = s.str().str(); vs.push_back(std::move(eo)); }
    o["values"] = std::move(vs); enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (!X->hasGlobalStorage() || X->isStaticLocal() || !D.inRoot(X) || X->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(X)) return true;
    globals.push_back(D.var(X)); return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["functions"] = std::move(v.funcs); o["records"] = std::move(v.records); o["enums"] = std::move(v.enums); o["globals"] = std::move(v.globals);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); } };
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

int main(int argc, const char **argv) {
  // astdump ROOT FILE -- flags
  if (argc < 4) return 2;
  Root = argv[1];
  std::vector<std::string> flags; for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  flags.push_back("-resource-dir"); flags.push_back("/usr/lib/llvm-18/lib/clang/18");
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[2]});
  Fac f; return tool.run(&f);
}
