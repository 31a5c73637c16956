// cxxport: mechanical extraction of C++ function bodies to JSON.
// usage: cxxport --roots REGEX[,..] --prefix PATHPREFIX[:..] FILE -- FLAGS
// Exports, from the translation unit as the compiler sees it (templates
// instantiated), every function whose qualified name matches a root regex and,
// transitively, everything it calls whose definition lies under a prefix.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include <map>
#include <set>
#include <deque>
#include <iostream>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots, Prefixes;

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::set<const CXXRecordDecl *> recs;
  std::deque<const CXXRecordDecl *> recwork;
  json::Array funcs, records;

  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.Bool = true;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    return ids[d] = n;
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    t = t.getCanonicalType();
    noteType(t);
    return t.getAsString(PP);
  }
  void noteType(QualType t) {
    t = t.getNonReferenceType();
    while (t->isPointerType()) t = t->getPointeeType();
    if (auto *r = t->getAsCXXRecordDecl()) noteRec(r);
  }
  void noteRec(const CXXRecordDecl *r) {
    if (!r->hasDefinition()) return;
    r = r->getDefinition();
    if (recs.insert(r).second) recwork.push_back(r);
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool ours(SourceLocation l) {
    std::string f = file(l);
    for (auto &p : Prefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  std::string qn(const NamedDecl *d) {
    // qualified name without template arguments or anonymous/inline namespaces
    std::string s = d->getDeclName().getAsString();
    if (auto *ctor = dyn_cast<CXXConstructorDecl>(d)) s = ctor->getParent()->getName().str();
    else if (isa<CXXDestructorDecl>(d)) s = "~" + cast<CXXDestructorDecl>(d)->getParent()->getName().str();
    else if (isa<CXXConversionDecl>(d)) s = "operator " + cast<CXXConversionDecl>(d)->getConversionType().getCanonicalType().getAsString(PP);
    for (const DeclContext *c = d->getDeclContext(); c; c = c->getParent()) {
      if (auto *n = dyn_cast<NamespaceDecl>(c)) {
        if (n->isInline() || n->isAnonymousNamespace()) continue;
        s = n->getName().str() + "::" + s;
      } else if (auto *r = dyn_cast<RecordDecl>(c)) {
        s = r->getName().str() + "::" + s;
      } else if (auto *f = dyn_cast<FunctionDecl>(c)) {
        s = f->getDeclName().getAsString() + "::" + s;
      } else if (auto *e = dyn_cast<EnumDecl>(c)) {
        if (!e->isScoped()) continue;
        s = e->getName().str() + "::" + s;
      }
    }
    return s;
  }
  void enqueue(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def)) return;
    if (def->isDependentContext()) return;
    SourceLocation l = def->getLocation();
    if (auto *p = def->getTemplateInstantiationPattern()) l = p->getLocation();
    if (!ours(l)) return;
    if (seen.insert(def).second) work.push_back(def);
  }
  json::Object callee(const FunctionDecl *f) {
    json::Object o;
    o["q"] = qn(f);
    o["id"] = id(f->getCanonicalDecl());
    o["sig"] = ty(f->getType());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = ty(C.getRecordType(m->getParent()));
      if (m->isVirtual()) o["virtual"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
    }
    if (f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : f->getTemplateSpecializationArgs()->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        if (x.getKind() == TemplateArgument::Type) os << ty(x.getAsType());
        else x.print(PP, os, true);
        a.push_back(os.str());
      }
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto *p : f->parameters()) ps.push_back(ty(p->getType()));
    o["params"] = std::move(ps);
    o["ret"] = ty(f->getReturnType());
    const FunctionDecl *def;
    o["ours"] = f->hasBody(def) && [&] {
      SourceLocation l = def->getLocation();
      if (auto *p = def->getTemplateInstantiationPattern()) l = p->getLocation();
      return ours(l); }();
    enqueue(f);
    return o;
  }
  json::Object vardecl(const VarDecl *v) {
    json::Object o;
    o["n"] = v->getNameAsString();
    o["id"] = id(v);
    o["t"] = ty(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) {
      o["init"] = stmt(v->getInit());
      if (v->getInitStyle() == VarDecl::CInit) o["style"] = "c";
    }
    return o;
  }
  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    // transparent wrappers
    if (auto *e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<ExprWithCleanups>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
    if (auto *e = dyn_cast<ConstantExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) { return stmt(e->getExpr()); }
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) { return stmt(e->getExpr()); }
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<AttributedStmt>(s)) return stmt(e->getSubStmt());
    json::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) {
      o["t"] = ty(e->getType());
      if (e->isGLValue()) o["lv"] = true;
      if (!e->isValueDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType() &&
          !isa<IntegerLiteral>(e) && !isa<CharacterLiteral>(e) && !isa<CXXBoolLiteralExpr>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C) && !r.HasSideEffects) {
          llvm::SmallString<32> b; r.Val.getInt().toString(b);
          o["cv"] = b.str().str();
        }
      }
    }
    auto kids = [&](auto range) { json::Array a; for (auto *x : range) a.push_back(stmt(x)); return a; };
    switch (s->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto *d = cast<DeclRefExpr>(s)->getDecl();
      o["n"] = d->getNameAsString();
      o["dk"] = d->getDeclKindName();
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["fn"] = callee(f); }
      else {
        o["q"] = qn(d); o["id"] = id(d);
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() ) {
            o["global"] = true;
            if (v->getType().isConstQualified() && v->getAnyInitializer() && (!v->getType()->isRecordType() || v->getType().getCanonicalType().getAsString().find("basic_string<") != std::string::npos)) o["ginit"] = stmt(v->getAnyInitializer());
          }
        }
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> b; ec->getInitVal().toString(b); o["cv"] = b.str().str(); }
      }
      return o; }
    case Stmt::MemberExprClass: {
      auto *m = cast<MemberExpr>(s);
      auto *d = m->getMemberDecl();
      o["n"] = d->getNameAsString();
      o["q"] = qn(d);
      o["dk"] = d->getDeclKindName();
      if (m->isArrow()) o["arrow"] = true;
      if (m->hasQualifier()) o["qualified"] = true;
      if (auto *f = dyn_cast<FunctionDecl>(d)) o["fn"] = callee(f);
      o["c"] = json::Array{stmt(m->getBase())};
      return o; }
    case Stmt::CXXMemberCallExprClass: {
      auto *m = cast<CXXMemberCallExpr>(s);
      if (auto *f = m->getMethodDecl()) {
        o["fn"] = callee(f);
        auto *me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParenImpCasts());
        if (me) { o["obj"] = stmt(me->getBase()); if (me->isArrow()) o["arrow"] = true; if (me->hasQualifier()) o["qualified"] = true; }
        else o["obj"] = stmt(m->getImplicitObjectArgument());
      } else o["calleeExpr"] = stmt(m->getCallee());
      o["args"] = kids(m->arguments());
      return o; }
    case Stmt::CXXOperatorCallExprClass: {
      auto *m = cast<CXXOperatorCallExpr>(s);
      o["op"] = getOperatorSpelling(m->getOperator());
      if (auto *f = m->getDirectCallee()) o["fn"] = callee(f);
      o["args"] = kids(m->arguments());
      return o; }
    case Stmt::CallExprClass: {
      auto *m = cast<CallExpr>(s);
      if (auto *f = m->getDirectCallee()) o["fn"] = callee(f);
      else o["calleeExpr"] = stmt(m->getCallee());
      o["args"] = kids(m->arguments());
      return o; }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *m = cast<CXXConstructExpr>(s);
      o["k"] = "CXXConstructExpr";
      o["fn"] = callee(m->getConstructor());
      if (m->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (m->getConstructor()->isDefaultConstructor()) o["dflt"] = true;
      if (m->getConstructor()->isImplicit() || m->getConstructor()->isDefaulted()) o["implicit"] = true;
      o["args"] = kids(m->arguments());
      return o; }
    case Stmt::CXXNewExprClass: {
      auto *m = cast<CXXNewExpr>(s);
      o["at"] = ty(m->getAllocatedType());
      if (m->isArray()) o["array"] = true;
      if (m->getInitializer()) o["init"] = stmt(m->getInitializer());
      return o; }
    case Stmt::CXXDeleteExprClass: {
      auto *m = cast<CXXDeleteExpr>(s);
      o["c"] = json::Array{stmt(m->getArgument())};
      return o; }
    case Stmt::IntegerLiteralClass: {
      llvm::SmallString<32> b;
      cast<IntegerLiteral>(s)->getValue().toString(b, 10, cast<Expr>(s)->getType()->isSignedIntegerType());
      o["v"] = b.str().str(); return o; }
    case Stmt::CharacterLiteralClass:
      o["v"] = std::to_string((long)(cast<Expr>(s)->getType()->isCharType() ? (long)(signed char)cast<CharacterLiteral>(s)->getValue() : (long)cast<CharacterLiteral>(s)->getValue())); return o;
    case Stmt::CXXBoolLiteralExprClass:
      o["v"] = cast<CXXBoolLiteralExpr>(s)->getValue(); return o;
    case Stmt::FloatingLiteralClass: {
      llvm::SmallString<40> b; cast<FloatingLiteral>(s)->getValue().toString(b, 40, 0);
      o["v"] = b.str().str(); return o; }
    case Stmt::StringLiteralClass: {
      auto *l = cast<StringLiteral>(s); json::Array a;
      for (unsigned i = 0; i < l->getLength(); ++i) a.push_back((int64_t)l->getCodeUnit(i));
      o["v"] = std::move(a); return o; }
    case Stmt::UnaryOperatorClass: {
      auto *u = cast<UnaryOperator>(s);
      o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      if (u->isPostfix()) o["post"] = true;
      o["c"] = json::Array{stmt(u->getSubExpr())};
      return o; }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *b = cast<BinaryOperator>(s);
      o["op"] = b->getOpcodeStr().str();
      if (auto *ca = dyn_cast<CompoundAssignOperator>(s)) { o["ct"] = ty(ca->getComputationResultType()); o["clt"] = ty(ca->getComputationLHSType()); }
      o["c"] = json::Array{stmt(b->getLHS()), stmt(b->getRHS())};
      return o; }
    case Stmt::ConditionalOperatorClass: {
      auto *c = cast<ConditionalOperator>(s);
      o["c"] = json::Array{stmt(c->getCond()), stmt(c->getTrueExpr()), stmt(c->getFalseExpr())};
      return o; }
    case Stmt::UnaryExprOrTypeTraitExprClass: return o;
    case Stmt::DeclStmtClass: {
      json::Array a;
      for (auto *d : cast<DeclStmt>(s)->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["decls"] = std::move(a);
      return o; }
    case Stmt::IfStmtClass: {
      auto *i = cast<IfStmt>(s);
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["var"] = vardecl(i->getConditionVariable());
      o["c"] = json::Array{stmt(i->getCond()), stmt(i->getThen()), stmt(i->getElse())};
      return o; }
    case Stmt::WhileStmtClass: {
      auto *w = cast<WhileStmt>(s);
      if (w->getConditionVariable()) o["var"] = vardecl(w->getConditionVariable());
      o["c"] = json::Array{stmt(w->getCond()), stmt(w->getBody())};
      return o; }
    case Stmt::DoStmtClass: {
      auto *w = cast<DoStmt>(s);
      o["c"] = json::Array{stmt(w->getCond()), stmt(w->getBody())};
      return o; }
    case Stmt::ForStmtClass: {
      auto *f = cast<ForStmt>(s);
      o["c"] = json::Array{stmt(f->getInit()), stmt(f->getCond()), stmt(f->getInc()), stmt(f->getBody())};
      return o; }
    case Stmt::CXXForRangeStmtClass: {
      auto *f = cast<CXXForRangeStmt>(s);
      o["range"] = stmt(f->getRangeInit());
      o["var"] = vardecl(f->getLoopVariable());
      o["body"] = stmt(f->getBody());
      return o; }
    case Stmt::SwitchStmtClass: {
      auto *w = cast<SwitchStmt>(s);
      o["c"] = json::Array{stmt(w->getCond()), stmt(w->getBody())};
      return o; }
    case Stmt::CaseStmtClass: {
      auto *c = cast<CaseStmt>(s);
      Expr::EvalResult r;
      if (c->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> b; r.Val.getInt().toString(b); o["v"] = b.str().str(); }
      o["c"] = json::Array{stmt(c->getSubStmt())};
      return o; }
    case Stmt::DefaultStmtClass:
      o["c"] = json::Array{stmt(cast<DefaultStmt>(s)->getSubStmt())}; return o;
    case Stmt::CXXThrowExprClass:
      o["c"] = json::Array{stmt(cast<CXXThrowExpr>(s)->getSubExpr())}; return o;
    case Stmt::CXXTryStmtClass: {
      auto *t = cast<CXXTryStmt>(s);
      o["body"] = stmt(t->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto *h = t->getHandler(i); json::Object ho;
        ho["t"] = h->getCaughtType().isNull() ? std::string("...") : ty(h->getCaughtType());
        if (h->getExceptionDecl()) ho["var"] = vardecl(h->getExceptionDecl());
        ho["body"] = stmt(h->getHandlerBlock());
        a.push_back(std::move(ho));
      }
      o["handlers"] = std::move(a);
      return o; }
    case Stmt::LambdaExprClass: o["unsupported"] = true; return o;
    default: break;
    }
    if (auto *c = dyn_cast<CastExpr>(s)) {
      o["k"] = isa<ImplicitCastExpr>(s) ? "ImplicitCastExpr" : "ExplicitCastExpr";
      o["ck"] = c->getCastKindName();
      o["ec"] = s->getStmtClassName();
    }
    json::Array a;
    for (auto *x : s->children()) a.push_back(stmt(x));
    o["c"] = std::move(a);
    return o;
  }
  void exportFn(const FunctionDecl *f) {
    json::Object o = callee(f);
    SourceLocation l = f->getLocation();
    o["file"] = file(l);
    o["line"] = line(l);
    o["endline"] = line(f->getEndLoc());
    json::Array ps;
    for (auto *p : f->parameters()) ps.push_back(vardecl(p));
    o["pdecls"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(qn(b));
      o["overrides"] = std::move(ov);
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array is;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) { io["field"] = i->getAnyMember()->getNameAsString(); io["q"] = qn(i->getAnyMember()); io["ft"] = ty(i->getAnyMember()->getType()); }
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else io["deleg"] = true;
        io["written"] = i->isWritten();
        io["init"] = stmt(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = stmt(f->getBody());
    funcs.push_back(std::move(o));
  }
  void exportRec(const CXXRecordDecl *r) {
    SourceLocation l = r->getLocation();
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(r)) l = s->getSpecializedTemplate()->getLocation();
    if (!ours(l)) return;
    json::Object o;
    o["t"] = ty(C.getRecordType(r));
    o["q"] = qn(r);
    json::Array fs, bs;
    for (auto *f : r->fields()) { json::Object x; x["n"] = f->getNameAsString(); x["t"] = ty(f->getType()); fs.push_back(std::move(x)); }
    o["fields"] = std::move(fs);
    for (auto &b : r->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    records.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X; std::vector<llvm::Regex> rx;
  Visitor(Exporter &x) : X(x) { for (auto &r : Roots) rx.emplace_back("^(" + r + ")$"); }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    std::string q = X.qn(f);
    for (auto &r : rx) if (r.match(q)) { X.enqueue(f); break; }
    return true;
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!X.work.empty()) { auto *f = X.work.front(); X.work.pop_front(); X.exportFn(f); }
    while (!X.recwork.empty()) { auto *r = X.recwork.front(); X.recwork.pop_front(); X.exportRec(r); }
    json::Object top;
    top["functions"] = std::move(X.funcs);
    top["records"] = std::move(X.records);
    llvm::outs() << json::Value(std::move(top)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { CI.getDiagnostics().setSuppressAllDiagnostics(false); return std::make_unique<Consumer>(); }
};
static void split(const std::string &s, char c, std::vector<std::string> &out) {
  size_t p = 0; while (p <= s.size()) { size_t q = s.find(c, p); if (q == std::string::npos) q = s.size(); if (q > p) out.push_back(s.substr(p, q - p)); p = q + 1; }
}
int main(int argc, const char **argv) {
  std::string fileName; std::vector<std::string> flags; int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "--roots") split(argv[++i], ',', Roots);
    else if (a == "--prefix") split(argv[++i], ':', Prefixes);
    else fileName = a;
  }
  for (; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {fileName});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
