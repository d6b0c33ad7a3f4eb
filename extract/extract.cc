// Static extractor: parses one translation unit of slinky with the clang front end and dumps, as JSON, the type-checked
// program (resolved callees, overload/override information, classes, enums, function bodies, lambdas, template
// instantiations). Nothing in the analysed program is executed.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;

static std::string g_root;
static llvm::raw_ostream* g_out;

static void jstr(llvm::raw_ostream& o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
}

class Dumper {
public:
  ASTContext& ctx;
  SourceManager& sm;
  llvm::raw_ostream& o;
  PrintingPolicy pp;
  std::map<const Decl*, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> type_list;

  Dumper(ASTContext& c, llvm::raw_ostream& o) : ctx(c), sm(c.getSourceManager()), o(o), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.PrintCanonicalTypes = true;
    pp.FullyQualifiedName = true;
    pp.Bool = true;
    pp.AnonymousTagLocations = false;
  }

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.insert({d, (int)ids.size() + 1});
    return it.first->second;
  }
  int ty(QualType t) {
    std::string s = t.isNull() ? "" : t.getAsString(pp);
    auto it = types.insert({s, (int)type_list.size()});
    if (it.second) type_list.push_back(s);
    return it.first->second;
  }
  int line(SourceLocation l) { return l.isValid() ? (int)sm.getExpansionLineNumber(l) : 0; }
  std::string file(SourceLocation l) {
    if (l.isInvalid()) return "";
    llvm::StringRef f = sm.getFilename(sm.getExpansionLoc(l));
    std::string s = f.str();
    if (s.rfind(g_root, 0) == 0) s = s.substr(g_root.size());
    return s;
  }
  bool in_root(SourceLocation l) {
    if (l.isInvalid()) return false;
    llvm::StringRef f = sm.getFilename(sm.getExpansionLoc(l));
    return f.starts_with(g_root);
  }

  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }
  // A name for a function that distinguishes overloads.
  std::string tystr(QualType t) { return t.isNull() ? "" : t.getAsString(pp); }
  std::string fsig(const FunctionDecl* f) {
    std::string s = qn(f);
    if (auto* r = dyn_cast<CXXMethodDecl>(f)) {
      if (r->getParent()->isLambda()) s = "lambda@" + file(r->getParent()->getBeginLoc()) + ":" + std::to_string(id(r->getParent()));
    }
    if (const TemplateArgumentList* a = f->getTemplateSpecializationArgs()) {
      llvm::raw_string_ostream os(s);
      printTemplateArgumentList(os, a->asArray(), pp);
    }
    s += "(";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += p->getType().getAsString(pp);
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) s += " const";
    }
    // Distinguish members of class template specialisations.
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (isa<ClassTemplateSpecializationDecl>(m->getParent())) {
        s = ctx.getTypeDeclType(m->getParent()).getAsString(pp) + " :: " + s;
      }
    }
    return s;
  }

  void key(const char* k) { o << ",\"" << k << "\":"; }
  void kv(const char* k, llvm::StringRef v) { key(k); jstr(o, v); }
  void kv(const char* k, int v) { key(k); o << v; }

  // ---- statements and expressions -------------------------------------------------------------------------------
  const Stmt* strip(const Stmt* s) {
    while (s) {
      if (auto* e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
      else break;
    }
    return s;
  }

  template <typename R>
  void list(const char* k, R&& r) {
    key(k);
    o << '[';
    bool first = true;
    for (const auto* s : r) {
      if (!first) o << ',';
      first = false;
      node(s);
    }
    o << ']';
  }
  void child(const char* k, const Stmt* s) {
    key(k);
    node(s);
  }

  void head(const char* kind, const Stmt* s) {
    o << "{\"k\":\"" << kind << "\"";
    kv("l", line(s->getBeginLoc()));
    if (auto* e = dyn_cast<Expr>(s)) {
      kv("t", ty(e->getType()));
      if (e->isLValue()) kv("lv", 1);
      if (!nar_.empty()) kv("nar", nar_);
      if (uns_) kv("uns", 1);
    }
    nar_.clear();
    uns_ = false;
  }

  void vardecl(const VarDecl* v) {
    o << "{\"n\":";
    jstr(o, v->getName());
    kv("d", id(v));
    kv("t", ty(v->getType()));
    kv("l", line(v->getLocation()));
    if (v->isStaticLocal() || v->getStorageDuration() == SD_Static) kv("static", 1);
    if (v->getTLSKind() != VarDecl::TLS_None) kv("tls", 1);
    if (v->hasInit()) child("init", v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      key("binds");
      o << '[';
      bool f = true;
      for (auto* b : dd->bindings()) {
        if (!f) o << ',';
        f = false;
        o << "{\"n\":";
        jstr(o, b->getName());
        kv("d", id(b));
        if (b->getBinding()) child("e", b->getBinding());
        if (b->getHoldingVar() && b->getHoldingVar()->hasInit()) child("h", b->getHoldingVar()->getInit());
        o << '}';
      }
      o << ']';
    }
    o << '}';
  }

  void callee(const FunctionDecl* f) {
    kv("fn", qn(f));
    kv("fid", fsig(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) kv("virt", 1);
      if (m->isConst()) kv("cm", 1);
      if (m->isStatic()) kv("sm", 1);
      if (m->getParent()->isLambda()) kv("lam", id(m->getParent()));
      kv("rec", ty(ctx.getTypeDeclType(m->getParent())));
    }
    key("pt");
    o << '[';
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o << ',';
      first = false;
      o << ty(p->getType());
    }
    o << ']';
  }

  void dump_lambda(const LambdaExpr* L) {
    kv("lam", id(L->getLambdaClass()));
    key("caps");
    o << '[';
    bool first = true;
    auto init = L->capture_init_begin();
    for (const LambdaCapture& c : L->captures()) {
      if (!first) o << ',';
      first = false;
      if (c.capturesThis()) {
        o << "{\"n\":\"this\",\"ref\":" << (c.getCaptureKind() == LCK_StarThis ? 0 : 1) << "}";
      } else if (c.capturesVariable()) {
        auto* v = c.getCapturedVar();
        o << "{\"n\":";
        jstr(o, v->getName());
        kv("d", id(v));
        kv("ref", c.getCaptureKind() == LCK_ByRef ? 1 : 0);
        kv("t", ty(v->getType()));
        if (auto* vd = dyn_cast<VarDecl>(v)) {
          if (vd->isInitCapture()) { kv("ic", 1); if (vd->hasInit()) child("init", vd->getInit()); }
        }
        o << '}';
      } else {
        o << "{\"n\":\"vla\"}";
      }
      ++init;
    }
    o << ']';
    const CXXMethodDecl* m = L->getCallOperator();
    params(m);
    kv("rt", ty(m->getReturnType()));
    child("body", m->getBody());
    // Instantiations of a generic lambda.
    if (auto* ft = m->getDescribedFunctionTemplate()) {
      key("insts");
      o << '[';
      bool f1 = true;
      for (auto* sp : ft->specializations()) {
        if (!sp->doesThisDeclarationHaveABody()) continue;
        if (!f1) o << ',';
        f1 = false;
        o << "{\"fid\":";
        jstr(o, fsig(sp));
        params(sp);
        kv("rt", ty(sp->getReturnType()));
        child("body", sp->getBody());
        o << '}';
      }
      o << ']';
    }
  }

  void params(const FunctionDecl* f, bool defaults = false) {
    key("params");
    o << '[';
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o << ',';
      first = false;
      o << "{\"n\":";
      jstr(o, p->getName());
      kv("d", id(p));
      kv("t", ty(p->getType()));
      if (p->isParameterPack()) kv("pack", 1);
      if (defaults && p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
        key("def");
        node(p->getDefaultArg());
      }
      o << '}';
    }
    o << ']';
  }

  void cval(const Expr* e) {
    if (e->getType().isNull() || e->isValueDependent() || e->isTypeDependent()) return;
    if (!e->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx)) {
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      key("cv");
      o << s;
    }
  }

  // Implicit integer conversions that can lose bits, or the sign: recorded on the node that is converted.
  std::string nar_;
  bool uns_ = false;
  void conversions(const Stmt* s) {
    nar_.clear();
    uns_ = false;
    for (; s; ) {
      if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
        const Expr* x = e->getSubExpr();
        if (e->getCastKind() == CK_IntegralCast && !e->isValueDependent() && !x->isTypeDependent()) {
          QualType to = e->getType(), from = x->getType();
          Expr::EvalResult r;
          if (to->isIntegerType() && from->isIntegerType() && !x->isValueDependent() && !x->EvaluateAsInt(r, ctx)) {
            if (ctx.getIntWidth(to) < ctx.getIntWidth(from) && ctx.getIntWidth(from) == 64) nar_ = to.getCanonicalType().getUnqualifiedType().getAsString();
            if (from->isSignedIntegerType() && to->isUnsignedIntegerType()) uns_ = true;
          }
        }
        s = x;
      }
      else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else break;
    }
  }

  void node(const Stmt* s0) {
    conversions(s0);
    const Stmt* s = strip(s0);
    if (!s) {
      o << "null";
      return;
    }
    switch (s->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto* e = cast<DeclRefExpr>(s);
      const ValueDecl* d = e->getDecl();
      head("ref", s);
      kv("n", d->getNameAsString());
      kv("d", id(d));
      const char* dk = isa<ParmVarDecl>(d) ? "parm" : isa<VarDecl>(d) ? "var" : isa<FunctionDecl>(d) ? "func"
          : isa<EnumConstantDecl>(d) ? "enum" : isa<BindingDecl>(d) ? "bind" : isa<FieldDecl>(d) ? "field"
          : isa<CXXMethodDecl>(d) ? "func" : "other";
      kv("dk", dk);
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage()) { kv("g", 1); kv("q", qn(d)); }
        if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())) cval(e);
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        kv("q", qn(d));
        kv("fid", fsig(f));
      } else if (isa<EnumConstantDecl>(d)) {
        kv("q", qn(d));
        cval(e);
      } else if (!isa<ParmVarDecl>(d)) {
        kv("q", qn(d));
      }
      if (e->refersToEnclosingVariableOrCapture()) kv("cap", 1);
      o << '}';
      return;
    }
    case Stmt::MemberExprClass: {
      auto* e = cast<MemberExpr>(s);
      const ValueDecl* d = e->getMemberDecl();
      head("mem", s);
      kv("n", d->getNameAsString());
      kv("q", qn(d));
      kv("d", id(d));
      kv("dk", isa<FieldDecl>(d) ? "field" : isa<CXXMethodDecl>(d) ? "func" : isa<VarDecl>(d) ? "svar" : "other");
      if (auto* f = dyn_cast<FunctionDecl>(d)) kv("fid", fsig(f));
      if (e->isArrow()) kv("arrow", 1);
      child("b", e->getBase());
      o << '}';
      return;
    }
    case Stmt::CXXThisExprClass:
      head("this", s);
      o << '}';
      return;
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::CXXMemberCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto* e = cast<CallExpr>(s);
      head("call", s);
      kv("le", line(e->getEndLoc()));
      if (auto* f = e->getDirectCallee()) {
        callee(f);
      } else {
        child("callee", e->getCallee());
      }
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s)) {
        kv("op", getOperatorSpelling(oc->getOperator()));
        list("args", e->arguments());
      } else {
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(s)) {
          if (auto* b = mc->getImplicitObjectArgument()) child("obj", b);
          if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
            if (me->isArrow()) kv("arrow", 1);
            if (me->hasQualifier()) kv("qual", 1);
          }
        }
        list("args", e->arguments());
      }
      o << '}';
      return;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto* e = cast<CXXConstructExpr>(s);
      auto* c = e->getConstructor();
      head("ctor", s);
      callee(c);
      if (c->isCopyConstructor()) kv("copy", 1);
      if (c->isMoveConstructor()) kv("move", 1);
      if (c->isDefaultConstructor()) kv("dflt", 1);
      if (e->isListInitialization()) kv("li", 1);
      list("args", e->arguments());
      o << '}';
      return;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      head("ctor", s);
      callee(cast<CXXInheritedCtorInitExpr>(s)->getConstructor());
      o << ",\"args\":[]}";
      return;
    }
    case Stmt::CXXDefaultArgExprClass: {
      head("defarg", s);
      child("e", cast<CXXDefaultArgExpr>(s)->getExpr());
      o << '}';
      return;
    }
    case Stmt::UnaryOperatorClass: {
      auto* e = cast<UnaryOperator>(s);
      head("un", s);
      kv("op", UnaryOperator::getOpcodeStr(e->getOpcode()));
      if (e->isPostfix()) kv("post", 1);
      child("e", e->getSubExpr());
      cval(e);
      o << '}';
      return;
    }
    case Stmt::CompoundAssignOperatorClass:
    case Stmt::BinaryOperatorClass: {
      auto* e = cast<BinaryOperator>(s);
      head("bin", s);
      kv("op", e->getOpcodeStr());
      child("L", e->getLHS());
      child("R", e->getRHS());
      o << '}';
      return;
    }
    case Stmt::ConditionalOperatorClass: {
      auto* e = cast<ConditionalOperator>(s);
      head("cond", s);
      child("c", e->getCond());
      child("a", e->getTrueExpr());
      child("b", e->getFalseExpr());
      o << '}';
      return;
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto* e = cast<BinaryConditionalOperator>(s);
      head("cond", s);
      child("c", e->getCommon());
      child("a", e->getCommon());
      child("b", e->getFalseExpr());
      o << '}';
      return;
    }
    case Stmt::OpaqueValueExprClass: {
      node(cast<OpaqueValueExpr>(s)->getSourceExpr());
      return;
    }
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto* e = cast<ExplicitCastExpr>(s);
      head("cast", s);
      kv("ck", e->getStmtClassName());
      kv("to", ty(e->getTypeAsWritten()));
      kv("from", ty(strip(e->getSubExpr()) ? cast<Expr>(strip(e->getSubExpr()))->getType() : QualType()));
      kv("cast", e->getCastKindName());
      child("e", e->getSubExpr());
      o << '}';
      return;
    }
    case Stmt::IntegerLiteralClass:
      head("lit", s);
      cval(cast<Expr>(s));
      o << '}';
      return;
    case Stmt::CXXBoolLiteralExprClass:
      head("lit", s);
      kv("cv", cast<CXXBoolLiteralExpr>(s)->getValue() ? 1 : 0);
      kv("bool", 1);
      o << '}';
      return;
    case Stmt::CharacterLiteralClass:
      head("lit", s);
      cval(cast<Expr>(s));
      o << '}';
      return;
    case Stmt::StringLiteralClass: {
      head("lit", s);
      auto* e = cast<StringLiteral>(s);
      if (e->getCharByteWidth() == 1) kv("s", e->getString());
      o << '}';
      return;
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass:
      head("null", s);
      o << '}';
      return;
    case Stmt::LambdaExprClass: {
      head("lambda", s);
      dump_lambda(cast<LambdaExpr>(s));
      o << '}';
      return;
    }
    case Stmt::CXXNewExprClass: {
      auto* e = cast<CXXNewExpr>(s);
      head("new", s);
      kv("at", ty(e->getAllocatedType()));
      if (e->isArray() && e->getArraySize() && *e->getArraySize()) child("n", *e->getArraySize());
      list("place", e->placement_arguments());
      if (e->getInitializer()) child("init", e->getInitializer());
      o << '}';
      return;
    }
    case Stmt::CXXDeleteExprClass: {
      auto* e = cast<CXXDeleteExpr>(s);
      head("delete", s);
      if (e->isArrayForm()) kv("arr", 1);
      child("e", e->getArgument());
      o << '}';
      return;
    }
    case Stmt::InitListExprClass: {
      auto* e = cast<InitListExpr>(s);
      if (e->isSemanticForm() == false && e->getSemanticForm()) e = e->getSemanticForm();
      head("ilist", s);
      list("c", e->inits());
      o << '}';
      return;
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass:
      head("zero", s);
      o << '}';
      return;
    case Stmt::ArraySubscriptExprClass: {
      auto* e = cast<ArraySubscriptExpr>(s);
      head("idx", s);
      child("b", e->getBase());
      child("i", e->getIdx());
      o << '}';
      return;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto* e = cast<UnaryExprOrTypeTraitExpr>(s);
      head("sizeof", s);
      kv("at", ty(e->getTypeOfArgument()));
      cval(e);
      o << '}';
      return;
    }
    // --- dependent forms
    case Stmt::CXXDependentScopeMemberExprClass: {
      auto* e = cast<CXXDependentScopeMemberExpr>(s);
      head("dmem", s);
      kv("n", e->getMember().getAsString());
      if (!e->isImplicitAccess()) child("b", e->getBase());
      o << '}';
      return;
    }
    case Stmt::UnresolvedLookupExprClass:
    case Stmt::UnresolvedMemberExprClass: {
      auto* e = cast<OverloadExpr>(s);
      head("dref", s);
      kv("n", e->getName().getAsString());
      if (e->hasExplicitTemplateArgs()) {
        std::string ta;
        llvm::raw_string_ostream os(ta);
        for (const TemplateArgumentLoc& i : e->template_arguments()) {
          if (!ta.empty()) os << ", ";
          i.getArgument().print(ctx.getPrintingPolicy(), os, true);
        }
        kv("ta", os.str());
      }
      if (auto* m = dyn_cast<UnresolvedMemberExpr>(s)) {
        if (!m->isImplicitAccess()) child("b", m->getBase());
      }
      o << '}';
      return;
    }
    case Stmt::DependentScopeDeclRefExprClass: {
      auto* e = cast<DependentScopeDeclRefExpr>(s);
      head("dref", s);
      kv("n", e->getDeclName().getAsString());
      {
        std::string qs;
        llvm::raw_string_ostream os(qs);
        if (e->getQualifier()) e->getQualifier()->print(os, ctx.getPrintingPolicy());
        kv("qual", os.str());
      }
      o << '}';
      return;
    }
    case Stmt::CXXUnresolvedConstructExprClass: {
      auto* e = cast<CXXUnresolvedConstructExpr>(s);
      head("dctor", s);
      list("args", e->arguments());
      o << '}';
      return;
    }
    // --- statements
    case Stmt::CompoundStmtClass:
      head("block", s);
      kv("le", line(s->getEndLoc()));
      list("c", cast<CompoundStmt>(s)->body());
      o << '}';
      return;
    case Stmt::IfStmtClass: {
      auto* e = cast<IfStmt>(s);
      head("if", s);
      if (e->isConstexpr()) kv("cx", 1);
      if (e->getInit()) child("init", e->getInit());
      if (e->getConditionVariable()) { key("var"); vardecl(e->getConditionVariable()); }
      child("c", e->getCond());
      child("a", e->getThen());
      child("b", e->getElse());
      o << '}';
      return;
    }
    case Stmt::ForStmtClass: {
      auto* e = cast<ForStmt>(s);
      head("for", s);
      child("init", e->getInit());
      child("c", e->getCond());
      child("inc", e->getInc());
      child("body", e->getBody());
      o << '}';
      return;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto* e = cast<CXXForRangeStmt>(s);
      head("rfor", s);
      key("var");
      vardecl(e->getLoopVariable());
      child("range", e->getRangeInit());
      child("body", e->getBody());
      o << '}';
      return;
    }
    case Stmt::WhileStmtClass: {
      auto* e = cast<WhileStmt>(s);
      head("while", s);
      if (e->getConditionVariable()) { key("var"); vardecl(e->getConditionVariable()); }
      child("c", e->getCond());
      child("body", e->getBody());
      o << '}';
      return;
    }
    case Stmt::DoStmtClass: {
      auto* e = cast<DoStmt>(s);
      head("do", s);
      child("c", e->getCond());
      child("body", e->getBody());
      o << '}';
      return;
    }
    case Stmt::SwitchStmtClass: {
      auto* e = cast<SwitchStmt>(s);
      head("switch", s);
      child("c", e->getCond());
      child("body", e->getBody());
      o << '}';
      return;
    }
    case Stmt::CaseStmtClass: {
      auto* e = cast<CaseStmt>(s);
      head("case", s);
      child("v", e->getLHS());
      child("s", e->getSubStmt());
      o << '}';
      return;
    }
    case Stmt::DefaultStmtClass:
      head("default", s);
      child("s", cast<DefaultStmt>(s)->getSubStmt());
      o << '}';
      return;
    case Stmt::BreakStmtClass: head("break", s); o << '}'; return;
    case Stmt::ContinueStmtClass: head("continue", s); o << '}'; return;
    case Stmt::NullStmtClass: head("nop", s); o << '}'; return;
    case Stmt::ReturnStmtClass:
      head("return", s);
      child("e", cast<ReturnStmt>(s)->getRetValue());
      o << '}';
      return;
    case Stmt::DeclStmtClass: {
      head("decl", s);
      key("v");
      o << '[';
      bool first = true;
      for (auto* d : cast<DeclStmt>(s)->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (!first) o << ',';
          first = false;
          vardecl(v);
        }
      }
      o << "]}";
      return;
    }
    case Stmt::AttributedStmtClass:
      node(cast<AttributedStmt>(s)->getSubStmt());
      return;
    default: {
      head("other", s);
      kv("cls", s->getStmtClassName());
      if (auto* e = dyn_cast<Expr>(s)) cval(e);
      list("c", s->children());
      o << '}';
      return;
    }
    }
  }

  void function(const FunctionDecl* f) {
    o << "{\"fid\":";
    jstr(o, fsig(f));
    kv("q", qn(f));
    kv("n", f->getNameAsString());
    kv("d", id(f));
    kv("file", file(f->getLocation()));
    kv("l", line(f->getLocation()));
    kv("rt", ty(f->getReturnType()));
    const char* kind = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor"
        : isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "method" : "func";
    kv("kind", kind);
    if (f->isDependentContext()) kv("dep", 1);
    if (auto* t = f->getDescribedFunctionTemplate()) {
      std::string names;
      for (const NamedDecl* i : *t->getTemplateParameters()) names += (names.empty() ? "" : " ") + i->getNameAsString();
      kv("tparams", names);
    }
    if (f->isTemplateInstantiation()) kv("inst", 1);
    if (f->getFormalLinkage() == Linkage::Internal) kv("internal", 1);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      kv("rec", ty(ctx.getTypeDeclType(m->getParent())));
      kv("recq", qn(m->getParent()));
      if (m->isVirtual()) kv("virt", 1);
      if (m->isConst()) kv("cm", 1);
      if (m->isStatic()) kv("sm", 1);
      kv("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      if (m->size_overridden_methods()) {
        key("over");
        o << '[';
        bool first = true;
        for (auto* b : m->overridden_methods()) {
          if (!first) o << ',';
          first = false;
          jstr(o, fsig(b));
        }
        o << ']';
      }
    }
    params(f, true);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      if (c->isCopyConstructor()) kv("copy", 1);
      if (c->isMoveConstructor()) kv("move", 1);
      key("inits");
      o << '[';
      bool first = true;
      for (auto* in : c->inits()) {
        if (!first) o << ',';
        first = false;
        o << "{\"l\":" << line(in->getSourceLocation());
        if (in->isAnyMemberInitializer()) {
          kv("f", in->getAnyMember()->getNameAsString());
          kv("q", qn(in->getAnyMember()));
        }
        if (in->isBaseInitializer()) kv("base", ty(QualType(in->getBaseClass(), 0)));
        if (in->isDelegatingInitializer()) kv("deleg", 1);
        if (in->isWritten()) kv("written", 1);
        child("e", in->getInit());
        o << '}';
      }
      o << ']';
    }
    if (f->isDefaulted()) kv("defaulted", 1);
    child("body", f->getBody());
    o << "}";
  }

  void record(const CXXRecordDecl* r) {
    o << "{\"q\":";
    jstr(o, qn(r));
    kv("t", ty(ctx.getTypeDeclType(r)));
    kv("file", file(r->getLocation()));
    kv("l", line(r->getLocation()));
    if (r->isUnion()) kv("union", 1);
    if (r->isDependentContext()) kv("dep", 1);
    if (r->isAbstract()) kv("abstract", 1);
    key("bases");
    o << '[';
    bool first = true;
    for (auto& b : r->bases()) {
      if (!first) o << ',';
      first = false;
      o << ty(b.getType());
    }
    o << ']';
    key("fields");
    o << '[';
    first = true;
    for (auto* d : r->decls()) {
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        if (!first) o << ',';
        first = false;
        o << "{\"n\":";
        jstr(o, f->getName());
        kv("t", ty(f->getType()));
        kv("l", line(f->getLocation()));
        kv("acc", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected");
        if (f->isMutable()) kv("mut", 1);
        if (f->hasInClassInitializer() && f->getInClassInitializer()) child("init", f->getInClassInitializer());
        o << '}';
      }
    }
    o << ']';
    key("svars");
    o << '[';
    first = true;
    for (auto* d : r->decls()) {
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (!first) o << ',';
        first = false;
        vardecl(v);
      }
    }
    o << ']';
    key("methods");
    o << '[';
    first = true;
    for (auto* m : r->methods()) {
      if (!first) o << ',';
      first = false;
      o << "{\"n\":";
      jstr(o, m->getNameAsString());
      kv("fid", fsig(m));
      if (m->isVirtual()) kv("virt", 1);
      if (m->isPureVirtual()) kv("pure", 1);
      if (m->isConst()) kv("cm", 1);
      if (m->isStatic()) kv("sm", 1);
      if (m->isDeleted()) kv("deleted", 1);
      if (m->isImplicit()) kv("implicit", 1);
      if (m->isDefaulted()) kv("defaulted", 1);
      kv("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      key("pt");
      o << '[';
      bool f1 = true;
      for (auto* p : m->parameters()) {
        if (!f1) o << ',';
        f1 = false;
        o << ty(p->getType());
      }
      o << ']';
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        if (c->isCopyConstructor()) kv("copy", 1);
        if (c->isMoveConstructor()) kv("move", 1);
      }
      if (isa<CXXConstructorDecl>(m)) kv("ctor", 1);
      if (isa<CXXDestructorDecl>(m)) kv("dtor", 1);
      if (m->isCopyAssignmentOperator()) kv("copyassign", 1);
      if (m->isMoveAssignmentOperator()) kv("moveassign", 1);
      if (m->size_overridden_methods()) {
        key("over");
        o << '[';
        bool f2 = true;
        for (auto* b : m->overridden_methods()) {
          if (!f2) o << ',';
          f2 = false;
          jstr(o, fsig(b));
        }
        o << ']';
      }
      o << '}';
    }
    o << "]}";
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  ASTContext& ctx;
  Dumper d;
  std::vector<const FunctionDecl*> funcs;
  std::vector<const CXXRecordDecl*> recs;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> gvars;
  std::set<const Decl*> seen;
  bool rules_insts;

  Visitor(ASTContext& c, llvm::raw_ostream& o, bool ri) : ctx(c), d(c, o), rules_insts(ri) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool skip_inst(const std::string& f) {
    return !rules_insts && (f.find("/rewrite.h") != std::string::npos || f.find("/simplify_rules.h") != std::string::npos);
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (!d.in_root(f->getLocation())) return true;
    if (!f->isDependentContext() && (f->isTemplateInstantiation() || is_in_spec(f)) && skip_inst(d.file(f->getLocation()))) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) return true;  // Dumped inline.
    }
    if (f->isImplicit()) return true;
    if (!f->getBody()) return true;
    if (seen.insert(f).second) funcs.push_back(f);
    return true;
  }
  bool is_in_spec(const FunctionDecl* f) {
    for (const DeclContext* c = f->getDeclContext(); c; c = c->getParent()) {
      if (isa<ClassTemplateSpecializationDecl>(c)) return true;
      if (auto* fd = dyn_cast<FunctionDecl>(c)) if (fd->isTemplateInstantiation()) return true;
    }
    return false;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!d.in_root(r->getLocation())) return true;
    if (isa<ClassTemplateSpecializationDecl>(r) && !isa<ClassTemplatePartialSpecializationDecl>(r) && skip_inst(d.file(r->getLocation()))) return true;
    if (seen.insert(r).second) recs.push_back(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !d.in_root(e->getLocation())) return true;
    if (seen.insert(e).second) enums.push_back(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !d.in_root(v->getLocation())) return true;
    if (v->getDeclContext()->isRecord()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (seen.insert(v).second) gvars.push_back(v);
    return true;
  }

  void emit(const std::string& tu) {
    auto& o = d.o;
    o << "{\"tu\":";
    jstr(o, tu);
    o << ",\"functions\":[\n";
    bool first = true;
    for (auto* f : funcs) {
      if (!first) o << ",\n";
      first = false;
      d.function(f);
    }
    o << "],\n\"records\":[\n";
    first = true;
    for (auto* r : recs) {
      if (!first) o << ",\n";
      first = false;
      d.record(r);
    }
    o << "],\n\"enums\":[\n";
    first = true;
    for (auto* e : enums) {
      if (!first) o << ",\n";
      first = false;
      o << "{\"q\":";
      jstr(o, d.qn(e));
      d.kv("file", d.file(e->getLocation()));
      d.kv("l", d.line(e->getLocation()));
      o << ",\"vals\":[";
      bool f1 = true;
      for (auto* c : e->enumerators()) {
        if (!f1) o << ',';
        f1 = false;
        o << "[";
        jstr(o, c->getName());
        llvm::SmallString<32> s;
        c->getInitVal().toString(s, 10);
        o << "," << s << "]";
      }
      o << "]}";
    }
    o << "],\n\"gvars\":[\n";
    first = true;
    for (auto* v : gvars) {
      if (!first) o << ",\n";
      first = false;
      d.vardecl(v);
    }
    o << "],\n\"types\":[\n";
    first = true;
    for (auto& t : d.type_list) {
      if (!first) o << ",\n";
      first = false;
      jstr(o, t);
    }
    o << "]}\n";
  }
};

class Consumer : public ASTConsumer {
  std::string tu;
  bool ri;
public:
  Consumer(std::string tu, bool ri) : tu(std::move(tu)), ri(ri) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Visitor v(ctx, *g_out, ri);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    if (tu.rfind(g_root, 0) == 0) tu = tu.substr(g_root.size());
    v.emit(tu);
  }
};

static bool g_ri = false;
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef f) override {
    return std::make_unique<Consumer>(f.str(), g_ri);
  }
};

int main(int argc, const char** argv) {
  // extract ROOT/ FILE OUT [--rules] -- flags...
  if (argc < 4) return 2;
  g_root = argv[1];
  std::string file = argv[2];
  std::error_code ec;
  std::string out = argv[3];
  std::vector<std::string> flags;
  int i = 4;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) if (std::string(argv[i]) == "--rules") g_ri = true;
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  llvm::raw_fd_ostream os(out, ec);
  if (ec) return 2;
  g_out = &os;
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
