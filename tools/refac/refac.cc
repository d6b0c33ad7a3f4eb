// Development aid: prints, for one translation unit, text replacements that rewrite the code without changing what it
// does (one kind of rewriting per run). refac.py merges and applies them and runs the checks on the result.
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <iostream>
using namespace clang;
static std::string g_root, g_mode;

struct V : RecursiveASTVisitor<V> {
  ASTContext& c; SourceManager& sm; 
  std::vector<FunctionDecl*> fns;
  int lam = 0, cexpr = 0;
  V(ASTContext& c) : c(c), sm(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }

  bool ours(SourceLocation l) {
    if (l.isInvalid() || l.isMacroID()) return false;
    auto f = sm.getFilename(l);
    return f.starts_with(g_root) && !f.contains("/test/");
  }
  bool good(SourceRange r) { return ours(r.getBegin()) && ours(r.getEnd()) && sm.getFileID(r.getBegin()) == sm.getFileID(r.getEnd()); }
  unsigned off(SourceLocation l) { return sm.getFileOffset(l); }
  unsigned endoff(SourceRange r) { return off(Lexer::getLocForEndOfToken(r.getEnd(), 0, sm, c.getLangOpts())); }
  std::string text(SourceRange r) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(r), sm, c.getLangOpts()).str();
  }
  void put(SourceLocation where, std::vector<std::tuple<unsigned, unsigned, std::string>> edits) {
    // a group: FILE \0 n { off len text }
    std::cout << "G\t" << sm.getFilename(where).str() << "\t" << sm.getSpellingLineNumber(where);
    for (auto& [o, l, t] : edits) {
      std::string e;
      for (char ch : t) { if (ch == '\n') e += "\\n"; else if (ch == '\t') e += "\\t"; else if (ch == '\\') e += "\\\\"; else e += ch; }
      std::cout << "\t" << o << "\t" << l << "\t" << e;
    }
    std::cout << "\n";
  }
  bool macro(SourceRange r) {  // any macro expansion inside?
    std::string t = text(r);
    return t.find("assert(") != std::string::npos || t.find("SLINKY_") != std::string::npos || t.find('#') != std::string::npos;
  }

  bool TraverseLambdaExpr(LambdaExpr* e) { ++lam; bool r = RecursiveASTVisitor::TraverseLambdaExpr(e); --lam; return r; }
  bool TraverseFunctionDecl(FunctionDecl* f) { return fn(f, [&] { return RecursiveASTVisitor::TraverseFunctionDecl(f); }); }
  bool TraverseCXXMethodDecl(CXXMethodDecl* f) { return fn(f, [&] { return RecursiveASTVisitor::TraverseCXXMethodDecl(f); }); }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl* f) { return fn(f, [&] { return RecursiveASTVisitor::TraverseCXXConstructorDecl(f); }); }
  template <class F> bool fn(FunctionDecl* f, F&& go) { fns.push_back(f); if (f->isConstexpr()) ++cexpr; bool r = go(); if (f->isConstexpr()) --cexpr; fns.pop_back(); return r; }

  static bool contains(Stmt* s, std::function<bool(Stmt*)> p) {
    if (!s) return false;
    if (p(s)) return true;
    for (Stmt* k : s->children()) if (contains(k, p)) return true;
    return false;
  }
  // Moves an expression or statement to a helper function before the function it is in.
  bool helper(Stmt* s, bool value, unsigned from, unsigned to, const char* close) {
    if (fns.empty() || cexpr || c.getParents(*s).empty()) return false;
    FunctionDecl* f = fns.back();
    if (f->isDependentContext() || f->isTemplateInstantiation() || isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) return false;
    if (!good(f->getSourceRange()) || f->getDescribedFunctionTemplate()) return false;
    auto* m = dyn_cast<CXXMethodDecl>(f);
    if (m && m->getParent()->isLambda()) return false;
    bool in_class = m && isa<CXXRecordDecl>(f->getLexicalDeclContext());
    bool self = false, bad = false;
    std::map<std::string, std::string> ps; std::vector<VarDecl*> order;
    std::set<VarDecl*> inner;
    contains(s, [&](Stmt* k) {
      if (isa<CXXThisExpr>(k)) self = true;
      if (isa<LambdaExpr>(k)) bad = true;
      if (auto* d = dyn_cast<DeclStmt>(k)) for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) inner.insert(v);
      if (auto* i = dyn_cast<IfStmt>(k)) if (auto* v = i->getConditionVariable()) inner.insert(v);
      if (isa<ReturnStmt>(k) || isa<BreakStmt>(k) || isa<ContinueStmt>(k) || isa<SwitchStmt>(k)) bad = true;
      return false;
    });
    std::set<DeclRefExpr*> reads; std::set<std::string> written;
    contains(s, [&](Stmt* k) {
      if (auto* ic = dyn_cast<ImplicitCastExpr>(k); ic && ic->getCastKind() == CK_LValueToRValue) if (auto* d = dyn_cast<DeclRefExpr>(ic->getSubExpr()->IgnoreParens())) reads.insert(d);
      return false;
    });
    contains(s, [&](Stmt* k) {
      if (auto* d = dyn_cast<DeclRefExpr>(k); d && !reads.count(d)) written.insert(d->getNameInfo().getAsString());
      return false;
    });
    contains(s, [&](Stmt* k) {
      if (auto* e = dyn_cast<DeclRefExpr>(k)) {
        if (isa<BindingDecl>(e->getDecl())) bad = true;
        if (auto* v = dyn_cast<VarDecl>(e->getDecl()); v && v->isLocalVarDeclOrParm() && !inner.count(v)) {
          QualType t = v->getType().getNonReferenceType();
          if (t->isArrayType() || t->isUndeducedType()) { bad = true; return false; }
          PrintingPolicy pp(c.getLangOpts()); pp.SuppressUnwrittenScope = true; pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.PrintCanonicalTypes = false;
          std::string ts = t.getAsString(pp);
          if (ts.find("lambda") != std::string::npos || ts.find('(') != std::string::npos) { bad = true; return false; }
          if (!ps.count(v->getName().str())) order.push_back(v);
          ps[v->getName().str()] = ts;
        }
      }
      return false;
    });
    if (bad || (m && !in_class) || lam) return false;
    static int n = 0; std::string h = "helper" + std::to_string(++n) + "_";
    std::string par, arg;
    for (auto* v : order) { par += (par.empty() ? "" : ", ") + ps[v->getName().str()] + (v->getType().getNonReferenceType()->isScalarType() && !written.count(v->getName().str()) ? " " : "& ") + v->getName().str(); arg += (arg.empty() ? "" : ", ") + v->getName().str(); }
    bool cst = m && m->isConst();
    std::string body = text(s->getSourceRange());
    std::string head = std::string(m && !self ? "static " : m ? "" : "static ") + (value ? "bool " : "void ") + h + "(" + par + ")" + (m && self && cst ? " const" : "") + " { " + (value ? "return static_cast<bool>(" + body + ");" : body + close) + " }\n";
    SourceLocation b = f->getBeginLoc();
    put(s->getBeginLoc(), {{off(b), 0, head}, {from, to - from, h + "(" + arg + ")" + (value ? "" : ";")}});
    return true;
  }
  bool VisitIfStmt(IfStmt* s) {
    if (g_mode == "hcond" && good(s->getSourceRange()) && !s->isConstexpr() && !s->getConditionVariable() && !s->getInit() && good(s->getCond()->getSourceRange()) && !macro(s->getCond()->getSourceRange())) {
      helper(s->getCond(), true, off(s->getCond()->getBeginLoc()), endoff(s->getCond()->getSourceRange()), "");
      return true;
    }
    if (!good(s->getSourceRange()) || s->isConstexpr() || cexpr) return true;
    Expr* cond = s->getCond();
    if (!cond || !good(cond->getSourceRange()) || macro(cond->getSourceRange())) return true;
    bool decl = s->getConditionVariable() || s->getInit();
    if (decl) return true;
    std::string ct = text(cond->getSourceRange());
    SourceLocation cb = cond->getBeginLoc(); unsigned co = off(cb), cl = endoff(cond->getSourceRange()) - co;
    if (g_mode == "ifneg" && s->getElse() && isa<CompoundStmt>(s->getThen())) {
      // if (c) A else B -> if (!(c)) B else A
      auto a = s->getThen()->getSourceRange(), b = s->getElse()->getSourceRange();
      if (!good(a) || !good(b)) return true;
      if (!isa<CompoundStmt>(s->getElse())) return true;
      put(cb, {{co, cl, "!(" + ct + ")"}, {off(a.getBegin()), endoff(a) - off(a.getBegin()), text(b)}, {off(b.getBegin()), endoff(b) - off(b.getBegin()), text(a)}});
    } else if (g_mode == "condvar") {
      static int n = 0; std::string v = "rc" + std::to_string(++n) + "_";
      put(cb, {{co, cl, "const bool " + v + " = static_cast<bool>(" + ct + "); " + v}});
    } else if (g_mode == "condlam") {
      put(cb, {{co, cl, "[&]() -> bool { return static_cast<bool>(" + ct + "); }()"}});
    } else if (g_mode == "andsplit" && !s->getElse()) {
      auto* b = dyn_cast<BinaryOperator>(cond->IgnoreParenImpCasts());
      if (!b || b->getOpcode() != BO_LAnd) return true;
      unsigned o = off(s->getBeginLoc());
      unsigned body = off(s->getThen()->getBeginLoc());
      put(cb, {{o, body - o, "if (" + text(b->getLHS()->getSourceRange()) + ") if (" + text(b->getRHS()->getSourceRange()) + ") "}});
    } else if (g_mode == "elsenest" && !s->getElse()) {
      auto ps = c.getParents(*s);
      auto* p = ps.empty() ? nullptr : ps[0].get<CompoundStmt>();
      if (!p || !good(p->getSourceRange())) return true;
      Stmt* t = s->getThen();
      auto* tc = dyn_cast<CompoundStmt>(t);
      Stmt* last = tc ? (tc->body_empty() ? nullptr : tc->body_back()) : t;
      if (!last || !(isa<ReturnStmt>(last) || isa<ContinueStmt>(last) || isa<BreakStmt>(last))) return true;
      if (p->body_back() == s) return true;
      unsigned e;
      if (tc) e = endoff(tc->getSourceRange());
      else { std::string tt; auto semi = Lexer::findLocationAfterToken(t->getEndLoc(), tok::semi, sm, c.getLangOpts(), false); if (semi.isInvalid()) return true; e = off(semi); }
      put(cb, {{e, 0, " else {"}, {off(p->getRBracLoc()), 0, "}"}});
    }
    return true;
  }
  bool VisitReturnStmt(ReturnStmt* s) {
    if (!good(s->getSourceRange()) || !s->getRetValue() || cexpr) return true;
    Expr* e = s->getRetValue();
    if (!good(e->getSourceRange()) || macro(e->getSourceRange())) return true;
    if (g_mode == "retvar") {
      if (isa<InitListExpr>(e->IgnoreImplicit())) return true;
      if (text(e->getSourceRange()).substr(0, 1) == "{") return true;
      if (isa<DeclRefExpr>(e->IgnoreImplicit()) || isa<LambdaExpr>(e->IgnoreImplicit())) return true;
      if (fns.empty()) return true;
      QualType rt = fns.back()->getReturnType();
      if (lam || rt->isReferenceType() || rt->isVoidType() || rt->isUndeducedType()) return true;
      if (isa<CXXConstructorDecl>(fns.back())) return true;
      // the type as written
      std::string ts = text(fns.back()->getReturnTypeSourceRange());
      if (ts.empty()) return true;
      unsigned o = off(s->getBeginLoc());
      auto semi = Lexer::findLocationAfterToken(e->getEndLoc(), tok::semi, sm, c.getLangOpts(), false);
      if (semi.isInvalid()) return true;
      put(s->getBeginLoc(), {{o, off(semi) - o, "{ " + ts + " rv_ = " + text(e->getSourceRange()) + "; return rv_; }"}});
    } else if (g_mode == "retif") {
      auto* q = dyn_cast<ConditionalOperator>(e->IgnoreImplicit());
      if (!q) return true;
      unsigned o = off(s->getBeginLoc());
      auto semi = Lexer::findLocationAfterToken(e->getEndLoc(), tok::semi, sm, c.getLangOpts(), false);
      if (semi.isInvalid()) return true;
      put(s->getBeginLoc(), {{o, off(semi) - o, "{ if (" + text(q->getCond()->getSourceRange()) + ") { return " + text(q->getTrueExpr()->getSourceRange()) + "; } else { return " + text(q->getFalseExpr()->getSourceRange()) + "; } }"}});
    }
    return true;
  }
  bool VisitForStmt(ForStmt* s) {
    if (g_mode != "forwhile" || !good(s->getSourceRange()) || cexpr) return true;
    bool cont = contains(s->getBody(), [](Stmt* k) { return isa<ContinueStmt>(k); });
    if (cont || !isa<CompoundStmt>(s->getBody())) return true;
    auto* b = cast<CompoundStmt>(s->getBody());
    if (s->getCond() && !good(s->getCond()->getSourceRange())) return true;
    unsigned o = off(s->getBeginLoc()), e = endoff(s->getSourceRange());
    std::string init = s->getInit() ? text(s->getInit()->getSourceRange()) : "";
    if (!init.empty() && init.back() != ';') init += ";";
    put(s->getBeginLoc(), {{o, off(b->getLBracLoc()) - o, "{ " + init + " while (" + (s->getCond() ? text(s->getCond()->getSourceRange()) : "true") + ") "},
        {off(b->getRBracLoc()), 1, (s->getInc() ? text(s->getInc()->getSourceRange()) + ";" : "") + std::string(" } }")}});
    (void)e;
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt* s) {
    if ((g_mode != "rangefor" && g_mode != "idxfor" && g_mode != "iterfor") || !good(s->getSourceRange()) || cexpr) return true;
    auto* b = dyn_cast<CompoundStmt>(s->getBody());
    if (!b) return true;
    auto* v = s->getLoopVariable();
    std::string head = text(SourceRange(s->getBeginLoc(), s->getRParenLoc()));
    size_t p = head.find('('), q = std::string::npos;
    int depth = 0;
    for (size_t i = p + 1; i < head.size(); ++i) {
      if (strchr("([{", head[i])) ++depth;
      if (strchr(")]}", head[i])) --depth;
      if (head[i] == ':' && head[i + 1] != ':' && head[i - 1] != ':' && depth <= 0) { q = i; break; }
    }
    if (q == std::string::npos) return true;
    std::string d = head.substr(p + 1, q - p - 1), r = head.substr(q + 1, head.size() - q - 2);
    while (!r.empty() && r[0] == ' ') r = r.substr(1);
    if (r[0] == '{') return true;
    static int n = 0; std::string k = std::to_string(++n);
    unsigned o = off(s->getBeginLoc());
    if (g_mode != "rangefor") return idx(s, b, d, r, k);
    put(s->getBeginLoc(), {{o, off(b->getLBracLoc()) + 1 - o, "{ auto&& rr" + k + "_ = " + r + "; auto re" + k + "_ = std::end(rr" + k + "_); for (auto ri" + k + "_ = std::begin(rr" + k + "_); ri" + k + "_ != re" + k + "_; ++ri" + k + "_) { " + d + " = *ri" + k + "_;"}, {off(b->getRBracLoc()), 1, "} }"}});
    (void)v;
    return true;
  }
  bool idx(CXXForRangeStmt* s, CompoundStmt* b, std::string d, std::string r, std::string k) {
    unsigned o = off(s->getBeginLoc());
    bool simple = r.find('(') == std::string::npos;
    std::string pre = simple ? "" : "{ const auto& rr" + k + "_ = " + r + "; ";
    std::string R = simple ? r : "rr" + k + "_";
    std::string e = simple ? "" : " }";
    if (g_mode == "idxfor")
      put(s->getBeginLoc(), {{o, off(b->getLBracLoc()) + 1 - o, pre + "for (std::size_t ri" + k + "_ = 0; ri" + k + "_ < " + R + ".size(); ++ri" + k + "_) { " + d + " = " + R + "[ri" + k + "_];"}, {off(b->getRBracLoc()), 1, "}" + e}});
    else
      put(s->getBeginLoc(), {{o, off(b->getLBracLoc()) + 1 - o, pre + "for (auto ri" + k + "_ = " + R + ".begin(); ri" + k + "_ != " + R + ".end(); ++ri" + k + "_) { " + d + " = *ri" + k + "_;"}, {off(b->getRBracLoc()), 1, "}" + e}});
    return true;
  }
  bool VisitCompoundStmt(CompoundStmt* s) {
    if (cexpr) return true;
    if (g_mode == "hstmt")
      for (Stmt* k : s->body()) {
        if (isa<DeclStmt>(k) || isa<NullStmt>(k) || !good(k->getSourceRange()) || macro(k->getSourceRange())) continue;
        if (isa<Expr>(k)) {
          auto semi = Lexer::findLocationAfterToken(k->getEndLoc(), tok::semi, sm, c.getLangOpts(), false);
          if (semi.isInvalid()) continue;
          helper(k, false, off(k->getBeginLoc()), off(semi), ";");
        } else if (isa<IfStmt>(k) || isa<ForStmt>(k) || isa<CXXForRangeStmt>(k)) {
          if (auto* i = dyn_cast<IfStmt>(k); i && i->isConstexpr()) continue;
          if (text(k->getSourceRange()).back() != '}') continue;
          helper(k, false, off(k->getBeginLoc()), endoff(k->getSourceRange()), "");
        }
      }
    if (g_mode == "stmtlam" || g_mode == "incs") {
      for (Stmt* k : s->body()) {
        auto* e = dyn_cast<Expr>(k);
        if (!e || !good(e->getSourceRange()) || macro(e->getSourceRange())) continue;
        auto semi = Lexer::findLocationAfterToken(e->getEndLoc(), tok::semi, sm, c.getLangOpts(), false);
        if (semi.isInvalid()) continue;
        unsigned o = off(e->getBeginLoc());
        if (g_mode == "stmtlam") {
          if (text(e->getSourceRange()).find('[') == 0) continue;
          put(e->getBeginLoc(), {{o, 0, "[&]() { "}, {off(semi), 0, " }();"}});
        } else {
          if (auto* u = dyn_cast<UnaryOperator>(e); u && u->isIncrementDecrementOp())
            put(e->getBeginLoc(), {{o, off(semi) - o, text(u->getSubExpr()->getSourceRange()) + (u->isIncrementOp() ? " += 1;" : " -= 1;")}});
          else if (auto* a = dyn_cast<CompoundAssignOperator>(e); a && isa<DeclRefExpr>(a->getLHS()->IgnoreParens())) {
            std::string op = a->getOpcodeStr().str(); op.pop_back();
            put(e->getBeginLoc(), {{o, off(semi) - o, text(a->getLHS()->getSourceRange()) + " = " + text(a->getLHS()->getSourceRange()) + " " + op + " (" + text(a->getRHS()->getSourceRange()) + ");"}});
          }
        }
      }
    }
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator* b) {
    if (g_mode != "flip" || !good(b->getSourceRange()) || macro(b->getSourceRange())) return true;
    auto op = b->getOpcode();
    if (!(BinaryOperator::isRelationalOp(op) || BinaryOperator::isEqualityOp(op))) return true;
    auto simple = [&](Expr* e) { return e->getType()->isBuiltinType() && !contains(e, [](Stmt* k) { if (auto* u = dyn_cast<UnaryOperator>(k)) return u->isIncrementDecrementOp(); auto* b = dyn_cast<BinaryOperator>(k); return b && b->isAssignmentOp(); }); };
    if (!simple(b->getLHS()) || !simple(b->getRHS())) return true;
    if (b->isTypeDependent()) return true;
    auto r = op == BO_LT ? BO_GT : op == BO_GT ? BO_LT : op == BO_LE ? BO_GE : op == BO_GE ? BO_LE : op;
    unsigned o = off(b->getBeginLoc());
    auto wrap = [&](Expr* e) { std::string t = text(e->getSourceRange()); return isa<BinaryOperator>(e->IgnoreImplicit()) || isa<ConditionalOperator>(e->IgnoreImplicit()) ? "(" + t + ")" : t; };
    put(b->getBeginLoc(), {{o, endoff(b->getSourceRange()) - o, wrap(b->getRHS()) + " " + BinaryOperator::getOpcodeStr(r).str() + " " + wrap(b->getLHS())}});
    return true;
  }
  bool VisitMemberExpr(MemberExpr* m) {
    if (g_mode != "arrow" || !m->isArrow() || m->isImplicitAccess() || !good(m->getSourceRange())) return true;
    Expr* b = m->getBase();
    if (isa<CXXThisExpr>(b->IgnoreImplicit()) || !good(b->getSourceRange())) return true;
    if (b->getSourceRange().getBegin() == m->getMemberLoc()) return true;
    SourceLocation opl = m->getOperatorLoc();
    if (!ours(opl)) return true;
    put(m->getBeginLoc(), {{off(b->getBeginLoc()), 0, "(*"}, {off(opl), 2, ")."}});
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (g_mode != "bodylam") return true;
    if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isConstexpr() || isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) return true;
    if (f->isDefaulted() || f->isDeleted() || !good(f->getSourceRange())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    auto* b = dyn_cast<CompoundStmt>(f->getBody());
    if (!b || b->body_empty()) return true;
    std::string ts = text(f->getReturnTypeSourceRange());
    QualType rt = f->getReturnType();
    if (ts.empty() || rt->isUndeducedType()) ts = rt->isVoidType() ? "void" : "";
    if (ts.empty()) return true;
    put(f->getBeginLoc(), {{off(b->getLBracLoc()) + 1, 0, " return [&]() -> " + ts + " {"}, {off(b->getRBracLoc()), 0, "}(); "}});
    return true;
  }
  std::map<VarDecl*, std::vector<SourceLocation>> uses;
  std::set<VarDecl*> bad;
  bool VisitVarDecl(VarDecl* v) {
    if (g_mode != "rename") return true;
    if (!v->isLocalVarDeclOrParm() || !v->getIdentifier() || v->isImplicit()) return true;
    if (auto* p = dyn_cast<ParmVarDecl>(v)) if (p->getDeclContext()->isTranslationUnit()) return true;
    if (!good(v->getSourceRange()) || v->isStaticLocal()) return true;
    uses[v].push_back(v->getLocation());
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr* e) {
    if (g_mode != "rename") return true;
    if (auto* v = dyn_cast<VarDecl>(e->getDecl())) { if (!ours(e->getLocation())) bad.insert(v); else uses[v].push_back(e->getLocation()); }
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* e) {
    if (g_mode != "rename") return true;
    for (auto& cap : e->explicit_captures()) if (cap.capturesVariable()) if (auto* v = dyn_cast<VarDecl>(cap.getCapturedVar())) { if (v->isInitCapture()) bad.insert(v); else if (!cap.isImplicit()) uses[v].push_back(cap.getLocation()); }
    return true;
  }
  void finish() {
    for (auto& [v, ls] : uses) {
      if (!v->isLocalVarDeclOrParm() || bad.count(v) || !v->getIdentifier() || v->isImplicit() || v->isStaticLocal() || !ours(v->getLocation())) continue;
      std::vector<std::tuple<unsigned, unsigned, std::string>> es;
      std::set<unsigned> seen;
      std::string n = v->getName().str();
      bool ok = true;
      for (auto l : ls) { if (!ours(l) || sm.getFileID(l) != sm.getFileID(v->getLocation())) ok = false; if (seen.insert(off(l)).second) es.push_back({off(l), (unsigned)n.size(), n + "_rn"}); }
      if (ok) put(v->getLocation(), es);
    }
  }
};
struct C : ASTConsumer {
  void HandleTranslationUnit(ASTContext& ctx) override { V v(ctx); v.TraverseDecl(ctx.getTranslationUnitDecl()); if (g_mode == "rename") v.finish(); }
};
struct A : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<C>(); }
};
int main(int argc, const char** argv) {
  g_mode = argv[1]; g_root = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, {argv[3]});
  return tool.run(tooling::newFrontendActionFactory<A>().get());
}
