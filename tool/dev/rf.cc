// Development aid (not used by any check): applies one behaviour-preserving
// rewriting everywhere in the given translation units, to measure whether the
// checks stay quiet.  usage: rf <transform> <root> <outdir> file.cc -- flags
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/ASTMatchers/ASTMatchFinder.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Rewrite/Core/Rewriter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>
#include <set>
#include <filesystem>
using namespace clang;
static std::string T, ROOT, OUT;
static int N = 0;
static unsigned SEED = 0; // 0: every site
static unsigned CNT = 0;

struct V : RecursiveASTVisitor<V> {
  ASTContext& C; SourceManager& SM; LangOptions LO; Rewriter R;
  std::set<std::pair<unsigned,unsigned>> done; // touched begin/end offsets: (FileID hash, offset)
  std::vector<std::pair<SourceLocation,SourceLocation>> taken;
  explicit V(ASTContext& c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()) { R.setSourceMgr(SM, LO); }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  FunctionDecl* cur = nullptr;
  bool ok(Stmt const* s) {
    auto b = s->getBeginLoc(), e = s->getEndLoc();
    if (b.isInvalid() || e.isInvalid() || b.isMacroID() || e.isMacroID()) return false;
    auto f = SM.getFilename(b);
    if (!f.startswith(ROOT)) return false;
    auto t = txt(s);
    if (t.find('#') != std::string::npos) return false; // preprocessor lines
    for (auto& p : taken) {
      auto o1 = SM.getFileOffset(p.first), o2 = SM.getFileOffset(p.second);
      if (SM.getFileID(p.first) != SM.getFileID(b)) continue;
      auto x = SM.getFileOffset(b), y = SM.getFileOffset(e);
      if (!(y < o1 || x > o2)) return false;
    }
    CNT++;
    return true;
  }
  void take(Stmt const* s) { taken.push_back({s->getBeginLoc(), s->getEndLoc()}); N++; }
  std::string txt(Stmt const* s) { return Lexer::getSourceText(CharSourceRange::getTokenRange(s->getSourceRange()), SM, LO).str(); }
  // with trailing ;
  SourceRange full(Stmt const* s, bool& semi) {
    auto e = s->getEndLoc(); semi = false;
    auto t = Lexer::findNextToken(e, SM, LO);
    if (!isa<CompoundStmt>(s) && t && t->is(tok::semi)) { semi = true; return {s->getBeginLoc(), t->getLocation()}; }
    return s->getSourceRange();
  }
  std::string stx(Stmt const* s) { // statement text with its semicolon
    bool semi; auto r = full(s, semi);
    return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str();
  }
  bool has(Stmt const* s, bool loops) { // contains return/break/continue/goto/co or declares
    if (!s) return false;
    if (isa<ReturnStmt>(s) || isa<GotoStmt>(s)) return true;
    if (loops && (isa<BreakStmt>(s) || isa<ContinueStmt>(s))) return true;
    if (isa<LambdaExpr>(s)) return false;
    for (auto c : s->children()) if (has(c, loops)) return true;
    return false;
  }
  bool hasCont(Stmt const* s) {
    if (!s) return false;
    if (isa<ContinueStmt>(s)) return true;
    for (auto c : s->children()) if (hasCont(c)) return true;
    return false;
  }
  bool parentCompound(Stmt const* s) { auto p = C.getParents(*s); return !p.empty() && p[0].get<CompoundStmt>(); }
  bool endsRet(Stmt const* s) {
    if (isa<ReturnStmt>(s)) return true;
    if (auto c = dyn_cast<CompoundStmt>(s)) return !c->body_empty() && endsRet(c->body_back());
    return false;
  }
  void rep(SourceRange r, std::string const& s) { R.ReplaceText(CharSourceRange::getTokenRange(r), s); }
  bool VisitIfStmt(IfStmt* s) {
    if (s->isConstexpr() || s->getInit() || s->getConditionVariable() || !ok(s)) return true;
    auto p = C.getParents(*s);
    bool elseif = !p.empty() && p[0].get<IfStmt>() && p[0].get<IfStmt>()->getElse() == s;
    bool semi; auto last = s->getElse() ? s->getElse() : s->getThen();
    bool ls; auto lr = full(last, ls);
    SourceRange whole(s->getBeginLoc(), lr.getEnd());
    auto c = txt(s->getCond()), th = stx(s->getThen()), el = s->getElse() ? stx(s->getElse()) : std::string();
    bool chain = s->getElse() && isa<IfStmt>(s->getElse());
    if (T == "invert" && !chain) {
      rep(whole, "if (!(" + c + ")) " + (el.empty() ? "{ }" : "{" + el + "}") + " else { " + th + " }"); take(s);
    } else if (T == "namecond" && !elseif) {
      auto v = "rf_c" + std::to_string(N);
      rep(whole, "{ bool const " + v + " = static_cast<bool>(" + c + "); if (" + v + ") " + th + (el.empty() ? "" : " else " + el) + " }"); take(s);
    } else if (T == "elseret" && s->getElse() && endsRet(s->getThen()) && parentCompound(s)) {
      rep(whole, "if (" + c + ") " + th + " { " + el + " }"); take(s);
    } else if (T == "nest" && !s->getElse() && !elseif) {
      auto b = dyn_cast<BinaryOperator>(s->getCond()->IgnoreParenImpCasts());
      if (b && b->getOpcode() == BO_LAnd && !b->getOperatorLoc().isMacroID()) {
        rep(whole, "if (" + txt(b->getLHS()) + ") { if (" + txt(b->getRHS()) + ") " + th + " }"); take(s);
      }
    } else if (T == "lambda" && !elseif && isa<CompoundStmt>(s->getThen()) && !has(s->getThen(), true) && parentCompound(s) && cur && !isa<CXXConstructorDecl>(cur)) {
      auto v = "rf_f" + std::to_string(N);
      rep(whole, "{ auto " + v + " = [&] " + th + "; if (" + c + ") { " + v + "(); }" + (el.empty() ? "" : " else " + el) + " }"); take(s);
    } else if (T == "guard" && !s->getElse() && cur && cur->getReturnType()->isVoidType() && parentCompound(s) && isa<CompoundStmt>(s->getThen())) {
      auto body = dyn_cast_or_null<CompoundStmt>(cur->getBody());
      if (body && !body->body_empty() && body->body_back() == s) { rep(whole, "if (!(" + c + ")) { return; } " + th); take(s); }
    }
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt* s) {
    if (T != "iter" || !ok(s)) return true;
    auto v = s->getLoopVariable(); if (!v) return true;
    auto ty = s->getRangeInit()->getType(); if (ty->isArrayType()) return true;
    auto hdr = Lexer::getSourceText(CharSourceRange::getTokenRange(v->getBeginLoc(), v->getLocation()), SM, LO).str();
    if (isa<DecompositionDecl>(v)) {
      auto t = Lexer::getSourceText(CharSourceRange::getTokenRange(v->getSourceRange()), SM, LO).str();
      auto k = t.find(']'); if (k == std::string::npos) return true; hdr = t.substr(0, k + 1);
    } else if (hdr.find('[') != std::string::npos) return true;
    auto n = std::to_string(N);
    auto b = stx(s->getBody());
    bool ls; auto lr = full(s->getBody(), ls);
    rep(SourceRange(s->getBeginLoc(), lr.getEnd()), "{ auto&& rf_r" + n + " = " + txt(s->getRangeInit()) + "; for (auto rf_i" + n + " = std::begin(rf_r" + n + "); rf_i" + n + " != std::end(rf_r" + n + "); ++rf_i" + n + ") { " + hdr + " = *rf_i" + n + "; " + b + " } }");
    take(s); return true;
  }
  bool VisitForStmt(ForStmt* s) {
    if (T != "while" || !ok(s) || hasCont(s->getBody()) || !s->getCond() || s->getConditionVariable()) return true;
    bool ls; auto lr = full(s->getBody(), ls);
    auto ini = s->getInit() ? stx(s->getInit()) : std::string(";");
    if (!ini.empty() && ini.back() != ';') ini += ";";
    rep(SourceRange(s->getBeginLoc(), lr.getEnd()), "{ " + ini + " while (" + txt(s->getCond()) + ") { " + stx(s->getBody()) + " " + (s->getInc() ? txt(s->getInc()) + ";" : "") + " } }");
    take(s); return true;
  }
  bool VisitUnaryOperator(UnaryOperator* u) {
    if (T != "incr" || !u->isIncrementDecrementOp() || !u->getType()->isIntegerType() || u->isTypeDependent()) return true;
    auto p = C.getParents(*u); if (p.empty() || !p[0].get<CompoundStmt>() || !ok(u)) return true;
    auto x = txt(u->getSubExpr());
    rep(u->getSourceRange(), x + " = " + x + (u->isIncrementOp() ? " + 1" : " - 1")); take(u); return true;
  }
  bool VisitReturnStmt(ReturnStmt* r) {
    auto v = r->getRetValue(); if (!v) return true;
    if (T == "ternary") {
      auto c = dyn_cast<ConditionalOperator>(v->IgnoreParenImpCasts());
      if (!c || !ok(r) || !parentCompound(r)) return true;
      if (cur == nullptr || cur->getReturnType()->getContainedAutoType()) return true;
      rep(r->getSourceRange(), "if (" + txt(c->getCond()) + ") { return " + txt(c->getTrueExpr()) + "; } return " + txt(c->getFalseExpr())); take(r);
    } else if (T == "rettmp") {
      if (v->isTypeDependent() || !v->getType()->isScalarType() || !parentCompound(r) || !ok(r)) return true;
      if (cur == nullptr || cur->getReturnType()->isReferenceType() || cur->getReturnType()->getContainedAutoType()) return true;
      auto n = "rf_v" + std::to_string(N);
      if (isa<CXXNullPtrLiteralExpr>(v->IgnoreImpCasts()) || isa<InitListExpr>(v)) return true;
      rep(r->getSourceRange(), "auto const " + n + " = " + txt(v) + "; return " + n); take(r);
    }
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator* b) {
    if (b->getOperatorLoc().isMacroID() || b->isTypeDependent()) return true;
    if (T == "swapcmp" && b->isComparisonOp() && b->getOpcode() != BO_Cmp) {
      if (b->getLHS()->HasSideEffects(C) || b->getRHS()->HasSideEffects(C) || !ok(b)) return true;
      std::string op; switch (b->getOpcode()) { case BO_LT: op = ">"; break; case BO_GT: op = "<"; break; case BO_LE: op = ">="; break; case BO_GE: op = "<="; break; case BO_EQ: op = "=="; break; default: op = "!="; }
      rep(b->getSourceRange(), "(" + txt(b->getRHS()) + ") " + op + " (" + txt(b->getLHS()) + ")"); take(b);
    } else if (T == "demorgan" && b->isLogicalOp() && ok(b)) {
      rep(b->getSourceRange(), "!(!(" + txt(b->getLHS()) + ")" + (b->getOpcode() == BO_LAnd ? " || " : " && ") + "!(" + txt(b->getRHS()) + "))"); take(b);
    } else if (T == "negcmp" && b->isComparisonOp() && b->getOpcode() != BO_Cmp && b->getLHS()->getType()->isIntegralOrEnumerationType() && ok(b)) {
      std::string op; switch (b->getOpcode()) { case BO_LT: op = ">="; break; case BO_GT: op = "<="; break; case BO_LE: op = ">"; break; case BO_GE: op = "<"; break; case BO_EQ: op = "!="; break; default: op = "=="; }
      rep(b->getSourceRange(), "!((" + txt(b->getLHS()) + ") " + op + " (" + txt(b->getRHS()) + "))"); take(b);
    }
    return true;
  }
  bool VisitCallExpr(CallExpr* c) {
    if (T != "argtmp" || !parentCompound(c) || !ok(c) || c->getNumArgs() == 0 || isa<CXXOperatorCallExpr>(c)) return true;
    // hoist the first scalar rvalue argument into a local
    for (unsigned i = 0; i < c->getNumArgs(); i++) {
      auto a = c->getArg(i);
      if (isa<CXXDefaultArgExpr>(a)) continue;
      if (a->isTypeDependent() || !a->getType()->isArithmeticType() || a->isLValue() || a->getBeginLoc().isMacroID() || a->getEndLoc().isMacroID()) continue;
      bool side = false; for (unsigned j = 0; j < i; j++) if (c->getArg(j)->HasSideEffects(C)) side = true;
      if (side) break;
      auto v = "rf_a" + std::to_string(N);
      auto t = txt(a);
      bool semi; auto r = full(c, semi); if (!semi) return true;
      auto whole = Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str();
      auto off = SM.getFileOffset(a->getBeginLoc()) - SM.getFileOffset(r.getBegin());
      whole.replace(off, t.size(), v);
      rep(r, "{ auto const " + v + " = " + t + "; " + whole + " }"); take(c); break;
    }
    return true;
  }
  bool TraverseFunctionDecl(FunctionDecl* d) { return tf(d, [&]{ return RecursiveASTVisitor::TraverseFunctionDecl(d); }); }
  bool TraverseCXXMethodDecl(CXXMethodDecl* d) { return tf(d, [&]{ return RecursiveASTVisitor::TraverseCXXMethodDecl(d); }); }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl* d) { return tf(d, [&]{ return RecursiveASTVisitor::TraverseCXXConstructorDecl(d); }); }
  bool TraverseLambdaExpr(LambdaExpr* l) { auto s = cur; cur = nullptr; bool r = RecursiveASTVisitor::TraverseLambdaExpr(l); cur = s; return r; }
  template <typename F> bool tf(FunctionDecl* d, F f) {
    if (d->isConstexpr()) return true;
    auto s = cur; cur = d; bool r = f(); cur = s; return r;
  }
};
struct Con : ASTConsumer {
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) { std::cerr << "errors\n"; return; }
    V v(c); v.TraverseDecl(c.getTranslationUnitDecl());
    auto& SM = c.getSourceManager();
    for (auto it = v.R.buffer_begin(); it != v.R.buffer_end(); ++it) {
      auto fe = SM.getFileEntryRefForID(it->first); if (!fe) continue;
      std::string f = fe->getName().str(); if (f.rfind(ROOT, 0) != 0) continue;
      auto o = OUT + f.substr(ROOT.size());
      std::filesystem::create_directories(std::filesystem::path(o).parent_path());
      std::string buf; { llvm::raw_string_ostream ss(buf); it->second.write(ss); }
      auto tmp = o + "." + std::to_string(getpid());
      { std::ofstream os(tmp); os << buf; }
      std::filesystem::rename(tmp, o);
    }
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Con>(); } };
int main(int argc, char const** argv) {
  T = argv[1]; ROOT = argv[2]; OUT = argv[3]; std::string file = argv[4];
  std::vector<std::string> fl; for (int i = 6; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", fl);
  tooling::ClangTool tool(db, {file});
  int r = tool.run(tooling::newFrontendActionFactory<Act>().get());
  std::cerr << file << ": " << N << " sites\n";
  return r;
}
