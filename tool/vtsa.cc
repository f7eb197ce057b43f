// vtsa: exports a typed, resolved syntax tree of vt translation units as JSON.
// The analyses in /verif/sa read that export; nothing of vt is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <fstream>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> gRoots;
static std::string gInst;
static std::string gOut;

namespace {

Value apint(llvm::APSInt const& v) {
  if (v.isRepresentableByInt64()) return Value((int64_t)v.getExtValue());
  return Value((uint64_t)v.getZExtValue());
}

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const ValueDecl*, int> ids;

  explicit Dumper(ASTContext& c)
    : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.PrintCanonicalTypes = false;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  bool inRoot(SourceLocation L) {
    auto f = fileOf(L);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string type(QualType T) {
    if (T.isNull()) return "";
    return T.getAsString(PP);
  }
  std::string ctype(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }

  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  const FunctionDecl* pattern(const FunctionDecl* F) {
    if (auto* P = F->getTemplateInstantiationPattern()) return P;
    return F;
  }
  const CXXRecordDecl* rpattern(const CXXRecordDecl* R) {
    if (auto* P = R->getTemplateInstantiationPattern()) return P;
    return R;
  }

  // qualified name with record template arguments stripped: printQualifiedName
  // prints no template arguments for the decl itself; class specialisations do.
  std::string pname(const FunctionDecl* F) {
    return qname(pattern(F));
  }

  std::string fkey(const FunctionDecl* F0) {
    const FunctionDecl* F = pattern(F0);
    const FunctionDecl* D = F->getCanonicalDecl();
    auto L = D->getLocation();
    std::string f = fileOf(L);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) { f = f.substr(r.size()); break; }
    auto EL = SM.getExpansionLoc(L);
    return qname(F) + "@" + f + ":" + std::to_string(line(L)) + ":" +
      std::to_string(SM.getExpansionColumnNumber(EL));
  }

  int vid(const ValueDecl* V) {
    if (auto* VD = dyn_cast<VarDecl>(V)) V = VD->getCanonicalDecl();
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size();
    ids[V] = n;
    return n;
  }

  Value exprs(llvm::ArrayRef<const Expr*> es) {
    Array a;
    for (auto* e : es) a.push_back(expr(e));
    return a;
  }
  template <class R> Array args(R&& r) {
    Array a;
    for (auto* e : r) {
      if (isa<CXXDefaultArgExpr>(e)) {
        a.push_back(Array{"defarg", expr(cast<CXXDefaultArgExpr>(e)->getExpr())});
      } else a.push_back(expr(e));
    }
    return a;
  }

  Array targs(const TemplateArgumentListInfo& L) {
    Array a;
    for (auto& A : L.arguments()) {
      std::string s; llvm::raw_string_ostream os(s);
      A.getArgument().print(PP, os, true);
      a.push_back(os.str());
    }
    return a;
  }
  // a template argument by meaning: integers by value, types canonical,
  // functions by qualified name; dependent ones as written
  std::string targ(const TemplateArgument& A) {
    std::string s; llvm::raw_string_ostream os(s);
    if (A.getKind() == TemplateArgument::Type) {
      QualType T = A.getAsType();
      if (!T->isDependentType()) T = T.getCanonicalType();
      T.print(os, PP);
      return os.str();
    }
    if (A.getKind() == TemplateArgument::Expression) {
      const Expr* e = A.getAsExpr();
      if (!e->isValueDependent() && !e->isTypeDependent()) {
        Expr::EvalResult R;
        if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C)) {
          llvm::SmallString<24> b; R.Val.getInt().toString(b); return b.str().str();
        }
      }
      const Expr* x = e->IgnoreParenImpCasts();
      if (auto* U = dyn_cast<UnaryOperator>(x)) if (U->getOpcode() == UO_AddrOf) x = U->getSubExpr()->IgnoreParenImpCasts();
      if (auto* D = dyn_cast<DeclRefExpr>(x)) if (isa<FunctionDecl>(D->getDecl())) return D->getDecl()->getQualifiedNameAsString();
    }
    A.print(PP, os, true);
    return os.str();
  }
  template <class E> Array etargs(const E* e) {
    Array a;
    if (e->hasExplicitTemplateArgs()) {
      for (auto& A : e->template_arguments()) a.push_back(targ(A.getArgument()));
    }
    return a;
  }

  Value declref(const ValueDecl* D, const Expr* E, Array ta) {
    if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      return Array{"const", qname(EC), apint(EC->getInitVal())};
    }
    if (auto* F = dyn_cast<FunctionDecl>(D)) {
      return Array{"fn", fkey(F), pname(F), std::move(ta)};
    }
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V) && (V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()))) {
        if (auto* I = V->getAnyInitializer()) {
          if (!I->isValueDependent() && !V->getType()->isDependentType()) {
            Expr::EvalResult R;
            if (V->getType()->isIntegralOrEnumerationType() &&
                I->EvaluateAsInt(R, C)) {
              return Array{"const", qname(V), apint(R.Val.getInt())};
            }
          }
        }
      }
      if (V->hasGlobalStorage() && !V->isStaticLocal())
        return Array{"glob", qname(V)};
      if (auto* P = dyn_cast<ParmVarDecl>(V))
        return Array{"var", P->getNameAsString(), vid(V)};
      return Array{"var", V->getNameAsString(), vid(V)};
    }
    if (auto* B = dyn_cast<BindingDecl>(D))
      return Array{"var", B->getNameAsString(), vid(B)};
    if (auto* FD = dyn_cast<FieldDecl>(D))
      return Array{"fldref", qname(FD)};
    if (isa<NonTypeTemplateParmDecl>(D))
      return Array{"tparm", D->getNameAsString()};
    return Array{"ref", qname(D)};
  }

  std::string recName(const ValueDecl* M) {
    if (auto* R = dyn_cast<CXXRecordDecl>(M->getDeclContext()))
      return qname(rpattern(R));
    return "";
  }

  Value expr(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) return expr_(E);
    return stmt(S);
  }

  Value lambda(const LambdaExpr* L) {
    Array caps;
    auto ii = L->capture_init_begin();
    for (auto& c : L->captures()) {
      if (c.capturesThis()) {
        caps.push_back(Array{"this", -1, c.getCaptureKind() == LCK_This, nullptr});
      } else if (c.capturesVariable()) {
        auto* V = c.getCapturedVar();
        Value init = nullptr;
        if (V->isInitCapture()) {
          if (auto* VV = dyn_cast<VarDecl>(V)) init = expr(VV->getInit());
        }
        caps.push_back(Array{V->getNameAsString(), vid(V), c.getCaptureKind() == LCK_ByRef, std::move(init)});
      }
      ++ii;
    }
    Array ps;
    auto* M = L->getCallOperator();
    for (auto* P : M->parameters())
      ps.push_back(Array{P->getNameAsString(), vid(P), type(P->getType())});
    const char* def = L->getCaptureDefault() == LCD_ByRef ? "&" : L->getCaptureDefault() == LCD_ByCopy ? "=" : "";
    return Array{"lam", line(L->getBeginLoc()), std::move(caps), std::move(ps), stmt(L->getBody()), L->isMutable(), def};
  }

  Value callee_args(const CallExpr* E) {
    const Expr* callee = E->getCallee()->IgnoreParenImpCasts();
    int ln = line(E->getBeginLoc());
    Array as = args(E->arguments());
    if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      Value k = nullptr, q = nullptr;
      if (auto* F = E->getDirectCallee()) { k = fkey(F); q = pname(F); }
      return Array{"op", getOperatorSpelling(OC->getOperator()), std::move(as), k, q, ln};
    }
    if (auto* MC = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto* ME = dyn_cast<MemberExpr>(callee)) {
        if (auto* F = dyn_cast<FunctionDecl>(ME->getMemberDecl())) {
          bool virt = false;
          if (auto* M = dyn_cast<CXXMethodDecl>(F)) virt = M->isVirtual() && !ME->hasQualifier();
          return Array{"mcall", expr(ME->getBase()), fkey(F), pname(F), std::move(as), ln, virt, etargs(ME)};
        }
      }
      (void)MC;
    }
    if (auto* ME = dyn_cast<MemberExpr>(callee)) {
      if (auto* F = dyn_cast<FunctionDecl>(ME->getMemberDecl())) {
        return Array{"mcall", expr(ME->getBase()), fkey(F), pname(F), std::move(as), ln, false, etargs(ME)};
      }
    }
    if (auto* D = dyn_cast<CXXDependentScopeMemberExpr>(callee)) {
      Value b = D->isImplicitAccess() ? Value(Array{"this"}) : expr(D->getBase());
      return Array{"dcall", std::move(b), D->getMember().getAsString(), std::move(as), ln, etargs(D)};
    }
    if (auto* U = dyn_cast<UnresolvedMemberExpr>(callee)) {
      Value b = U->isImplicitAccess() ? Value(Array{"this"}) : expr(U->getBase());
      Array cand;
      for (auto* d : U->decls()) {
        const NamedDecl* nd = d->getUnderlyingDecl();
        if (auto* FT = dyn_cast<FunctionTemplateDecl>(nd)) nd = FT->getTemplatedDecl();
        if (auto* F = dyn_cast<FunctionDecl>(nd)) cand.push_back(fkey(F));
      }
      return Array{"dcall", std::move(b), U->getMemberName().getAsString(), std::move(as), ln, etargs(U), std::move(cand)};
    }
    if (auto* U = dyn_cast<UnresolvedLookupExpr>(callee)) {
      Array cand;
      for (auto* d : U->decls()) {
        const NamedDecl* nd = d->getUnderlyingDecl();
        if (auto* FT = dyn_cast<FunctionTemplateDecl>(nd)) nd = FT->getTemplatedDecl();
        if (auto* F = dyn_cast<FunctionDecl>(nd)) cand.push_back(fkey(F));
      }
      return Array{"ucall", nns(U->getQualifier()) + U->getName().getAsString(), std::move(as), ln, etargs(U), std::move(cand)};
    }
    if (auto* U = dyn_cast<DependentScopeDeclRefExpr>(callee)) {
      return Array{"ucall", nns(U->getQualifier()) + U->getDeclName().getAsString(), std::move(as), ln, etargs(U), Array{}};
    }
    if (auto* F = E->getDirectCallee()) {
      Array ta;
      if (auto* DR = dyn_cast<DeclRefExpr>(callee)) ta = etargs(DR);
      return Array{"call", fkey(F), pname(F), std::move(as), ln, std::move(ta)};
    }
    return Array{"icall", expr(callee), std::move(as), ln};
  }

  std::string nns(NestedNameSpecifier* N) {
    if (!N) return "";
    std::string s; llvm::raw_string_ostream os(s);
    N->print(os, PP);
    return os.str();
  }

  Value expr_(const Expr* E) {
    if (auto* P = dyn_cast<ParenExpr>(E)) return expr_(P->getSubExpr());
    if (auto* P = dyn_cast<FullExpr>(E)) return expr_(P->getSubExpr());
    if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr_(P->getSubExpr());
    if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr_(P->getSubExpr());
    if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr_(P->getReplacement());
    if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) return expr_(P->getExpr());
    if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) return expr_(P->getExpr());
    if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr_(P->getSubExpr());
    if (auto* P = dyn_cast<OpaqueValueExpr>(E)) return P->getSourceExpr() ? expr_(P->getSourceExpr()) : Value(Array{"opaque"});
    if (auto* P = dyn_cast<ImplicitCastExpr>(E)) {
      if (P->getCastKind() == CK_UserDefinedConversion) return expr_(P->getSubExpr());
      // integral narrowing / sign change are kept: they decide bit provenance
      if (P->getCastKind() == CK_IntegralCast && !P->isValueDependent()) {
        auto st = P->getSubExpr()->getType(), dt = P->getType();
        if (!st->isDependentType() && !dt->isDependentType() && C.getTypeSize(dt) < C.getTypeSize(st))
          return Array{"cast", "trunc", ctype(dt), expr_(P->getSubExpr()), (int64_t)C.getTypeSize(dt)};
      }
      return expr_(P->getSubExpr());
    }
    if (auto* P = dyn_cast<IntegerLiteral>(E)) {
      auto v = P->getValue();
      return Array{"int", v.getActiveBits() > 63 ? Value((uint64_t)v.getZExtValue()) : Value((int64_t)v.getZExtValue())};
    }
    if (auto* P = dyn_cast<CharacterLiteral>(E)) return Array{"int", (int64_t)P->getValue()};
    if (auto* P = dyn_cast<CXXBoolLiteralExpr>(E)) return Array{"bool", P->getValue()};
    if (auto* P = dyn_cast<FloatingLiteral>(E)) return Array{"flt", P->getValueAsApproximateDouble()};
    if (auto* P = dyn_cast<StringLiteral>(E)) return Array{"str", P->getCharByteWidth()==1 ? json::fixUTF8(P->getString()) : std::string("?")};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Array{"null"};
    if (isa<CXXThisExpr>(E)) return Array{"this"};
    if (auto* P = dyn_cast<DeclRefExpr>(E)) return declref(P->getDecl(), P, etargs(P));
    if (auto* P = dyn_cast<MemberExpr>(E)) {
      auto* D = P->getMemberDecl();
      if (auto* F = dyn_cast<FieldDecl>(D)) {
        if (F->isAnonymousStructOrUnion()) return expr_(P->getBase());
        return Array{"fld", expr(P->getBase()), F->getNameAsString(), recName(F)};
      }
      return declref(D, P, etargs(P));
    }
    if (auto* P = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
      Value b = P->isImplicitAccess() ? Value(Array{"this"}) : expr(P->getBase());
      return Array{"dfld", std::move(b), P->getMember().getAsString()};
    }
    if (auto* P = dyn_cast<UnresolvedMemberExpr>(E)) {
      Value b = P->isImplicitAccess() ? Value(Array{"this"}) : expr(P->getBase());
      return Array{"dfld", std::move(b), P->getMemberName().getAsString()};
    }
    if (auto* P = dyn_cast<UnresolvedLookupExpr>(E))
      return Array{"name", nns(P->getQualifier()) + P->getName().getAsString(), etargs(P)};
    if (auto* P = dyn_cast<DependentScopeDeclRefExpr>(E))
      return Array{"name", nns(P->getQualifier()) + P->getDeclName().getAsString(), etargs(P)};
    if (auto* P = dyn_cast<UserDefinedLiteral>(E)) {
      return callee_args(P);
    }
    if (auto* P = dyn_cast<CallExpr>(E)) return callee_args(P);
    if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr_(P->getSemanticForm());
    if (auto* P = dyn_cast<BinaryOperator>(E)) {
      if (P->isAssignmentOp())
        return Array{"asg", BinaryOperator::getOpcodeStr(P->getOpcode()).str(), expr(P->getLHS()), expr(P->getRHS()), line(P->getBeginLoc())};
      if (P->getOpcode() == BO_Comma)
        return Array{"comma", expr(P->getLHS()), expr(P->getRHS())};
      return Array{"bin", BinaryOperator::getOpcodeStr(P->getOpcode()).str(), expr(P->getLHS()), expr(P->getRHS())};
    }
    if (auto* P = dyn_cast<UnaryOperator>(E)) {
      auto o = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isIncrementDecrementOp())
        return Array{"inc", std::string(P->isPostfix() ? "post" : "pre"), std::string(P->isIncrementOp() ? "+" : "-"), expr(P->getSubExpr()), line(P->getBeginLoc())};
      return Array{"un", o, expr(P->getSubExpr())};
    }
    if (auto* P = dyn_cast<ConditionalOperator>(E))
      return Array{"cond", expr(P->getCond()), expr(P->getTrueExpr()), expr(P->getFalseExpr())};
    if (auto* P = dyn_cast<ArraySubscriptExpr>(E))
      return Array{"sub", expr(P->getBase()), expr(P->getIdx())};
    if (auto* P = dyn_cast<LambdaExpr>(E)) return lambda(P);
    if (auto* P = dyn_cast<CXXConstructExpr>(E)) {
      auto* D = P->getConstructor();
      if (D->isCopyOrMoveConstructor() && P->getNumArgs() == 1) {
        // copies and moves are transparent, marked so that a rule can see them
        return Array{"copy", D->isMoveConstructor() ? "move" : "copy", expr(P->getArg(0)), ctype(P->getType()), fkey(D)};
      }
      return Array{"ctor", ctype(P->getType()), args(P->arguments()), fkey(D), qname(rpattern(D->getParent())), line(P->getBeginLoc())};
    }
    if (auto* P = dyn_cast<CXXUnresolvedConstructExpr>(E))
      return Array{"ctor", type(P->getTypeAsWritten()), args(P->arguments()), nullptr, type(P->getTypeAsWritten()), line(P->getBeginLoc())};
    if (auto* P = dyn_cast<InitListExpr>(E)) {
      Array a;
      for (auto* i : P->inits()) a.push_back(expr(i));
      return Array{"ilist", ctype(P->getType()), std::move(a)};
    }
    if (auto* P = dyn_cast<ParenListExpr>(E)) {
      Array a;
      for (unsigned i = 0; i < P->getNumExprs(); i++) a.push_back(expr(P->getExpr(i)));
      return Array{"plist", std::move(a)};
    }
    if (auto* P = dyn_cast<CXXScalarValueInitExpr>(E)) return Array{"ctor", ctype(P->getType()), Array{}, nullptr, ctype(P->getType()), line(P->getBeginLoc())};
    if (auto* P = dyn_cast<ImplicitValueInitExpr>(E)) return Array{"ctor", ctype(P->getType()), Array{}, nullptr, ctype(P->getType()), 0};
    if (auto* P = dyn_cast<CXXNewExpr>(E)) {
      Array pl;
      for (unsigned i = 0; i < P->getNumPlacementArgs(); i++) pl.push_back(expr(P->getPlacementArg(i)));
      return Array{"new", type(P->getAllocatedType()), expr(P->getInitializer()), std::move(pl), P->isArray(), line(P->getBeginLoc())};
    }
    if (auto* P = dyn_cast<CXXDeleteExpr>(E)) return Array{"del", expr(P->getArgument()), P->isArrayForm(), line(P->getBeginLoc())};
    if (auto* P = dyn_cast<CXXThrowExpr>(E)) return Array{"throw", expr(P->getSubExpr()), line(P->getBeginLoc())};
    if (auto* P = dyn_cast<ExplicitCastExpr>(E)) {
      std::string k = "cast";
      if (isa<CXXStaticCastExpr>(E)) k = "static";
      else if (isa<CXXDynamicCastExpr>(E)) k = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(E)) k = "reinterpret";
      else if (isa<CXXConstCastExpr>(E)) k = "const";
      int64_t sz = 0;
      auto T = P->getTypeAsWritten();
      if (!T->isDependentType() && T->isIntegralOrEnumerationType()) sz = (int64_t)C.getTypeSize(T);
      return Array{"cast", k, T->isDependentType() ? type(T) : ctype(T), expr(P->getSubExpr()), sz};
    }
    if (auto* P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Value v = nullptr;
      Expr::EvalResult R;
      if (!P->isValueDependent() && P->EvaluateAsInt(R, C)) v = apint(R.Val.getInt());
      return Array{"sizeof", type(P->getTypeOfArgument()), std::move(v)};
    }
    if (auto* P = dyn_cast<SizeOfPackExpr>(E)) return Array{"sizeofpack", P->getPack()->getNameAsString()};
    if (auto* P = dyn_cast<PackExpansionExpr>(E)) return Array{"pack", expr(P->getPattern())};
    if (auto* P = dyn_cast<CXXFoldExpr>(E)) return Array{"fold", expr(P->getPattern()), BinaryOperator::getOpcodeStr(P->getOperator()).str()};
    if (auto* P = dyn_cast<TypeTraitExpr>(E)) {
      if (!P->isValueDependent()) return Array{"bool", P->getValue()};
      return Array{"opaque"};
    }
    if (auto* P = dyn_cast<ArrayInitLoopExpr>(E)) return expr(P->getCommonExpr());
    if (auto* P = dyn_cast<StmtExpr>(E)) return Array{"stmtexpr", stmt(P->getSubStmt())};
    if (auto* P = dyn_cast<PredefinedExpr>(E)) { (void)P; return Array{"str", "__func__"}; }
    if (auto* P = dyn_cast<CXXTypeidExpr>(E)) { (void)P; return Array{"typeid"}; }
    if (auto* P = dyn_cast<CXXNoexceptExpr>(E)) { (void)P; return Array{"opaque"}; }
    if (auto* P = dyn_cast<ConceptSpecializationExpr>(E)) { (void)P; return Array{"opaque"}; }
    Array kids;
    for (auto* c : E->children()) if (c) kids.push_back(expr(c));
    return Array{"?", E->getStmtClassName(), std::move(kids)};
  }

  std::string macroOf(const Stmt* S) {
    SourceLocation L = S->getBeginLoc();
    if (!L.isMacroID()) return "";
    // walk out to the outermost macro expansion
    std::string name;
    while (L.isMacroID()) {
      name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      if (SM.isMacroArgExpansion(L)) {
        // the text is an argument: belongs to the file (or outer macro) text
        L = SM.getImmediateExpansionRange(L).getBegin();
        name = "";
      } else L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return name;
  }

  Value vardecl(const VarDecl* V) {
    Value init = nullptr;
    if (auto* I = V->getInit()) init = expr(I);
    auto T = V->getType();
    std::string extra;
    if (V->isStaticLocal()) extra = "static";
    return Array{V->getNameAsString(), vid(V), T->isDependentType() ? type(T) : ctype(T), std::move(init), extra,
      (V->getInitStyle() == VarDecl::CInit) ? "c" : "call", type(T)};
  }

  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    int ln = line(S->getBeginLoc());
    std::string m = macroOf(S);
    if (!m.empty() && (m.compare(0, 3, "vt_") == 0 || m.compare(0, 2, "vt") == 0)) {
      return Array{"macro", ln, m, stmt_(S, ln)};
    }
    return stmt_(S, ln);
  }

  Value stmt_(const Stmt* S, int ln) {
    if (auto* E = dyn_cast<Expr>(S)) return Array{"expr", ln, expr_(E)};
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Array a;
      for (auto* c : S->children()) a.push_back(stmt(c));
      return Array{"blk", ln, std::move(a), line(S->getEndLoc())};
    }
    case Stmt::DeclStmtClass: {
      Array a;
      for (auto* d : cast<DeclStmt>(S)->decls()) {
        if (auto* DD = dyn_cast<DecompositionDecl>(d)) {
          Array names;
          for (auto* b : DD->bindings()) names.push_back(Array{b->getNameAsString(), vid(b)});
          a.push_back(Array{"$decomp", vid(DD), std::move(names), expr(DD->getInit()), type(DD->getType())});
        } else if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
      }
      return Array{"decl", ln, std::move(a)};
    }
    case Stmt::IfStmtClass: {
      auto* I = cast<IfStmt>(S);
      Value init = nullptr;
      if (I->getInit()) init = stmt(I->getInit());
      Value cv = nullptr;
      if (I->getConditionVariable()) cv = vardecl(I->getConditionVariable());
      return Array{"if", ln, std::move(init), std::move(cv), expr(I->getCond()), stmt(I->getThen()), stmt(I->getElse()), I->isConstexpr()};
    }
    case Stmt::WhileStmtClass: {
      auto* W = cast<WhileStmt>(S);
      Value cv = nullptr;
      if (W->getConditionVariable()) cv = vardecl(W->getConditionVariable());
      return Array{"while", ln, std::move(cv), expr(W->getCond()), stmt(W->getBody())};
    }
    case Stmt::DoStmtClass: {
      auto* W = cast<DoStmt>(S);
      return Array{"do", ln, stmt(W->getBody()), expr(W->getCond())};
    }
    case Stmt::ForStmtClass: {
      auto* F = cast<ForStmt>(S);
      return Array{"for", ln, stmt(F->getInit()), expr(F->getCond()), expr(F->getInc()), stmt(F->getBody())};
    }
    case Stmt::CXXForRangeStmtClass: {
      auto* F = cast<CXXForRangeStmt>(S);
      Value v = nullptr;
      auto* LV = F->getLoopVariable();
      if (auto* DD = dyn_cast<DecompositionDecl>(LV)) {
        Array names;
        for (auto* b : DD->bindings()) names.push_back(Array{b->getNameAsString(), vid(b)});
        v = Array{"$decomp", vid(DD), std::move(names), nullptr, type(DD->getType())};
      } else v = Array{LV->getNameAsString(), vid(LV), type(LV->getType())};
      return Array{"rfor", ln, std::move(v), expr(F->getRangeInit()), stmt(F->getBody())};
    }
    case Stmt::ReturnStmtClass:
      return Array{"ret", ln, expr(cast<ReturnStmt>(S)->getRetValue())};
    case Stmt::BreakStmtClass: return Array{"break", ln};
    case Stmt::ContinueStmtClass: return Array{"cont", ln};
    case Stmt::NullStmtClass: return Array{"nop", ln};
    case Stmt::SwitchStmtClass: {
      auto* W = cast<SwitchStmt>(S);
      return Array{"switch", ln, expr(W->getCond()), stmt(W->getBody())};
    }
    case Stmt::CaseStmtClass: {
      auto* W = cast<CaseStmt>(S);
      return Array{"case", ln, expr(W->getLHS()), stmt(W->getSubStmt())};
    }
    case Stmt::DefaultStmtClass:
      return Array{"default", ln, stmt(cast<DefaultStmt>(S)->getSubStmt())};
    case Stmt::CXXTryStmtClass: {
      auto* T = cast<CXXTryStmt>(S);
      Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) hs.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      return Array{"try", ln, stmt(T->getTryBlock()), std::move(hs)};
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
    default: {
      Array kids;
      for (auto* c : S->children()) if (c) kids.push_back(isa<Expr>(c) ? Value(Array{"expr", ln, expr(c)}) : stmt(c));
      return Array{"?stmt", ln, S->getStmtClassName(), std::move(kids)};
    }
    }
  }

  std::string relfile(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return f.substr(r.size());
    return f;
  }

  bool isInst(const FunctionDecl* F) {
    return F->getTemplateInstantiationPattern() != nullptr;
  }

  Value func(const FunctionDecl* F) {
    ids.clear();
    Object o;
    o["key"] = fkey(F);
    o["q"] = pname(F);
    o["name"] = F->getNameAsString();
    o["file"] = relfile(F->getLocation());
    o["line"] = line(F->getLocation());
    o["end"] = line(F->getEndLoc());
    o["inst"] = isInst(F);
    if (isInst(F)) {
      std::string s; llvm::raw_string_ostream os(s);
      F->getNameForDiagnostic(os, PP, true);
      o["iname"] = os.str();
    }
    o["ret"] = type(F->getReturnType());
    o["sig"] = type(F->getType());
    Array ps;
    for (auto* P : F->parameters()) {
      Value d = nullptr;
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) d = expr(P->getDefaultArg());
      ps.push_back(Array{P->getNameAsString(), vid(P), type(P->getType()), std::move(d)});
    }
    o["params"] = std::move(ps);
    if (auto* FT = F->getDescribedFunctionTemplate()) {
      Array tp;
      std::string tk;
      for (auto* d : *FT->getTemplateParameters()) {
        tp.push_back(d->getNameAsString());
        if (tk.size()) tk += ", ";
        if (auto* N = dyn_cast<NonTypeTemplateParmDecl>(d)) tk += N->getType().getAsString(PP);
        else tk += isa<TemplateTypeParmDecl>(d) ? "typename" : "template";
        if (d->isTemplateParameterPack()) tk += "...";
      }
      o["tps"] = std::move(tp);
      o["tpk"] = tk;
    }
    if (F->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) o["spec"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = qname(rpattern(M->getParent()));
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virt"] = M->isVirtual();
      Array ov;
      for (auto* x : M->overridden_methods()) ov.push_back(pname(x));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor";
      o["ckind"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "";
      Array is;
      for (auto* I : K->inits()) {
        if (!I->isWritten() && !I->isInClassMemberInitializer()) continue;
        std::string n, k;
        if (I->isAnyMemberInitializer()) { n = I->getAnyMember()->getNameAsString(); k = "m"; }
        else if (I->isBaseInitializer()) { n = type(QualType(I->getBaseClass(), 0)); k = "b"; }
        else { k = "d"; }
        is.push_back(Array{k, n, expr(I->getInit()), I->isWritten(), I->isWritten() ? line(I->getSourceLocation()) : 0});
      }
      o["inits"] = std::move(is);
    } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
    else if (isa<CXXMethodDecl>(F)) o["kind"] = "method";
    else o["kind"] = "func";
    o["body"] = stmt(F->getBody());
    return o;
  }

  Value record(const CXXRecordDecl* R) {
    ids.clear();
    Object o;
    o["q"] = qname(rpattern(R));
    o["file"] = relfile(R->getLocation());
    o["line"] = line(R->getLocation());
    o["inst"] = R->getTemplateInstantiationPattern() != nullptr;
    o["union"] = R->isUnion();
    Array bs;
    for (auto& b : R->bases()) bs.push_back(Array{type(b.getType()), b.isVirtual(), b.getType()->isDependentType() ? "" : ctype(b.getType())});
    o["bases"] = std::move(bs);
    Array fs;
    for (auto* F : R->fields()) {
      Value init = nullptr;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) init = expr(F->getInClassInitializer());
      Value bw = nullptr;
      if (F->isBitField() && !F->getBitWidth()->isValueDependent()) bw = (int64_t)F->getBitWidthValue(C);
      fs.push_back(Array{F->getNameAsString(), type(F->getType()), ctype(F->getType()), F->hasInClassInitializer(), std::move(init), std::move(bw), line(F->getLocation()),
        F->getType()->isDependentType() ? false : (F->getType()->isScalarType())});
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto* D : R->decls()) {
      const Decl* d = D;
      if (auto* FT = dyn_cast<FunctionTemplateDecl>(D)) d = FT->getTemplatedDecl();
      if (auto* M = dyn_cast<CXXMethodDecl>(d)) {
        if (M->isImplicit()) continue;
        std::string k = "method";
        if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
          k = K->isCopyConstructor() ? "cctor" : K->isMoveConstructor() ? "mctor" : K->isDefaultConstructor() ? "dctor" : "ctor";
        } else if (isa<CXXDestructorDecl>(M)) k = "dtor";
        else if (M->isCopyAssignmentOperator()) k = "casg";
        else if (M->isMoveAssignmentOperator()) k = "masg";
        ms.push_back(Array{M->getNameAsString(), k, M->isDeleted(), M->isDefaulted(), fkey(M), M->isVirtual(), M->isPureVirtual(), (int)M->getAccess(), type(M->getType())});
      } else if (auto* V = dyn_cast<VarDecl>(d)) {
        ms.push_back(Array{V->getNameAsString(), "var", false, false, "", false, false, (int)V->getAccess(), type(V->getType())});
      } else if (auto* U = dyn_cast<TypedefNameDecl>(d)) {
        ms.push_back(Array{U->getNameAsString(), "type", false, false, type(U->getUnderlyingType()), false, false, (int)U->getAccess(), ""});
      }
    }
    o["members"] = std::move(ms);
    return o;
  }

  Value enm(const EnumDecl* E) {
    Object o;
    o["q"] = qname(E);
    o["file"] = relfile(E->getLocation());
    o["line"] = line(E->getLocation());
    o["under"] = ctype(E->getIntegerType());
    Array a;
    for (auto* c : E->enumerators()) a.push_back(Array{c->getNameAsString(), apint(c->getInitVal())});
    o["consts"] = std::move(a);
    return o;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper D;
  llvm::raw_ostream& os;
  llvm::Regex inst;
  bool useInst;
  std::set<std::string> seen;
  Visitor(ASTContext& C, llvm::raw_ostream& o)
    : D(C), os(o), inst(gInst.empty() ? "^$" : gInst), useInst(!gInst.empty()) {}
  bool shouldVisitTemplateInstantiations() const { return useInst; }
  bool shouldVisitImplicitCode() const { return false; }

  void emit(const char* k, Value v) {
    os << "[\"" << k << "\"," << v << "]\n";
  }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted() && F->isThisDeclarationADefinition())) return true;
    if (F->isImplicit()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (D.isInst(F)) {
      if (!useInst) return true;
      if (!inst.match(D.pname(F))) return true;
    }
    emit("F", D.func(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isImplicit()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    if (R->getTemplateInstantiationPattern()) {
      if (!useInst || !inst.match(D.qname(D.rpattern(R)))) return true;
    }
    emit("R", D.record(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition()) return true;
    if (!D.inRoot(E->getLocation())) return true;
    if (E->isDependentType()) return true;
    emit("E", D.enm(E));
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (isa<ParmVarDecl>(V) || !V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    D.ids.clear();
    Object o;
    o["q"] = D.qname(V);
    o["file"] = D.relfile(V->getLocation());
    o["line"] = D.line(V->getLocation());
    o["type"] = D.type(V->getType());
    o["constexpr"] = V->isConstexpr();
    o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (auto* I = V->getInit()) {
      o["init"] = D.expr(I);
      if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (I->EvaluateAsInt(R, D.C)) o["val"] = apint(R.Val.getInt());
      }
    }
    emit("V", std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string in;
  CompilerInstance& CI;
  Consumer(CompilerInstance& ci, llvm::StringRef f) : in(f.str()), CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
    Visitor V(C, os);
    V.TraverseDecl(C.getTranslationUnitDecl());
    os << "[\"END\"," << (int)C.getDiagnostics().getClient()->getNumErrors() << "]\n";
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef f) override {
    return std::make_unique<Consumer>(CI, f);
  }
};

} // namespace

int main(int argc, char** argv) {
  std::string src;
  std::vector<std::string> flags;
  bool fl = false;
  if (argc == 2 && std::string(argv[1]) == "--self") { llvm::outs() << "vtsa\n"; return 0; }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (fl) { flags.push_back(a); continue; }
    if (a == "--") fl = true;
    else if (a == "-o") gOut = argv[++i];
    else if (a == "--root") gRoots.push_back(argv[++i]);
    else if (a == "--inst") gInst = argv[++i];
    else src = a;
  }
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool T(DB, {src});
  T.appendArgumentsAdjuster(clang::tooling::getInsertArgumentAdjuster(
    {"-resource-dir=/usr/lib/llvm-18/lib/clang/18"}, clang::tooling::ArgumentInsertPosition::END));
  return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
