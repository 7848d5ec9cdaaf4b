// dwextract: dump the type-resolved bodies of every function defined under a
// source root as compact JSON (one file per translation unit).  No analysis
// happens here; the deciding rules live in /verif/dwsa.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  Dumper(ASTContext &C) : C(C), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::string fkey(const FunctionDecl *F) {
    // linkage-unique key: USR + canonical type
    return usr(F) + "|" + ty(F->getType());
  }
  int line(SourceLocation L) {
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    auto &SM = C.getSourceManager();
    auto FE = SM.getFilename(SM.getExpansionLoc(L));
    return FE.str();
  }
  json::Object node(const char *k, SourceLocation L) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(L);
    return o;
  }
  static bool strip(const Expr *&E) {
    const Expr *O = E;
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else break;
    }
    return O != E;
  }
  json::Value exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }
  template <class R> json::Value exprRange(R &&A) {
    json::Array r;
    for (const Expr *e : A) r.push_back(expr(e));
    return r;
  }
  json::Value tryConst(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    if (!E->isPRValue()) return nullptr;
    QualType T = E->getType();
    if (!T->isArithmeticType() && !T->isEnumeralType()) return nullptr;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return nullptr;
    json::Object o = node("num", E->getBeginLoc());
    o["t"] = ty(T);
    if (R.Val.isInt()) {
      llvm::SmallString<32> S;
      R.Val.getInt().toString(S, 10);
      o["v"] = S.str().str();
      return o;
    }
    if (R.Val.isFloat()) {
      char buf[64];
      snprintf(buf, sizeof buf, "%a", R.Val.getFloat().convertToDouble());
      llvm::APFloat F = R.Val.getFloat();
      bool li;
      F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      snprintf(buf, sizeof buf, "%.17g", F.convertToDouble());
      o["v"] = std::string(buf);
      o["fl"] = true;
      return o;
    }
    return nullptr;
  }
  json::Object callee(const FunctionDecl *F, json::Object o) {
    if (!F) return o;
    o["fn"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    o["id"] = fkey(F);
    o["rt"] = ty(F->getReturnType());
    o["ft"] = ty(F->getType());
    if (F->isVariadic()) o["va"] = true;
    if (F->getExceptionSpecType() == EST_NoThrow || F->getExceptionSpecType() == EST_BasicNoexcept ||
        F->getExceptionSpecType() == EST_NoexceptTrue) o["nx"] = true;
    if (F->isNoReturn()) o["nr"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["clst"] = ty(C.getTypeDeclType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    json::Array pts;
    for (auto *P : F->parameters()) pts.push_back(ty(P->getType()));
    o["pt"] = std::move(pts);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (unsigned i = 0; i < TA->size(); ++i) targ(TA->get(i), a);
      o["ta"] = std::move(a);
    }
    return o;
  }
  void targ(const TemplateArgument &A, json::Array &out) {
    if (A.getKind() == TemplateArgument::Pack) {
      for (auto &x : A.pack_elements()) targ(x, out);
      return;
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    if (A.getKind() == TemplateArgument::Type) s = ty(A.getAsType());
    else A.print(PP, os, true);
    out.push_back(s);
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object o = node("var", V->getLocation());
    o["d"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto *B : D->bindings()) {
        json::Object x;
        x["n"] = B->getNameAsString();
        x["d"] = id(B);
        b.push_back(std::move(x));
      }
      o["bind"] = std::move(b);
    }
    if (V->hasInit()) {
      o["init"] = expr(V->getInit());
      if (V->getInitStyle() == VarDecl::ListInit) o["style"] = "list";
    }
    return o;
  }
  json::Value lambda(const LambdaExpr *L) {
    json::Object o = node("lambda", L->getBeginLoc());
    o["t"] = ty(L->getType());
    json::Array caps;
    auto it = L->capture_init_begin();
    for (auto &cp : L->captures()) {
      json::Object c;
      if (cp.capturesThis()) c["this"] = true;
      else if (cp.capturesVariable()) {
        c["d"] = id(cp.getCapturedVar());
        c["n"] = cp.getCapturedVar()->getNameAsString();
        c["t"] = ty(cp.getCapturedVar()->getType());
        c["ref"] = cp.getCaptureKind() == LCK_ByRef;
        if (L->isInitCapture(&cp)) { c["initcap"] = true; }
        if (*it) c["init"] = expr(*it);
      }
      ++it;
      caps.push_back(std::move(c));
    }
    o["caps"] = std::move(caps);
    auto *M = L->getCallOperator();
    if (auto *FT = M->getDescribedFunctionTemplate()) {
      // generic lambda: dump every instantiation
      json::Array insts;
      for (auto *S : FT->specializations())
        if (S->hasBody()) {
          json::Object s;
          s["id"] = fkey(S);
          s["params"] = params(S);
          s["rt"] = ty(S->getReturnType());
          s["body"] = stmt(S->getBody());
          insts.push_back(std::move(s));
        }
      o["insts"] = std::move(insts);
    } else {
      o["params"] = params(M);
      o["rt"] = ty(M->getReturnType());
      o["body"] = stmt(L->getBody());
    }
    return o;
  }
  json::Value params(const FunctionDecl *F) {
    json::Array a;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["d"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
        p["def"] = expr(P->getDefaultArg());
      a.push_back(std::move(p));
    }
    return a;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    strip(E);
    auto L = E->getBeginLoc();
    // calls: use the paren / operator location for accuracy
    json::Value cv = tryConst(E);
    if (cv != nullptr) return cv;
    std::string T = ty(E->getType());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind();
      switch (K) {
      case CK_LValueToRValue: {
        auto o = node("rv", L); o["t"] = T; o["e"] = expr(X->getSubExpr()); return o;
      }
      case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
      case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_ToVoid: case CK_LValueToRValueBitCast:
        return expr(X->getSubExpr());
      default: {
        auto o = node("cast", L);
        o["ck"] = X->getCastKindName(); o["t"] = T;
        o["st"] = ty(X->getSubExpr()->getType());
        o["e"] = expr(X->getSubExpr());
        return o;
      }
      }
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto o = node("ref", L);
      auto *D = X->getDecl();
      o["n"] = D->getNameAsString();
      o["t"] = T;
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; return callee(F, std::move(o)); }
      o["d"] = id(D);
      if (isa<BindingDecl>(D)) o["dk"] = "bind";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->hasGlobalStorage() && !V->isStaticLocal() ? "global" : (isa<ParmVarDecl>(D) ? "parm" : "var");
        if (V->hasGlobalStorage()) { o["usr"] = usr(V); o["qn"] = V->getQualifiedNameAsString(); }
        if (V->isStaticLocal()) o["static"] = true;
      } else o["dk"] = "other";
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto o = node("mem", X->getMemberLoc().isValid() ? X->getMemberLoc() : L);
      o["t"] = T;
      o["n"] = X->getMemberDecl()->getNameAsString();
      o["cls"] = cast<NamedDecl>(X->getMemberDecl()->getDeclContext())->getQualifiedNameAsString();
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { o["k"] = "ref"; o["dk"] = "global"; o["d"] = id(V); o["usr"] = usr(V); o["qn"]=V->getQualifiedNameAsString(); return o; }
      o["arrow"] = X->isArrow();
      o["b"] = expr(X->getBase());
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("call", X->getOperatorLoc());
      o["t"] = T; o["op"] = true;
      o = callee(X->getDirectCallee(), std::move(o));
      o["args"] = exprRange(X->arguments());
      if (!X->getDirectCallee()) o["ce"] = expr(X->getCallee());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("call", X->getExprLoc());
      o["t"] = T;
      o = callee(X->getMethodDecl(), std::move(o));
      o["obj"] = expr(X->getImplicitObjectArgument());
      o["objt"] = ty(X->getImplicitObjectArgument()->getType());
      if (X->getMethodDecl() && X->getMethodDecl()->isVirtual()) {
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->hasQualifier()) o["nonvirt"] = true;
      }
      o["args"] = exprRange(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = node("call", L);
      o["t"] = T;
      o = callee(X->getDirectCallee(), std::move(o));
      if (!X->getDirectCallee()) o["ce"] = expr(X->getCallee());
      o["args"] = exprRange(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = node("ctor", L);
      o["t"] = T;
      o = callee(X->getConstructor(), std::move(o));
      auto *CD = X->getConstructor();
      if (CD->isCopyConstructor()) o["ck"] = "copy";
      else if (CD->isMoveConstructor()) o["ck"] = "move";
      else if (CD->isDefaultConstructor()) o["ck"] = "default";
      if (CD->isDefaulted() || CD->isImplicit()) o["defaulted"] = true;
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["stdlist"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
      o["args"] = exprRange(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto o = node("inhctor", L); o["t"] = T; o = callee(X->getConstructor(), std::move(o)); return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto o = node("ilist", L); o["t"] = T;
      if (auto *S = X->getSemanticForm()) X = S;
      o["e"] = exprRange(X->inits());
      if (X->hasArrayFiller()) o["filler"] = expr(X->getArrayFiller());
      return o;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      auto o = node("stdlist", L); o["t"] = T; o["e"] = expr(X->getSubExpr()); return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = node("un", L); o["t"] = T;
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto o = node(X->isAssignmentOp() ? "asg" : "bin", X->getOperatorLoc()); o["t"] = T;
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      if (auto *Y = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = ty(Y->getComputationResultType());
      o["lt"] = ty(X->getLHS()->getType());
      return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto o = node("cond", L); o["t"] = T;
      o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      o["lv"] = !E->isPRValue();
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("sub", L); o["t"] = T; o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o;
    }
    if (auto *X = dyn_cast<CXXThisExpr>(E)) { auto o = node("this", L); o["t"] = T; return o; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      auto o = node("str", L); o["t"] = T;
      std::string b = X->getCharByteWidth() == 1 ? X->getString().str() : "?";
      o["v"] = json::isUTF8(b) ? b : json::fixUTF8(b); return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { auto o = node("null", L); o["t"] = T; return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = node("throw", X->getThrowLoc()); o["t"] = T;
      if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["tt"] = ty(X->getSubExpr()->getType()); }
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("new", L); o["t"] = T; o["at"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->isArray()) o["arr"] = true;
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = node("delete", L); o["t"] = T; o["arr"] = X->isArrayForm(); o["e"] = expr(X->getArgument()); return o;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { auto o = node("zero", L); o["t"] = T; return o; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { auto o = node("zero", L); o["t"] = T; return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { auto o = node("arrcopy", L); o["t"] = T; o["e"] = expr(X->getCommonExpr()->getSourceExpr()); return o; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { auto o = node("typeid", L); o["t"] = T;
      if (X->isTypeOperand()) o["ot"] = ty(X->getTypeOperand(C)); else o["e"] = expr(X->getExprOperand()); return o; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { auto o = node("str", L); o["t"] = T; o["v"] = "__func__"; return o; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { auto o = node("nop", L); o["t"] = T; return o; }
    auto o = node("unk", L); o["t"] = T; o["cls"] = E->getStmtClassName();
    json::Array ch;
    for (auto *S : E->children()) if (S) if (auto *e = dyn_cast<Expr>(S)) ch.push_back(expr(e));
    o["ch"] = std::move(ch);
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    auto L = S->getBeginLoc();
    if (auto *X = dyn_cast<Expr>(S)) { auto o = node("expr", L); o["e"] = expr(X); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto o = node("block", L); json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", L); json::Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = node("if", L);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen()); if (X->getElse()) o["b"] = stmt(X->getElse());
      if (X->isConstexpr()) o["cx"] = true;
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto o = node("for", L);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["s"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto o = node("while", L);
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = node("do", L); o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("rfor", L);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["var"] = varDecl(X->getLoopVariable());
      o["rt"] = ty(X->getRangeInit()->getType());
      o["range"] = expr(X->getRangeInit());
      o["s"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = node("switch", L);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto o = node("case", L); o["c"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = node("default", L); o["s"] = stmt(X->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) return node("break", L);
    if (isa<ContinueStmt>(S)) return node("continue", L);
    if (isa<NullStmt>(S)) return node("null", L);
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("return", L); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", L); o["s"] = stmt(X->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); json::Object c = node("catch", H->getBeginLoc());
        if (H->getExceptionDecl()) c["v"] = varDecl(H->getExceptionDecl());
        else c["all"] = true;
        if (!H->getCaughtType().isNull()) c["ct"] = ty(H->getCaughtType());
        c["s"] = stmt(H->getHandlerBlock()); h.push_back(std::move(c));
      }
      o["h"] = std::move(h); return o;
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      auto o = node("omp", L);
      o["d"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : X->clauses()) {
        json::Object co; if (!c) continue;
        co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        json::Array vs;
        for (auto *ch : c->children()) if (ch) {
          const Expr* e = dyn_cast<Expr>(ch); if (!e) continue;
          e = e->IgnoreParenImpCasts();
          if (auto *dr = dyn_cast<DeclRefExpr>(e)) vs.push_back(id(dr->getDecl()));
        }
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (X->hasAssociatedStmt()) {
        const Stmt *B = X->getRawStmt();
        while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
        o["s"] = stmt(B);
      }
      return o;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o = node("label", L); o["n"] = X->getName(); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { auto o = node("goto", L); o["n"] = X->getLabel()->getNameAsString(); return o; }
    auto o = node("unkstmt", L); o["cls"] = S->getStmtClassName(); return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; Dumper D;
  json::Array fns, recs, globs, enums;
  std::set<std::string> seen;
  V(ASTContext &C) : C(C), D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = D.file(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->isTemplated() && !F->isTemplateInstantiation()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isDefaulted() && !isa<CXXConstructorDecl>(F)) return true;
    std::string key = D.fkey(F);
    if (!seen.insert(key).second) return true;
    json::Object o;
    o["id"] = key;
    o["fn"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    o["file"] = D.file(F->getLocation());
    o["l"] = D.line(F->getBeginLoc());
    o["el"] = D.line(F->getBodyRBrace());
    o["params"] = D.params(F);
    o["rt"] = D.ty(F->getReturnType());
    o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "fn";
    o["internal"] = F->getFormalLinkage() == Linkage::Internal;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["clst"] = D.ty(C.getTypeDeclType(M->getParent()));
      o["static"] = M->isStatic(); o["virt"] = M->isVirtual(); o["const"] = M->isConst();
      o["access"] = (int)M->getAccess();
      json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(D.fkey(x)); o["over"] = std::move(ov);
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a; for (unsigned i = 0; i < TA->size(); ++i) D.targ(TA->get(i), a); o["ta"] = std::move(a);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array in;
      for (auto *I : K->inits()) {
        json::Object x;
        if (I->isMemberInitializer()) x["m"] = I->getMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) x["deleg"] = true;
        else if (I->isBaseInitializer()) x["base"] = D.ty(QualType(I->getBaseClass(), 0));
        x["written"] = I->isWritten(); x["e"] = D.expr(I->getInit()); x["l"] = D.line(I->getSourceLocation());
        in.push_back(std::move(x));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = D.stmt(F->getBody());
    fns.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    json::Object o;
    o["n"] = R->getQualifiedNameAsString();
    o["t"] = D.ty(C.getTypeDeclType(R));
    o["file"] = D.file(R->getLocation()); o["l"] = D.line(R->getLocation());
    json::Array f;
    for (auto *x : R->fields()) {
      json::Object y; y["n"] = x->getNameAsString(); y["t"] = D.ty(x->getType());
      y["access"] = (int)x->getAccess(); y["mut"] = x->isMutable();
      if (x->hasInClassInitializer() && x->getInClassInitializer()) y["init"] = D.expr(x->getInClassInitializer());
      f.push_back(std::move(y));
    }
    o["f"] = std::move(f);
    json::Array b; for (auto &x : R->bases()) b.push_back(D.ty(x.getType())); o["b"] = std::move(b);
    json::Array ms;
    for (auto *m : R->methods()) { json::Object y; y["n"]=m->getNameAsString(); y["id"]=D.fkey(m); y["access"]=(int)m->getAccess(); y["virt"]=m->isVirtual(); y["pure"]=m->isPureVirtual();
      json::Array ov; for (auto *x : m->overridden_methods()) ov.push_back(D.fkey(x)); y["over"] = std::move(ov); ms.push_back(std::move(y)); }
    o["m"] = std::move(ms);
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (!X->hasGlobalStorage() || X->isStaticLocal() || isa<ParmVarDecl>(X)) return true;
    if (X->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(X->getLocation())) return true;
    if (!X->hasInit()) return true;
    json::Object o; o["usr"] = D.usr(X); o["qn"] = X->getQualifiedNameAsString(); o["v"] = D.varDecl(X);
    o["file"] = D.file(X->getLocation());
    globs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoot(E->getLocation())) return true;
    json::Object o; o["n"] = E->getQualifiedNameAsString(); o["file"] = D.file(E->getLocation()); o["l"] = D.line(E->getLocation());
    json::Array a;
    for (auto *c : E->enumerators()) { json::Object y; y["n"] = c->getNameAsString(); llvm::SmallString<32> S; c->getInitVal().toString(S, 10); y["v"] = S.str().str(); a.push_back(std::move(y)); }
    o["c"] = std::move(a); enums.push_back(std::move(o)); return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["errors"] = (int)C.getDiagnostics().getNumErrors();
    o["fns"] = std::move(v.fns); o["recs"] = std::move(v.recs); o["globs"] = std::move(v.globs); o["enums"] = std::move(v.enums);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // dwextract OUT SRC ROOT[,ROOT...] -- flags
  std::string src; std::vector<std::string> flags; int i = 1;
  OutPath = argv[i++]; src = argv[i++];
  std::string r = argv[i++]; size_t p = 0;
  while (p <= r.size()) { size_t q = r.find(',', p); if (q == std::string::npos) q = r.size(); Roots.push_back(r.substr(p, q - p)); p = q + 1; }
  for (; i < argc; ++i) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
