// cxxexport: dumps, as JSON, the fully resolved clang AST of every non-dependent function whose
// definition lies under a given root directory.  Nothing of a body is dropped: a node kind
// this program does not know is emitted as {"k":"?", ...}, which the verifier refuses to interpret.
//
// usage: cxxexport ROOT OUT.json file.cpp -- <clang flags>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
static std::string Root, OutPath;

class Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::deque<const FunctionDecl *> Work;
  std::set<const FunctionDecl *> Queued;
  std::map<const Decl *, bool> RecDone;
  std::set<const VarDecl *> GlobalsDone;
  json::Object Funcs, Records, Globals;

public:
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::StringRef real = F->getFileEntry().tryGetRealPathName();
    return real.empty() ? F->getName().str() : real.str();
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  json::Value type(QualType T) {
    if (T.isNull()) return nullptr;
    QualType N = T.getNonReferenceType().getCanonicalType();
    json::Object o;
    o["s"] = T.getCanonicalType().getAsString(PP);
    if (T->isReferenceType()) o["ref"] = T->isRValueReferenceType() ? 2 : 1;
    if (T.getNonReferenceType().isConstQualified()) o["const"] = true;
    if (N->isBooleanType()) o["t"] = "bool";
    else if (const auto *ET = N->getAs<EnumType>()) {
      o["t"] = "enum"; o["q"] = qname(ET->getDecl());
      o["signed"] = ET->getDecl()->getIntegerType()->isSignedIntegerType();
      o["bits"] = (int64_t)C.getTypeSize(N);
    }
    else if (N->isIntegerType()) {
      o["t"] = "int";
      o["bits"] = (int64_t)C.getTypeSize(N);
      o["signed"] = N->isSignedIntegerType();
    } else if (N->isRealFloatingType()) {
      o["t"] = "float";
      o["bits"] = (int64_t)C.getTypeSize(N);
    } else if (N->isVoidType()) o["t"] = "void";
    else if (N->isPointerType()) {
      o["t"] = "ptr";
      o["to"] = type(N->getPointeeType());
    } else if (const auto *AT = C.getAsConstantArrayType(N)) {
      o["t"] = "array";
      o["n"] = (int64_t)AT->getSize().getZExtValue();
      o["of"] = type(AT->getElementType());
    } else if (const auto *UT = C.getAsIncompleteArrayType(N)) {
      o["t"] = "uarray";
      o["of"] = type(UT->getElementType());
    } else if (const CXXRecordDecl *R = N->getAsCXXRecordDecl()) {
      o["t"] = "rec";
      o["q"] = qname(R);
      o["id"] = id(R);
      record(R);
      if (const auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array a;
        for (const auto &A : SD->getTemplateArgs().asArray()) targ(A, a);
        o["targs"] = std::move(a);
      }
    } else if (N->isFunctionType()) o["t"] = "func";
    else o["t"] = "other";
    return o;
  }
  std::set<const void *> TypeBusy;
  void targ(const TemplateArgument &A, json::Array &a) {
    switch (A.getKind()) {
    case TemplateArgument::Type: {
      const void *p = A.getAsType().getCanonicalType().getAsOpaquePtr();
      if (TypeBusy.insert(p).second) { a.push_back(type(A.getAsType())); TypeBusy.erase(p); }
      else a.push_back(A.getAsType().getCanonicalType().getAsString(PP));
      break; }
    case TemplateArgument::Integral: a.push_back(json::Object{{"int", A.getAsIntegral().getExtValue()}}); break;
    case TemplateArgument::Pack: for (const auto &P : A.pack_elements()) targ(P, a); break;
    default: a.push_back(nullptr);
    }
  }
  void record(const CXXRecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    const Decl *K = R->getCanonicalDecl();
    if (RecDone.count(K)) return;
    RecDone[K] = true;
    if (!inRoot(R->getLocation())) return;
    json::Object o;
    o["q"] = qname(R);
    o["lambda"] = R->isLambda();
    json::Array fs, bases;
    if (R->hasDefinition()) {
      for (const FieldDecl *F : R->fields()) {
        json::Object f{{"name", F->getNameAsString()}, {"id", id(F)}, {"type", type(F->getType())}};
        if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
        fs.push_back(std::move(f));
      }
      for (const auto &B : R->bases()) bases.push_back(type(B.getType()));
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bases);
    Records[std::to_string(id(R))] = std::move(o);
  }
  void want(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D) || !D) {
      // defaulted/implicit members of repo classes have no body: fine
      return;
    }
    if (D->isDependentContext()) return;
    if (!inRoot(D->getLocation())) return;
    if (Queued.insert(D).second) Work.push_back(D);
  }
  json::Value fref(const FunctionDecl *F) {
    want(F);
    json::Object o{{"id", id(F)}, {"q", qname(F)}, {"n", F->getNameAsString()}};
    const FunctionDecl *D = nullptr;
    o["repo"] = inRoot(F->getLocation());
    o["body"] = F->hasBody(D) && D && inRoot(D->getLocation());
    if (F->isDefaulted()) o["defaulted"] = true;
    o["ret"] = type(F->getReturnType());
    json::Array ps;
    for (const ParmVarDecl *P : F->parameters()) ps.push_back(type(P->getType()));
    o["ptypes"] = std::move(ps);
    if (const auto *A = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (const auto &T : A->asArray()) targ(T, a);
      o["targs"] = std::move(a);
    }
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clsid"] = id(M->getParent());
      o["static"] = M->isStatic();
      if (const auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      }
      if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (M->isMoveAssignmentOperator()) o["assign"] = "move";
    }
    return o;
  }
  json::Value args(CallExpr *E, unsigned from = 0) {
    json::Array a;
    for (unsigned i = from; i < E->getNumArgs(); i++) a.push_back(expr(E->getArg(i)));
    return a;
  }
  static const Expr *strip(const Expr *E) {
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else return E;
    }
  }
  json::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    json::Object o;
    o["l"] = line(E->getExprLoc());
    o["ty"] = type(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    // integral constants
    if (!E->isValueDependent() && !E->isGLValue() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) {
        o["k"] = "int"; o["v"] = llvm::toString(R.Val.getInt(), 10); o["folded"] = true;
        return o;
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      llvm::SmallString<64> s; X->getValue().toString(s, 0, 0);
      o["k"] = "flt"; o["v"] = s.str().str();
      char buf[64]; snprintf(buf, sizeof buf, "%a", X->getValue().convertToDouble()); o["hex"] = std::string(buf);
    }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; o["v"] = json::fixUTF8(X->isOrdinary() || X->isUTF8() ? X->getString() : "?"); }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string(X->getValue()); o["char"] = true; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) o["k"] = "null";
    else if (isa<CXXThisExpr>(E)) o["k"] = "this";
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["f"] = fref(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; o["v"] = llvm::toString(EC->getInitVal(), 10); }
      else {
        o["k"] = "var"; o["id"] = id(D); o["n"] = D->getNameAsString(); o["q"] = qname(D);
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage()) { o["global"] = true; global(V); }
        }
      }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "method"; o["f"] = fref(F); o["obj"] = expr(X->getBase()); o["arrow"] = X->isArrow(); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "var"; o["id"] = id(V); o["n"] = V->getNameAsString(); o["q"] = qname(V); o["global"] = true; global(V); }
      else { o["k"] = "member"; o["n"] = D->getNameAsString(); o["fid"] = id(D); o["obj"] = expr(X->getBase()); o["arrow"] = X->isArrow(); 
        if (auto *FD = dyn_cast<FieldDecl>(D)) if (FD->getType()->isReferenceType()) o["refmember"] = true; }
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["e"] = expr(X->getSubExpr()); }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "cas"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); o["cty"] = type(X->getComputationResultType()); }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); }
    else if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); }
    else if (auto *X = dyn_cast<CastExpr>(E)) { o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr()); o["explicit"] = isa<ExplicitCastExpr>(X);
      if (X->getConversionFunction() && isa<FunctionDecl>(X->getConversionFunction())) o["conv"] = fref(cast<FunctionDecl>(X->getConversionFunction())); }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["f"] = fref(F);
      o["args"] = args(const_cast<CXXOperatorCallExpr *>(X));
      o["ismember"] = X->getDirectCallee() && isa<CXXMethodDecl>(X->getDirectCallee()) && !cast<CXXMethodDecl>(X->getDirectCallee())->isStatic();
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *F = X->getMethodDecl()) o["f"] = fref(F);
      const Expr *Obj = X->getImplicitObjectArgument();
      o["obj"] = expr(Obj);
      if (Obj && Obj->getType()->isPointerType()) o["arrow"] = true;
      o["args"] = args(const_cast<CXXMemberCallExpr *>(X));
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) o["f"] = fref(F);
      else o["fe"] = expr(X->getCallee());
      o["args"] = args(const_cast<CallExpr *>(X));
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["f"] = fref(X->getConstructor());
      json::Array a; for (unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["args"] = std::move(a);
      o["list"] = X->isListInitialization();
    }
    else if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      o["k"] = "ilist"; json::Array a; for (unsigned i = 0; i < S->getNumInits(); i++) a.push_back(expr(S->getInit(i)));
      o["args"] = std::move(a);
    }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["rec"] = id(X->getLambdaClass()); record(X->getLambdaClass());
      json::Array caps; auto init = X->capture_init_begin();
      for (auto c = X->capture_begin(); c != X->capture_end(); ++c, ++init) {
        json::Object co;
        if (c->capturesThis()) { co["this"] = true; co["byref"] = c->getCaptureKind() == LCK_This; }
        else { const ValueDecl *V = c->getCapturedVar(); co["id"] = id(V); co["n"] = V->getNameAsString(); co["byref"] = c->getCaptureKind() == LCK_ByRef; if (auto *VD = dyn_cast<VarDecl>(V)) { co["initcap"] = VD->isInitCapture(); if (VD->isInitCapture() && VD->getType()->isReferenceType()) co["byref"] = true; } }
        co["init"] = expr(*init);
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      if (auto *Op = X->getLambdaClass()->getLambdaCallOperator()) { o["op"] = id(Op); if (!Op->isDependentContext() && !X->getLambdaClass()->isGenericLambda()) { Queued.count(Op) ? void() : want(Op); o["opf"] = fref(Op);}
        if (X->getLambdaClass()->isGenericLambda()) if (auto *FT = Op->getDescribedFunctionTemplate()) for (auto *Sp : FT->specializations()) want(Sp); }
    }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "index"; o["a"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = expr(X->getSubExpr()); }
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) o["k"] = "zero";
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; (void)X; }
    else { o["k"] = "?"; o["cls"] = E->getStmtClassName(); }
    return o;
  }
  void global(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!GlobalsDone.insert(V).second) return;
    if (!inRoot(V->getLocation())) return;
    const VarDecl *Def = nullptr;
    const Expr *I = V->getAnyInitializer(Def);
    json::Object o{{"n", V->getNameAsString()}, {"q", qname(V)}, {"type", type(V->getType())}, {"const", V->getType().isConstQualified()}};
    if (I) o["init"] = expr(I);
    Globals[std::to_string(id(V))] = std::move(o);
  }
  json::Value var(const VarDecl *V) {
    json::Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"type", type(V->getType())}, {"l", line(V->getLocation())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto *B : D->bindings()) bs.push_back(json::Object{{"id", id(B)}, {"n", B->getNameAsString()}, {"e", expr(B->getBinding())}});
      o["bindings"] = std::move(bs);
    }
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { return json::Object{{"k", "expr"}, {"e", expr(E)}, {"l", line(E->getExprLoc())}}; }
    json::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; json::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["b"] = std::move(a); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; json::Array a;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
        else if (isa<TypedefNameDecl>(D) || isa<UsingDirectiveDecl>(D) || isa<UsingDecl>(D) || isa<NamespaceAliasDecl>(D) || isa<StaticAssertDecl>(D) || isa<EmptyDecl>(D) || isa<TagDecl>(D)) {}
        else a.push_back(json::Object{{"?", D->getDeclKindName()}});
      }
      o["vars"] = std::move(a);
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; o["init"] = stmt(X->getInit()); 
      if (X->getConditionVariable()) o["var"] = var(X->getConditionVariable());
      o["constexpr"] = X->isConstexpr();
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse());
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); if (X->getConditionVariable()) o["k"] = "?"; }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); if (X->getConditionVariable()) o["k"] = "?"; }
    else if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["init"] = stmt(X->getInit()); o["range"] = var(cast<VarDecl>(cast<DeclStmt>(X->getRangeStmt())->getSingleDecl()));
      o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["var"] = var(X->getLoopVariable()); o["body"] = stmt(X->getBody());
    }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = expr(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); if (X->getInit() || X->getConditionVariable()) o["k"] = "?"; }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["body"] = stmt(X->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) { auto *H = X->getHandler(i); json::Object h; h["body"] = stmt(H->getHandlerBlock()); if (H->getExceptionDecl()) { h["var"] = var(H->getExceptionDecl()); h["type"] = type(H->getCaughtType()); } else h["any"] = true; hs.push_back(std::move(h)); }
      o["handlers"] = std::move(hs);
    }
    else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp"; o["d"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      json::Array cl; for (auto *c : X->clauses()) if (c && !c->isImplicit()) {
        json::Object co{{"c", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
        json::Array vars; for (const Stmt *ch : c->children()) if (auto *e = dyn_cast_or_null<Expr>(ch)) vars.push_back(expr(e));
        co["vars"] = std::move(vars); cl.push_back(std::move(co)); }
      o["clauses"] = std::move(cl);
      const Stmt *B = X->hasAssociatedStmt() ? X->getAssociatedStmt() : nullptr;
      while (B) { if (auto *Cs = dyn_cast<CapturedStmt>(B)) B = Cs->getCapturedStmt(); else if (auto *L = dyn_cast<OMPCanonicalLoop>(B)) B = L->getLoopStmt(); else break; }
      o["body"] = stmt(B);
    }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else { o["k"] = "?"; o["cls"] = S->getStmtClassName(); }
    return o;
  }
  void function(const FunctionDecl *F) {
    json::Object o;
    o["ref"] = fref(F);
    o["q"] = qname(F); o["n"] = F->getNameAsString(); o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    o["endline"] = line(F->getEndLoc());
    json::Array ps;
    for (const ParmVarDecl *P : F->parameters()) ps.push_back(json::Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"type", type(P->getType())}});
    o["params"] = std::move(ps);
    o["noexcept"] = F->getExceptionSpecType() != EST_None && C.getLangOpts().CPlusPlus && F->getType()->getAs<FunctionProtoType>() && F->getType()->getAs<FunctionProtoType>()->isNothrow();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["const"] = M->isConst();
      if (M->getParent()->isLambda()) o["lambda"] = id(M->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) { io["m"] = I->getMember()->getNameAsString(); io["mt"] = type(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["delegate"] = true;
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    Funcs[std::to_string(id(F))] = std::move(o);
  }
  struct Seeder : RecursiveASTVisitor<Seeder> {
    Exporter &X;
    Seeder(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { X.want(F); return true; }
  };
  void run() {
    Seeder(*this).TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty()) { auto *F = Work.front(); Work.pop_front(); function(F); }
    json::Object top;
    top["functions"] = std::move(Funcs); top["records"] = std::move(Records); top["globals"] = std::move(Globals);
    std::error_code EC; llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(top));
  }
};
struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter(C).run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: cxxexport ROOT OUT file.cpp -- flags\n"; return 2; }
  Root = argv[1]; OutPath = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
