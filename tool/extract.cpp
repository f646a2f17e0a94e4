// kl-extract: dumps the resolved (instantiated) AST of every function defined
// under a given source root, plus records/enums, as JSON.  No code is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <string>
using namespace clang;

static std::string Root; // canonical root prefix, e.g. /repo/
static std::string OutPath;

static void jstr(llvm::raw_ostream &o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o << "\\\""; break;
    case '\\': o << "\\\\"; break;
    case '\n': o << "\\n"; break;
    case '\r': o << "\\r"; break;
    case '\t': o << "\\t"; break;
    default:
      if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
      else o << (char)c;
    }
  }
  o << '"';
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &o; PrintingPolicy PP;
  std::map<const Decl *, unsigned> ids; unsigned nextId = 1;
  std::map<FileID, std::string> pathCache;
  std::set<const Decl *> doneF, doneR, doneE;
  bool firstF = true;
public:
  std::string recs, enums, globals, uninst;
  Dumper(ASTContext &c, llvm::raw_ostream &os) : C(c), SM(c.getSourceManager()), o(os), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.PrintCanonicalTypes = true; PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  unsigned id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D); if (it != ids.end()) return it->second;
    return ids[D] = nextId++;
  }
  std::string pathOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = pathCache.find(F); if (it != pathCache.end()) return it->second;
    std::string r;
    if (auto fe = SM.getFileEntryRefForID(F)) {
      llvm::SmallString<256> rp;
      if (!llvm::sys::fs::real_path(fe->getName(), rp)) r = rp.str().str();
      else r = fe->getName().str();
    }
    return pathCache[F] = r;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) { return L.isValid() && llvm::StringRef(pathOf(L)).starts_with(Root); }

  std::string ty(QualType T, unsigned maxlen = 400) {
    std::string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > maxlen) s = s.substr(0, maxlen) + "...";
    return s;
  }
  std::string tmplArgs(const TemplateArgumentList *L) {
    if (!L) return "[]";
    std::string r; llvm::raw_string_ostream os(r); os << "[";
    bool f = true;
    for (unsigned i = 0; i < L->size(); ++i) argOut(os, L->get(i), f);
    os << "]"; os.flush(); return r;
  }
  void argOut(llvm::raw_ostream &os, const TemplateArgument &A, bool &f) {
    if (A.getKind() == TemplateArgument::Pack) { for (auto &x : A.pack_elements()) argOut(os, x, f); return; }
    if (!f) os << ","; f = false;
    std::string s; llvm::raw_string_ostream ss(s);
    if (A.getKind() == TemplateArgument::Type) { std::string t = ty(A.getAsType(), 160); ss << t; }
    else A.print(PP, ss, true);
    ss.flush(); if (s.size() > 200) s.resize(200);
    jstr(os, s);
  }

  // ---------------------------------------------------------------- expressions
  const Expr *strip(const Expr *E) {
    while (true) {
      const Expr *S = E;
      E = E->IgnoreParens();
      if (auto *x = dyn_cast<ImplicitCastExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
        if (x->getConstructor()->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) E = x->getArg(0);
      }
      if (S == E) return E;
    }
  }
  void args(llvm::ArrayRef<const Expr *> A) {
    o << "\"a\":["; bool f = true;
    for (auto *x : A) { if (!f) o << ","; f = false; expr(x); }
    o << "]";
  }
  template <class It> void argsRange(It b, It e) {
    o << "\"a\":["; bool f = true;
    for (; b != e; ++b) { if (isa<CXXDefaultArgExpr>(*b)) continue; if (!f) o << ","; f = false; expr(*b); }
    o << "]";
  }
  void calleeInfo(const FunctionDecl *FD) {
    if (!FD) return;
    o << "\"f\":" << id(FD) << ",";
    o << "\"n\":"; jstr(o, FD->getNameAsString()); o << ",";
    std::string q;
    if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getDeclContext())) {
      q = RD->getQualifiedNameAsString();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        if (q.find("expr::") == std::string::npos) { o << "\"ca\":" << tmplArgs(&S->getTemplateArgs()) << ","; }
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(FD)) { if (M->isVirtual()) o << "\"vt\":1,"; if (M->isConst()) o << "\"cst\":1,"; if (M->isStatic()) o << "\"sta\":1,"; }
    } else if (auto *ND = dyn_cast<NamespaceDecl>(FD->getDeclContext())) q = ND->getQualifiedNameAsString();
    o << "\"q\":"; jstr(o, q); o << ",";
    { std::string r; unsigned i = 0; for (auto *P : FD->parameters()) { QualType T = P->getType(); bool m = false;
        if (T->isLValueReferenceType()) m = !T->getPointeeType().isConstQualified();
        else if (T->isPointerType()) m = !T->getPointeeType().isConstQualified();
        if (m) { if (!r.empty()) r += ","; r += std::to_string(i); } ++i; }
      if (!r.empty()) o << "\"rp\":[" << r << "],"; }
    if (auto *TA = FD->getTemplateSpecializationArgs())
    { bool ints = true; for (auto &A : TA->asArray()) if (A.getKind() != TemplateArgument::Integral) ints = false;
      if (ints || q.find("Eigen") == std::string::npos) o << "\"ta\":" << tmplArgs(TA) << ","; }
  }
  void expr(const Expr *E0) {
    if (!E0) { o << "{\"k\":\"null\"}"; return; }
    const Expr *E = strip(E0);
    QualType T = E->getType();
    // constant folding of integral template parameters etc.
    if (!E->isValueDependent() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E) &&
        T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        o << "{\"k\":\"int\",\"v\":"; llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o << s;
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
          o << ",\"n\":"; jstr(o, D->getDecl()->getQualifiedNameAsString());
        }
        if (T->isEnumeralType()) { o << ",\"et\":"; jstr(o, ty(T, 100)); }
        if (T->isBooleanType()) o << ",\"b\":1";
        o << "}"; return;
      }
    }
    o << "{\"l\":" << line(E->getExprLoc()) << ",";
    if (auto *x = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> s; x->getValue().toString(s, 10, true); o << "\"k\":\"int\",\"v\":" << s;
    } else if (auto *x = dyn_cast<FloatingLiteral>(E)) {
      llvm::SmallString<32> s; x->getValue().toString(s); o << "\"k\":\"flt\",\"v\":"; jstr(o, s);
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o << "\"k\":\"int\",\"b\":1,\"v\":" << (x->getValue() ? 1 : 0);
    } else if (auto *x = dyn_cast<CharacterLiteral>(E)) {
      o << "\"k\":\"int\",\"v\":" << x->getValue();
    } else if (auto *x = dyn_cast<StringLiteral>(E)) {
      o << "\"k\":\"str\",\"v\":"; jstr(o, x->getCharByteWidth() == 1 ? x->getString() : "");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o << "\"k\":\"nullptr\"";
    } else if (isa<CXXThisExpr>(E)) {
      o << "\"k\":\"this\"";
    } else if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { o << "\"k\":\"fn\","; calleeInfo(FD); o << "\"z\":0"; }
      else {
        o << "\"k\":\"v\",\"i\":" << id(D) << ",\"n\":"; jstr(o, D->getNameAsString());
        if (auto *VD = dyn_cast<VarDecl>(D)) {
          if (VD->isStaticDataMember() || VD->isFileVarDecl()) { o << ",\"g\":"; jstr(o, VD->getQualifiedNameAsString()); }
        }
      }
    } else if (auto *x = dyn_cast<MemberExpr>(E)) {
      o << "\"k\":\"m\",\"n\":"; jstr(o, x->getMemberDecl()->getNameAsString());
      if (auto *F = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o << ",\"q\":"; jstr(o, cast<RecordDecl>(F->getDeclContext())->getQualifiedNameAsString());
        if (F->isMutable()) o << ",\"mut\":1";
      } else if (auto *V = dyn_cast<VarDecl>(x->getMemberDecl())) { o << ",\"g\":"; jstr(o, V->getQualifiedNameAsString()); }
      else if (isa<CXXMethodDecl>(x->getMemberDecl())) o << ",\"meth\":1";
      if (x->isArrow()) o << ",\"ar\":1";
      o << ",\"b\":"; expr(x->getBase());
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      o << "\"k\":\"c\",";
      const FunctionDecl *FD = x->getMethodDecl(); calleeInfo(FD);
      if (auto *ME = dyn_cast<MemberExpr>(strip(x->getCallee()))) { if (ME->isArrow()) o << "\"ar\":1,"; if (ME->hasQualifier()) o << "\"qualcall\":1,"; }
      if (FD && (T->isIntegralOrEnumerationType()||T->isFloatingType())) o << "\"sc\":1,";
      o << "\"o\":"; expr(x->getImplicitObjectArgument()); o << ",";
      argsRange(x->arg_begin(), x->arg_end());
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      const char *sp = getOperatorSpelling(x->getOperator());
      o << "\"k\":\"o\",\"o\":"; 
      std::string s = sp; if (x->getNumArgs() == 1 && (s == "-" || s == "*" || s == "&" || s == "+")) s = "u" + s;
      if ((s == "++" || s == "--")) s = (x->getNumArgs() == 2 ? "p" : "") + s;
      jstr(o, s); o << ",\"ov\":1,";
      if (auto *FD = x->getDirectCallee()) { if (inRoot(FD->getLocation())) o << "\"f\":" << id(FD) << ","; }
      argsRange(x->arg_begin(), x->arg_end());
    } else if (auto *x = dyn_cast<CallExpr>(E)) {
      o << "\"k\":\"c\",";
      if (auto *FD = x->getDirectCallee()) calleeInfo(FD);
      else { o << "\"cx\":"; expr(x->getCallee()); o << ","; }
      argsRange(x->arg_begin(), x->arg_end());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
      o << "\"k\":\"o\",\"o\":"; jstr(o, x->getOpcodeStr()); o << ","; args({x->getLHS(), x->getRHS()});
    } else if (auto *x = dyn_cast<BinaryOperator>(E)) {
      o << "\"k\":\"o\",\"o\":"; jstr(o, x->getOpcodeStr());
      if (x->getOpcode()==BO_Div && x->getLHS()->getType()->isIntegralOrEnumerationType() && x->getRHS()->getType()->isIntegralOrEnumerationType()) o << ",\"intdiv\":1";
      o << ","; args({x->getLHS(), x->getRHS()});
    } else if (auto *x = dyn_cast<UnaryOperator>(E)) {
      std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (s == "-" || s == "*" || s == "&" || s == "+") s = "u" + s;
      if (x->isPostfix()) s = "p" + s;
      o << "\"k\":\"o\",\"o\":"; jstr(o, s); o << ","; args({x->getSubExpr()});
    } else if (auto *x = dyn_cast<ConditionalOperator>(E)) {
      o << "\"k\":\"o\",\"o\":\"?:\","; args({x->getCond(), x->getTrueExpr(), x->getFalseExpr()});
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      o << "\"k\":\"o\",\"o\":\"[]\","; args({x->getBase(), x->getIdx()});
    } else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      o << "\"k\":\"ctor\",\"t\":"; jstr(o, ty(T)); o << ","; 
      if (inRoot(x->getConstructor()->getLocation())) o << "\"f\":" << id(x->getConstructor()) << ",";
      argsRange(x->arg_begin(), x->arg_end());
    } else if (auto *x = dyn_cast<ExplicitCastExpr>(E)) {
      o << "\"k\":\"cast\",\"ck\":"; jstr(o, x->getStmtClassName()); o << ",\"t\":"; jstr(o, ty(x->getTypeAsWritten())); o << ","; args({x->getSubExpr()});
    } else if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      o << "\"k\":\"new\",\"t\":"; jstr(o, ty(x->getAllocatedType())); o << ",\"arr\":" << (x->isArray() ? 1 : 0) << ",\"a\":[";
      if (x->getInitializer()) expr(x->getInitializer()); o << "]";
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) {
      o << "\"k\":\"delete\",\"arr\":" << (x->isArrayForm() ? 1 : 0) << ","; args({x->getArgument()});
    } else if (auto *x = dyn_cast<CXXThrowExpr>(E)) {
      o << "\"k\":\"throw\",\"a\":["; if (x->getSubExpr()) expr(x->getSubExpr()); o << "]";
    } else if (auto *x = dyn_cast<LambdaExpr>(E)) {
      o << "\"k\":\"lam\",\"f\":" << id(x->getCallOperator()) << ",\"p\":["; bool f = true;
      for (auto *P : x->getCallOperator()->parameters()) { if (!f) o << ","; f = false; parm(P); }
      o << "],\"body\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<InitListExpr>(E)) {
      o << "\"k\":\"il\",\"t\":"; jstr(o, ty(T, 200)); o << ",\"a\":["; bool f = true;
      for (auto *y : x->inits()) { if (!f) o << ","; f = false; expr(y); } o << "]";
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o << "\"k\":\"zero\",\"t\":"; jstr(o, ty(T, 200));
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      (void)x; o << "\"k\":\"sizeof\"";
    } else {
      o << "\"k\":\"?\",\"cls\":"; jstr(o, E->getStmtClassName()); o << ",\"a\":["; bool f = true;
      for (auto *ch : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(ch)) { if (!f) o << ","; f = false; expr(ce); }
      o << "]";
    }
    o << "}";
  }
  void parm(const ParmVarDecl *P) {
    o << "{\"n\":"; jstr(o, P->getNameAsString()); o << ",\"i\":" << id(P) << ",\"t\":"; jstr(o, ty(P->getType())); 
    if (P->hasDefaultArg()) o << ",\"def\":1";
    o << "}";
  }
  // ---------------------------------------------------------------- statements
  void stmt(const Stmt *S) {
    if (!S) { o << "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    o << "{\"l\":" << line(S->getBeginLoc()) << ",";
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      o << "\"k\":\"{}\",\"s\":["; bool f = true;
      for (auto *y : x->body()) { if (isa<NullStmt>(y)) continue; if (!f) o << ","; f = false; stmt(y); } o << "]";
    } else if (auto *x = dyn_cast<IfStmt>(S)) {
      bool wrap = x->getInit() || x->getConditionVariable();
      if (wrap) {
        o << "\"k\":\"{}\",\"s\":[";
        if (x->getInit()) { stmt(x->getInit()); o << ","; }
        if (x->getConditionVariable()) { stmt(x->getConditionVariableDeclStmt()); o << ","; }
        o << "{\"l\":" << line(S->getBeginLoc()) << ",";
      }
      o << "\"k\":\"if\",\"c\":"; expr(x->getCond()); o << ",\"t\":"; stmt(x->getThen()); o << ",\"e\":"; stmt(x->getElse());
      if (wrap) o << "}]";
    } else if (auto *x = dyn_cast<ForStmt>(S)) {
      o << "\"k\":\"for\",\"i\":"; stmt(x->getInit()); o << ",\"c\":"; if (x->getCond()) expr(x->getCond()); else o << "null";
      o << ",\"n\":"; if (x->getInc()) expr(x->getInc()); else o << "null"; o << ",\"b\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      o << "\"k\":\"rfor\",\"v\":"; varDecl(x->getLoopVariable(), false); o << ",\"r\":"; expr(x->getRangeInit()); o << ",\"b\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(S)) {
      o << "\"k\":\"while\",\"c\":"; expr(x->getCond()); o << ",\"b\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(S)) {
      o << "\"k\":\"do\",\"c\":"; expr(x->getCond()); o << ",\"b\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(S)) {
      o << "\"k\":\"switch\",\"c\":"; expr(x->getCond()); o << ",\"b\":"; stmt(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(S)) {
      o << "\"k\":\"case\",\"v\":"; expr(x->getLHS()); o << ",\"s\":"; stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(S)) {
      o << "\"k\":\"default\",\"s\":"; stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<ReturnStmt>(S)) {
      o << "\"k\":\"ret\",\"e\":"; if (x->getRetValue()) expr(x->getRetValue()); else o << "null";
    } else if (isa<BreakStmt>(S)) o << "\"k\":\"break\"";
    else if (isa<ContinueStmt>(S)) o << "\"k\":\"continue\"";
    else if (isa<NullStmt>(S)) o << "\"k\":\"nop\"";
    else if (auto *x = dyn_cast<DeclStmt>(S)) {
      o << "\"k\":\"decl\",\"v\":["; bool f = true;
      for (auto *D : x->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) o << ","; f = false; varDecl(V, true); } o << "]";
    } else if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      o << "\"k\":\"try\",\"b\":"; stmt(x->getTryBlock()); o << ",\"h\":[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        if (i) o << ","; auto *h = x->getHandler(i);
        o << "{\"l\":" << line(h->getBeginLoc()) << ",\"t\":";
        if (h->getExceptionDecl()) jstr(o, ty(h->getCaughtType(), 200)); else jstr(o, "...");
        o << ",\"b\":"; stmt(h->getHandlerBlock()); o << "}";
      }
      o << "]";
    } else if (auto *x = dyn_cast<LabelStmt>(S)) { o << "\"k\":\"{}\",\"s\":["; stmt(x->getSubStmt()); o << "]"; }
    else { o << "\"k\":\"?s\",\"cls\":"; jstr(o, S->getStmtClassName()); }
    o << "}";
  }
  void varDecl(const VarDecl *V, bool init) {
    o << "{\"n\":"; jstr(o, V->getNameAsString()); o << ",\"i\":" << id(V) << ",\"t\":"; jstr(o, ty(V->getType())); o << ",\"l\":" << line(V->getLocation());
    if (V->isStaticLocal()) o << ",\"st\":1";
    if (init && V->getInit()) { o << ",\"init\":"; expr(V->getInit()); }
    o << "}";
  }
  // ---------------------------------------------------------------- decls
  void recInfo(llvm::raw_ostream &os, const CXXRecordDecl *RD) {
    jstr(os, RD->getQualifiedNameAsString()); os << ",\"cargs\":";
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) os << tmplArgs(&S->getTemplateArgs()); else os << "[]";
  }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody()) {
      return true;
    }
    if (!inRoot(FD->getLocation())) return true;
    if (FD->isDependentContext()) {
      // pattern; remember for the not-instantiated report
      return true;
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return true;
    if (!doneF.insert(FD).second) return true;
    if (!firstF) o << ",\n"; firstF = false;
    o << "{\"id\":" << id(FD) << ",\"n\":"; jstr(o, FD->getNameAsString());
    o << ",\"file\":"; jstr(o, llvm::StringRef(pathOf(FD->getLocation())).substr(Root.size()));
    o << ",\"l\":" << line(FD->getLocation()) << ",\"el\":" << line(FD->getEndLoc());
    if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getDeclContext())) { o << ",\"cls\":"; recInfo(o, RD); o << ",\"cid\":" << id(RD); }
    o << ",\"ta\":" << tmplArgs(FD->getTemplateSpecializationArgs());
    o << ",\"rt\":"; jstr(o, ty(FD->getReturnType(), 300));
    const char *acc = "";
    switch (FD->getAccess()) { case AS_public: acc = "public"; break; case AS_protected: acc = "protected"; break; case AS_private: acc = "private"; break; default: acc = "none"; }
    o << ",\"acc\":\"" << acc << "\"";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isConst()) o << ",\"cst\":1"; if (M->isStatic()) o << ",\"sta\":1"; if (M->isVirtual()) o << ",\"vt\":1";
      if (M->size_overridden_methods()) { o << ",\"ovr\":["; bool f = true; for (auto *B : M->overridden_methods()) { if (!f) o << ","; f = false; o << id(B); } o << "]"; }
    }
    o << ",\"kind\":\"" << (isa<CXXConstructorDecl>(FD) ? "ctor" : isa<CXXDestructorDecl>(FD) ? "dtor" : "fn") << "\"";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) { if (CD->isCopyConstructor()) o << ",\"ck\":\"copy\""; else if (CD->isMoveConstructor()) o << ",\"ck\":\"move\""; }
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) { if (M->isCopyAssignmentOperator()) o << ",\"ck\":\"copyasg\""; if (M->isMoveAssignmentOperator()) o << ",\"ck\":\"moveasg\""; }
    if (FD->isDefaulted()) o << ",\"defaulted\":1";
    o << ",\"p\":["; bool f = true;
    for (auto *P : FD->parameters()) { if (!f) o << ","; f = false; parm(P); } o << "]";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o << ",\"inits\":["; bool g = true;
      for (auto *I : CD->inits()) {
        if (!g) o << ","; g = false; o << "{\"w\":" << ((I->isWritten() || isa<CXXDefaultInitExpr>(I->getInit())) ? 1 : 0);
        if (I->isMemberInitializer()) { o << ",\"m\":"; jstr(o, I->getMember()->getNameAsString()); }
        else if (I->isBaseInitializer()) { o << ",\"base\":"; jstr(o, ty(QualType(I->getBaseClass(), 0), 200)); }
        else if (I->isDelegatingInitializer()) o << ",\"deleg\":1";
        o << ",\"e\":"; expr(I->getInit()); o << "}";
      }
      o << "]";
    }
    o << ",\"body\":"; stmt(FD->getBody()); o << "}";
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda() || !inRoot(RD->getLocation())) return true;
    if (!doneR.insert(RD).second) return true;
    llvm::raw_string_ostream os(recs);
    if (!recs.empty()) os << ",\n";
    os << "{\"id\":" << id(RD) << ",\"q\":"; recInfo(os, RD);
    os << ",\"file\":"; jstr(os, llvm::StringRef(pathOf(RD->getLocation())).substr(Root.size())); os << ",\"l\":" << line(RD->getLocation());
    os << ",\"bases\":["; bool f = true;
    for (auto &B : RD->bases()) { if (!f) os << ","; f = false; jstr(os, ty(B.getType(), 200)); }
    os << "],\"fields\":["; f = true;
    for (auto *F : RD->fields()) { if (!f) os << ","; f = false; os << "{\"n\":"; jstr(os, F->getNameAsString()); os << ",\"t\":"; jstr(os, ty(F->getType(), 250)); 
      os << ",\"mut\":" << (F->isMutable() ? 1 : 0) << ",\"l\":" << line(F->getLocation()) << ",\"dinit\":" << (F->hasInClassInitializer() ? 1 : 0) << "}"; }
    os << "],\"methods\":["; f = true;
    for (auto *M : RD->methods()) { if (M->isImplicit() && !isa<CXXConstructorDecl>(M) && !M->isCopyAssignmentOperator() && !M->isMoveAssignmentOperator()) continue; if (!f) os << ","; f = false; os << "{\"n\":"; jstr(os, M->getNameAsString()); os << ",\"id\":" << id(M);
      os << ",\"rt\":"; jstr(os, ty(M->getReturnType(), 200));
      const char *acc = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      os << ",\"acc\":\"" << acc << "\",\"cst\":" << M->isConst() << ",\"vt\":" << M->isVirtual() << ",\"pure\":" << M->isPureVirtual() << ",\"impl\":" << M->isImplicit() << ",\"del\":" << M->isDeleted() << ",\"defd\":" << M->isDefaulted();
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { if (CD->isCopyConstructor()) os << ",\"ck\":\"copy\""; else if (CD->isMoveConstructor()) os << ",\"ck\":\"move\""; }
      if (M->isCopyAssignmentOperator()) os << ",\"ck\":\"copyasg\""; if (M->isMoveAssignmentOperator()) os << ",\"ck\":\"moveasg\"";
      if (isa<CXXDestructorDecl>(M)) os << ",\"ck\":\"dtor\"";
      if (M->size_overridden_methods()) { os << ",\"ovr\":["; bool g = true; for (auto *B : M->overridden_methods()) { if (!g) os << ","; g = false; os << id(B); } os << "]"; }
      os << "}"; }
    os << "]}";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (!ED->isThisDeclarationADefinition() || !inRoot(ED->getLocation()) || ED->isDependentContext()) return true;
    if (!doneE.insert(ED).second) return true;
    llvm::raw_string_ostream os(enums);
    if (!enums.empty()) os << ",\n";
    os << "{\"q\":"; jstr(os, ED->getQualifiedNameAsString()); os << ",\"vals\":["; bool f = true;
    for (auto *E : ED->enumerators()) { if (!f) os << ","; f = false; os << "["; jstr(os, E->getNameAsString()); os << "," << E->getInitVal().getExtValue() << "]"; }
    os << "]}";
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec; std::string tmp = OutPath + ".tmp";
    { llvm::raw_fd_ostream os(tmp, ec); if (ec) { llvm::errs() << ec.message() << "\n"; return; }
      os << "{\"functions\":[";
      Dumper D(C, os); D.TraverseDecl(C.getTranslationUnitDecl());
      os << "],\n\"records\":[" << D.recs << "],\n\"enums\":[" << D.enums << "]}\n"; }
    llvm::sys::fs::rename(tmp, OutPath);
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  // usage: kl-extract ROOT OUT SRC -- flags...
  if (argc < 5) { llvm::errs() << "usage: kl-extract ROOT OUT SRC -- flags\n"; return 2; }
  Root = argv[1]; if (Root.back() != '/') Root += '/'; OutPath = argv[2]; std::string src = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {src});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
