// Typed program extractor: parses one translation unit with clang and writes the classes,
// globals and function bodies that live under a given root directory as JSON.
//
//   extract ROOT OUT.json SOURCE -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root, OutFile;
static int Failures = 0;
static bool WithTests = false;

namespace {
class Ex {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> VarIds;
  std::map<std::string, int> TypeIds;
  Array Types;
  Object Records;
  Object Functions;
  Object Globals;
  Array Unsupported;

  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.Bool = true;
    PP.SuppressTagKeyword = true;
    PP.SuppressScope = false;
    PP.PrintCanonicalTypes = true;
  }

  std::string tstr(QualType T) {
    return T.getCanonicalType().getAsString(PP);
  }
  int type(QualType T) {
    std::string S = tstr(T);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end())
      return It->second;
    int N = (int)Types.size();
    TypeIds[S] = N;
    Types.push_back(S);
    return N;
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end())
      return It->second;
    int N = (int)VarIds.size();
    VarIds[D] = N;
    return N;
  }
  int line(SourceLocation L) {
    return (int)SM.getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string F = SM.getFilename(L).str();
    llvm::SmallString<256> P(F);
    SM.getFileManager().makeAbsolutePath(P);
    llvm::sys::path::remove_dots(P, true);
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid())
      return false;
    std::string F = file(L);
    return F.compare(0, Root.size(), Root) == 0;
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string S = F->getQualifiedNameAsString();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (unsigned i = 0; i < TA->size(); i++) {
        std::string A;
        llvm::raw_string_ostream OS(A);
        TA->get(i).print(PP, OS, true);
        S += (i ? "," : "") + OS.str();
      }
      S += ">";
    }
    S += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++)
      S += (i ? "," : "") + tstr(F->getParamDecl(i)->getType());
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst())
        S += " const";
    return S;
  }
  std::string clsName(const CXXRecordDecl *R) {
    return tstr(C.getRecordType(R));
  }

  Value fn(const FunctionDecl *F) {
    Object O;
    O["q"] = F->getQualifiedNameAsString();
    O["key"] = fnKey(F);
    O["in"] = inRoot(F->getLocation());
    O["ret"] = type(F->getReturnType());
    Array PT;
    for (auto *P : F->parameters())
      PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = clsName(M->getParent());
      if (M->isVirtual())
        O["virt"] = true;
      if (M->isStatic())
        O["static"] = true;
      if (M->isConst())
        O["const"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        if (K->isCopyOrMoveConstructor())
          O["copy"] = true;
      }
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())
        O["copyassign"] = true;
      if (M->isDefaulted() || M->isImplicit())
        O["implicit"] = true;
    }
    if (F->isOverloadedOperator())
      O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    return std::move(O);
  }

  Value unsupported(const Stmt *S) {
    Object O;
    O["k"] = "unsupported";
    O["cls"] = S->getStmtClassName();
    O["L"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S))
      O["t"] = type(E->getType());
    Array A;
    for (const Stmt *Ch : S->children())
      if (Ch)
        A.push_back(isa<Expr>(Ch) ? expr(cast<Expr>(Ch)) : stmt(Ch));
    O["ch"] = std::move(A);
    return std::move(O);
  }

  Object mk(const char *K, const Expr *E) {
    Object O;
    O["k"] = K;
    O["t"] = type(E->getType());
    O["L"] = line(E->getExprLoc());
    return O;
  }

  Array exprs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *E : Es)
      A.push_back(expr(E));
    return A;
  }

  Value declRef(const Expr *E, const ValueDecl *D) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      Object O = mk("int", E);
      llvm::SmallString<32> S;
      EC->getInitVal().toString(S, 10);
      O["v"] = std::string(S);
      return std::move(O);
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      Object O = mk("fref", E);
      O["fn"] = fn(F);
      return std::move(O);
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        Object O = mk("gvar", E);
        O["name"] = V->getQualifiedNameAsString();
        O["in"] = inRoot(V->getLocation());
        global(V);
        return std::move(O);
      }
      Object O = mk("var", E);
      O["id"] = varId(V);
      O["name"] = V->getNameAsString();
      if (V->isStaticLocal())
        O["static"] = true;
      if (V->getType()->isReferenceType())
        O["ref"] = true;
      return std::move(O);
    }
    if (auto *B = dyn_cast<BindingDecl>(D)) {
      if (B->getBinding())
        return expr(B->getBinding());
    }
    return unsupported(E);
  }

  void global(const VarDecl *V) {
    std::string N = V->getQualifiedNameAsString();
    if (Globals.get(N))
      return;
    if (!inRoot(V->getLocation()))
      return;
    Globals[N] = Object{}; // break recursion
    Object O;
    const VarDecl *Def = V->getDefinition();
    if (!Def)
      Def = V;
    O["t"] = type(V->getType());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr() ||
                 (V->getType()->isArrayType() &&
                  C.getBaseElementType(V->getType()).isConstQualified());
    O["file"] = file(Def->getLocation());
    O["line"] = line(Def->getLocation());
    O["tls"] = Def->getTLSKind() != VarDecl::TLS_None;
    O["member"] = V->isStaticDataMember();
    const VarDecl *IV = nullptr;
    if (const Expr *I = V->getAnyInitializer(IV))
      O["init"] = expr(I);
    Globals[N] = std::move(O);
  }

  Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    // transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
      return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
      return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object O = mk("stdil", E);
      O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      if (X->getSourceExpr())
        return expr(X->getSourceExpr());

    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object O = mk("int", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, E->getType()->isSignedIntegerOrEnumerationType());
      O["v"] = std::string(S);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      Object O = mk("int", E);
      O["v"] = std::to_string(X->getValue());
      O["char"] = true;
      return std::move(O);
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object O = mk("flt", E);
      SourceLocation B = SM.getSpellingLoc(X->getBeginLoc());
      bool Inv = false;
      llvm::StringRef Txt =
          Lexer::getSourceText(CharSourceRange::getTokenRange(B, B), SM, C.getLangOpts(), &Inv);
      O["v"] = Inv ? "" : Txt.str();
      llvm::SmallString<64> S;
      X->getValue().toString(S, 40, 0);
      O["x"] = std::string(S);
      O["exact"] = X->isExact();
      return std::move(O);
    }
    if (auto *X = dyn_cast<ImaginaryLiteral>(E)) {
      Object O = mk("imag", E);
      O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object O = mk("bool", E);
      O["v"] = X->getValue();
      return std::move(O);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return mk("null", E);
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      Object O = mk("str", E);
      O["v"] = X->isOrdinary() || X->isUTF8() ? json::fixUTF8(X->getString()) : std::string();
      return std::move(O);
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      Object O = mk("str", E);
      O["v"] = "";
      (void)X;
      return std::move(O);
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E))
      return declRef(E, X->getDecl());
    if (isa<CXXThisExpr>(E))
      return mk("this", E);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        Object O = mk("mem", E);
        O["b"] = expr(X->getBase());
        O["f"] = F->getNameAsString();
        O["arrow"] = X->isArrow();
        O["cls"] = clsName(cast<CXXRecordDecl>(F->getParent()));
        if (F->getType()->isReferenceType())
          O["ref"] = true;
        if (F->isMutable())
          O["mutable"] = true;
        return std::move(O);
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
        return declRef(E, V);
      if (auto *M = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        Object O = mk("fref", E);
        O["fn"] = fn(M);
        O["b"] = expr(X->getBase());
        return std::move(O);
      }
      return unsupported(E);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object O = mk("idx", E);
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
      return std::move(O);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object O = mk("un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object O = mk("casg", E);
      O["op"] = X->getOpcodeStr().str();
      O["l"] = expr(X->getLHS());
      O["r"] = expr(X->getRHS());
      O["ct"] = type(X->getComputationResultType());
      return std::move(O);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object O = mk("bin", E);
      O["op"] = X->getOpcodeStr().str();
      O["l"] = expr(X->getLHS());
      O["r"] = expr(X->getRHS());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object O = mk("cond", E);
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object O = mk("mat", E);
      O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp:
        return expr(X->getSubExpr());
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return expr(X->getSubExpr());
      case CK_LValueToRValue: {
        Object O = mk("ld", E);
        O["e"] = expr(X->getSubExpr());
        return std::move(O);
      }
      default: {
        Object O = mk("cast", E);
        O["ck"] = X->getCastKindName();
        O["e"] = expr(X->getSubExpr());
        if (isa<ExplicitCastExpr>(E))
          O["explicit"] = true;
        return std::move(O);
      }
      }
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object O = mk("ctor", E);
      O["fn"] = fn(X->getConstructor());
      O["cls"] = clsName(X->getConstructor()->getParent());
      std::vector<const Expr *> A(X->getArgs(), X->getArgs() + X->getNumArgs());
      O["args"] = exprs(A);
      if (X->requiresZeroInitialization())
        O["zinit"] = true;
      if (X->getConstructor()->isTrivial())
        O["trivial"] = true;
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      (void)X;
      return unsupported(E);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return mk("zero", E);
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S)
        S = X;
      Object O = mk("ilist", E);
      Array A;
      for (unsigned i = 0; i < S->getNumInits(); i++)
        A.push_back(expr(S->getInit(i)));
      O["e"] = std::move(A);
      if (S->hasArrayFiller())
        O["filler"] = expr(S->getArrayFiller());
      if (S->isTransparent())
        O["transparent"] = true;
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
      (void)X;
      return unsupported(E);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object O = mk("lambda", E);
      Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        Object K;
        if (Cap.capturesThis())
          K["this"] = true;
        else if (Cap.capturesVariable()) {
          K["id"] = varId(Cap.getCapturedVar());
          K["name"] = Cap.getCapturedVar()->getNameAsString();
          K["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (*CI)
            K["init"] = expr(*CI);
        }
        ++CI;
        Caps.push_back(std::move(K));
      }
      O["caps"] = std::move(Caps);
      O["mutable"] = X->isMutable();
      Array Ps;
      for (auto *P : X->getCallOperator()->parameters())
        Ps.push_back(param(P));
      O["params"] = std::move(Ps);
      O["generic"] = X->isGenericLambda();
      O["ret"] = type(X->getCallOperator()->getReturnType());
      if (!X->isGenericLambda())
        O["body"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object O = mk("throw", E);
      if (X->getSubExpr())
        O["e"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object O = mk("new", E);
      O["at"] = type(X->getAllocatedType());
      if (X->isArray() && X->getArraySize() && *X->getArraySize())
        O["n"] = expr(*X->getArraySize());
      if (X->getInitializer())
        O["init"] = expr(X->getInitializer());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object O = mk("delete", E);
      O["e"] = expr(X->getArgument());
      return std::move(O);
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) {
        Object O = mk("int", E);
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = std::string(S);
        return std::move(O);
      }
      return unsupported(E);
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      Object O = mk("bool", E);
      O["v"] = X->getValue();
      return std::move(O);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      Object O = mk("call", E);
      if (F)
        O["fn"] = fn(F);
      std::vector<const Expr *> A(X->getArgs(), X->getArgs() + X->getNumArgs());
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        O["obj"] = expr(MC->getImplicitObjectArgument());
        const Expr *Cal = MC->getCallee()->IgnoreParenImpCasts();
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier())
            O["qual"] = true;
        }
        if (!F)
          O["callee"] = expr(X->getCallee());
      } else if (isa<CXXOperatorCallExpr>(E) && F && isa<CXXMethodDecl>(F) &&
                 !cast<CXXMethodDecl>(F)->isStatic()) {
        O["obj"] = expr(A[0]);
        O["arrow"] = false;
        A.erase(A.begin());
      } else if (!F) {
        O["callee"] = expr(X->getCallee());
      }
      O["args"] = exprs(A);
      if (F && F->isNoReturn())
        O["noreturn"] = true;
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      (void)X;
      return unsupported(E);
    }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
      Object O = mk("bool", E);
      O["v"] = X->getValue();
      return std::move(O);
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      Object O = mk("arrcopy", E);
      O["e"] = expr(X->getCommonExpr()->getSourceExpr());
      return std::move(O);
    }
    return unsupported(E);
  }

  Value param(const ParmVarDecl *P) {
    Object O;
    O["id"] = varId(P);
    O["name"] = P->getNameAsString();
    O["t"] = type(P->getType());
    O["ref"] = P->getType()->isReferenceType();
    return std::move(O);
  }

  Value var(const VarDecl *V) {
    Object O;
    O["id"] = varId(V);
    O["name"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["L"] = line(V->getLocation());
    O["ref"] = V->getType()->isReferenceType();
    if (V->isStaticLocal()) {
      O["static"] = true;
      O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    }
    if (V->getType().isConstQualified() || V->isConstexpr() ||
        (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified()))
      O["const"] = true;
    if (V->hasInit())
      O["init"] = expr(V->getInit());
    return std::move(O);
  }

  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *X = dyn_cast<Expr>(S)) {
      Object O;
      O["k"] = "expr";
      O["L"] = line(X->getBeginLoc());
      O["e"] = expr(X);
      return std::move(O);
    }
    Object O;
    O["L"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "blk";
      Array A;
      for (auto *B : X->body())
        A.push_back(stmt(B));
      O["b"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (auto *D : X->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          A.push_back(var(DD));
          for (auto *B : DD->bindings())
            if (B->getHoldingVar())
              A.push_back(var(B->getHoldingVar()));
        } else if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(var(V));
        else if (auto *R = dyn_cast<CXXRecordDecl>(D)) {
          if (R->isThisDeclarationADefinition())
            record(R);
        }
      }
      O["vars"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt())
        O["cvar"] = stmt(X->getConditionVariableDeclStmt());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      if (X->getElse())
        O["b"] = stmt(X->getElse());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getCond())
        O["c"] = expr(X->getCond());
      if (X->getInc())
        O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      O["range"] = stmt(X->getRangeStmt());
      if (X->getRangeInit())
        O["cont"] = expr(X->getRangeInit());
      O["var"] = var(X->getLoopVariable());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      if (X->getRHS())
        O["v2"] = expr(X->getRHS());
      O["b"] = stmt(X->getSubStmt());
      return std::move(O);
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["b"] = stmt(X->getSubStmt());
      return std::move(O);
    }
    if (isa<BreakStmt>(S)) {
      O["k"] = "break";
      return std::move(O);
    }
    if (isa<ContinueStmt>(S)) {
      O["k"] = "continue";
      return std::move(O);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret";
      if (X->getRetValue())
        O["e"] = expr(X->getRetValue());
      return std::move(O);
    }
    if (isa<NullStmt>(S)) {
      O["k"] = "null";
      return std::move(O);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        Object H;
        const CXXCatchStmt *Ct = X->getHandler(i);
        if (Ct->getExceptionDecl())
          H["t"] = type(Ct->getCaughtType());
        H["b"] = stmt(Ct->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
      return std::move(O);
    }
    return unsupported(S);
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext())
      return;
    if (!inRoot(R->getLocation()))
      return;
    std::string N = clsName(R);
    if (Records.get(N))
      return;
    Object O;
    O["file"] = file(R->getLocation());
    O["line"] = line(R->getLocation());
    Array Bs;
    for (auto &B : R->bases())
      Bs.push_back(tstr(B.getType()));
    O["bases"] = std::move(Bs);
    Array Fs;
    for (auto *F : R->fields()) {
      Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = type(F->getType());
      FO["ref"] = F->getType()->isReferenceType();
      FO["line"] = line(F->getLocation());
      FO["mutable"] = F->isMutable();
      FO["access"] = (int)F->getAccess();
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto *M : R->methods()) {
      Object MO;
      MO["key"] = fnKey(M);
      MO["n"] = M->getNameAsString();
      MO["access"] = (int)M->getAccess();
      MO["virt"] = M->isVirtual();
      MO["static"] = M->isStatic();
      MO["ctor"] = isa<CXXConstructorDecl>(M);
      MO["implicit"] = M->isImplicit();
      MO["defaulted"] = M->isDefaulted();
      MO["deleted"] = M->isDeleted();
      MO["userprov"] = M->isUserProvided();
      MO["dtor"] = isa<CXXDestructorDecl>(M);
      Array Ps;
      for (auto *P : M->parameters())
        Ps.push_back(param(P));
      MO["params"] = std::move(Ps);
      Array Ov;
      for (auto *OM : M->overridden_methods())
        Ov.push_back(fnKey(OM));
      MO["overrides"] = std::move(Ov);
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D))
        global(V);
    Records[N] = std::move(O);
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext())
      return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return;
    if (!F->doesThisDeclarationHaveABody())
      return;
    if (F->isImplicit() || F->isDefaulted())
      return;
    if (!inRoot(F->getLocation()))
      return;
    std::string K = fnKey(F);
    if (Functions.get(K))
      return;
    // the reference tables of the per-process self tests are rarely needed
    if (!WithTests && !isa<CXXMethodDecl>(F) && F->getIdentifier() && F->getName().starts_with("test_") &&
        file(F->getLocation()).find("/SM/") != std::string::npos)
      return;
    Object O;
    O["q"] = F->getQualifiedNameAsString();
    O["file"] = file(F->getLocation());
    O["line"] = line(F->getLocation());
    O["endline"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    O["static_storage"] = F->getStorageClass() == SC_Static;
    Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(param(P));
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = clsName(M->getParent());
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["virt"] = M->isVirtual();
      O["access"] = (int)M->getAccess();
    }
    if (auto *K2 = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array Is;
      for (auto *I : K2->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer())
          IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = tstr(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["L"] = I->isWritten() ? line(I->getSourceLocation()) : line(F->getLocation());
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = stmt(F->getBody());
    Functions[K] = std::move(O);
  }
};

class Vis : public RecursiveASTVisitor<Vis> {
public:
  Ex &X;
  Vis(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseNamespaceDecl(NamespaceDecl *N) {
    // std and friends never contain repository code
    if (N->getName() == "std" || N->getName() == "__gnu_cxx")
      return true;
    return RecursiveASTVisitor<Vis>::TraverseNamespaceDecl(N);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    X.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isLambda())
      X.record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getType()->isDependentType() &&
        !V->getDeclContext()->isDependentContext())
      X.global(V);
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) {
      Failures++;
      return;
    }
    Ex X(C);
    Vis V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object Out;
    Out["types"] = std::move(X.Types);
    Out["records"] = std::move(X.Records);
    Out["functions"] = std::move(X.Functions);
    Out["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) {
      Failures++;
      return;
    }
    OS << Value(std::move(Out));
  }
};

class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  WithTests = std::getenv("EXTRACT_TESTS") != nullptr;
  if (argc < 4) {
    llvm::errs() << "usage: extract ROOT OUT SOURCE [flags...]\n";
    return 2;
  }
  Root = argv[1];
  if (Root.back() != '/')
    Root += '/';
  OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Args(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {Src});
  Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster(
      {"-resource-dir", "/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::END));
  int R = Tool.run(tooling::newFrontendActionFactory<Act>().get());
  return (R || Failures) ? 3 : 0;
}
