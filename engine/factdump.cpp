// factdump: dumps the resolved program of the translation unit (functions located
// under the given path prefixes, template instantiations included) as JSON.
//
//   factdump -root PREFIX [-root PREFIX ...] -o OUT.json SOURCE -- <flags>
//
// It only describes what clang's semantic analysis produced; it decides nothing.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("factdump");
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::init("-"));

namespace {

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<const void *, int> TypeIds;
  json::Array Types;
  json::Array Functions;
  json::Array Records;
  json::Array Enums;
  std::deque<const FunctionDecl *> Work;
  std::set<const Decl *> Seen;
  std::set<const Decl *> SeenRec;
  std::map<const Decl *, int> FnOwner;

  explicit Dumper(ASTContext &Ctx)
      : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.MSVCFormatting = false;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = static_cast<int>(Ids.size()) + 1;
    Ids[D] = N;
    return N;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
    }
    return P.getFilename();
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (StringRef(F).starts_with(R)) return true;
    return false;
  }

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string recName(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }

  json::Value tmplArg(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return json::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral:
      return json::Object{{"i", llvm::toString(A.getAsIntegral(), 10)},
                          {"t", type(A.getIntegralType())}};
    case TemplateArgument::Pack: {
      json::Array P;
      for (auto &X : A.pack_elements()) P.push_back(tmplArg(X));
      return json::Object{{"p", std::move(P)}};
    }
    default: {
      std::string S;
      llvm::raw_string_ostream OS(S);
      A.print(PP, OS, true);
      return json::Object{{"x", OS.str()}};
    }
    }
  }
  json::Array tmplArgs(const TemplateArgumentList *L) {
    json::Array R;
    if (L)
      for (auto &A : L->asArray()) R.push_back(tmplArg(A));
    return R;
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType QC = Q.getCanonicalType();
    bool IsConst = QC.isConstQualified();
    void *Key = QC.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int N = static_cast<int>(Types.size());
    TypeIds[Key] = N;
    Types.push_back(nullptr); // reserve
    json::Object O;
    O["s"] = QC.getAsString(PP);
    if (IsConst) O["const"] = true;
    const clang::Type *T = QC.getTypePtr();
    if (T->isDependentType()) {
      O["c"] = "dep";
    } else if (T->isBooleanType()) {
      O["c"] = "bool"; O["w"] = 8;
    } else if (auto *ET = T->getAs<EnumType>()) {
      O["c"] = "enum";
      O["rec"] = qname(ET->getDecl());
      QualType U = ET->getDecl()->getIntegerType();
      if (!U.isNull()) {
        O["w"] = static_cast<int64_t>(C.getIntWidth(U));
        O["sg"] = U->isSignedIntegerType();
      }
      enumDecl(ET->getDecl());
    } else if (T->isIntegerType()) {
      O["c"] = "int";
      O["w"] = static_cast<int64_t>(C.getIntWidth(QC));
      O["sg"] = T->isSignedIntegerType();
    } else if (T->isFloatingType()) {
      O["c"] = "float";
      O["w"] = static_cast<int64_t>(C.getTypeSize(QC));
    } else if (T->isReferenceType()) {
      O["c"] = "ref";
      O["pt"] = type(T->getPointeeType());
      O["rv"] = T->isRValueReferenceType();
    } else if (T->isPointerType()) {
      O["c"] = "ptr";
      O["pt"] = type(T->getPointeeType());
    } else if (T->isNullPtrType()) {
      O["c"] = "nullptr";
    } else if (auto *AT = C.getAsConstantArrayType(QC)) {
      O["c"] = "arr";
      O["n"] = static_cast<int64_t>(AT->getSize().getZExtValue());
      O["pt"] = type(AT->getElementType());
      O["sz"] = static_cast<int64_t>(C.getTypeSizeInChars(QC).getQuantity());
    } else if (auto *RT = T->getAs<RecordType>()) {
      O["c"] = "rec";
      auto *RD = cast<RecordDecl>(RT->getDecl());
      O["rec"] = recName(RD);
      O["tn"] = qname(RD);
      if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        O["tn"] = qname(CT->getSpecializedTemplate());
        O["ta"] = tmplArgs(&CT->getTemplateArgs());
      }
      if (RD->isCompleteDefinition() || RD->getDefinition()) {
        auto *Def = RD->getDefinition();
        if (Def && !Def->isInvalidDecl() && !Def->isDependentType())
          O["sz"] = static_cast<int64_t>(C.getTypeSizeInChars(QC).getQuantity());
        if (auto *CR = dyn_cast_or_null<CXXRecordDecl>(Def)) {
          if (CR->isLambda()) O["lambda"] = true;
          record(CR);
        }
      }
    } else if (T->isVoidType()) {
      O["c"] = "void";
    } else if (T->isFunctionType()) {
      O["c"] = "fn";
    } else {
      O["c"] = "other";
    }
    Types[N] = std::move(O);
    return N;
  }

  std::set<const Decl *> SeenEnum;
  void enumDecl(const EnumDecl *E) {
    E = E->getDefinition();
    if (!E) return;
    if (!SeenEnum.insert(E).second) return;
    if (!inRoots(E->getLocation())) return;
    json::Object O;
    O["n"] = qname(E);
    O["file"] = fileOf(E->getLocation());
    O["line"] = lineOf(E->getLocation());
    O["scoped"] = E->isScoped();
    json::Array A;
    for (auto *X : E->enumerators())
      A.push_back(json::Object{{"n", X->getNameAsString()},
                               {"v", llvm::toString(X->getInitVal(), 10)},
                               {"line", lineOf(X->getLocation())}});
    O["v"] = std::move(A);
    Enums.push_back(std::move(O));
  }

  /// where the class is written (an explicit instantiation is located elsewhere)
  static SourceLocation locOf(const CXXRecordDecl *R) {
    if (auto *P = R->getTemplateInstantiationPattern()) return P->getLocation();
    return R->getLocation();
  }

  void record(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isInvalidDecl() || R->isDependentType()) return;
    if (!SeenRec.insert(R).second) return;
    bool Mine = inRoots(locOf(R));
    if (!Mine) return;
    json::Object O;
    O["n"] = recName(R);
    O["tn"] = qname(R);
    if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      O["tn"] = qname(CT->getSpecializedTemplate());
      O["ta"] = tmplArgs(&CT->getTemplateArgs());
    }
    O["file"] = fileOf(locOf(R));
    O["line"] = lineOf(locOf(R));
    O["size"] = static_cast<int64_t>(C.getASTRecordLayout(R).getSize().getQuantity());
    O["lambda"] = R->isLambda();
    O["poly"] = R->isPolymorphic();
    O["abstract"] = R->isAbstract();
    if (R->isUnion()) O["union"] = true;
    const ASTRecordLayout &L = C.getASTRecordLayout(R);
    json::Array B;
    for (auto &X : R->bases()) {
      auto *BR = X.getType()->getAsCXXRecordDecl();
      if (!BR) continue;
      int64_t Off = X.isVirtual() ? -1 : L.getBaseClassOffset(BR).getQuantity();
      B.push_back(json::Object{{"t", type(X.getType())}, {"rec", recName(BR)}, {"off", Off},
                               {"acc", static_cast<int>(X.getAccessSpecifier())}});
    }
    O["bases"] = std::move(B);
    json::Array F;
    for (auto *X : R->fields()) {
      json::Object FO;
      FO["n"] = X->getNameAsString();
      FO["id"] = id(X);
      FO["t"] = type(X->getType());
      FO["off"] = static_cast<int64_t>(L.getFieldOffset(X->getFieldIndex()) / 8);
      FO["line"] = lineOf(X->getLocation());
      if (X->isBitField()) FO["bf"] = static_cast<int64_t>(X->getBitWidthValue(C));
      if (auto *I = X->getInClassInitializer()) FO["init"] = expr(I);
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array M;
    for (auto *X : R->methods()) {
      json::Object MO;
      MO["id"] = id(X);
      MO["n"] = X->getNameAsString();
      MO["acc"] = static_cast<int>(X->getAccess());
      MO["deleted"] = X->isDeleted();
      MO["implicit"] = X->isImplicit();
      MO["virtual"] = X->isVirtual();
      MO["pure"] = X->isPureVirtual();
      MO["static"] = X->isStatic();
      MO["const"] = X->isConst();
      MO["defined"] = X->isDefined();
      MO["line"] = lineOf(X->getLocation());
      if (auto *CC = dyn_cast<CXXConstructorDecl>(X)) {
        MO["ctor"] = CC->isCopyConstructor() ? "copy" : CC->isMoveConstructor() ? "move"
                     : CC->isDefaultConstructor() ? "default" : "other";
      }
      if (isa<CXXDestructorDecl>(X)) MO["dtor"] = true;
      if (X->isCopyAssignmentOperator()) MO["assign"] = "copy";
      if (X->isMoveAssignmentOperator()) MO["assign"] = "move";
      MO["ret"] = type(X->getReturnType());
      json::Array PA;
      for (auto *P : X->parameters())
        PA.push_back(json::Object{{"n", P->getNameAsString()}, {"t", type(P->getType())}});
      MO["params"] = std::move(PA);
      json::Array OV;
      for (auto *Y : X->overridden_methods()) OV.push_back(id(Y));
      if (!OV.empty()) MO["over"] = std::move(OV);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    // implicit special member availability
    O["copyable"] = R->hasSimpleCopyConstructor() || copyCtorUsable(R);
    O["copyassignable"] = R->hasSimpleCopyAssignment() || copyAssignUsable(R);
    O["dtor_user"] = R->hasUserDeclaredDestructor();
    Records.push_back(std::move(O));
    for (auto *X : R->methods())
      need(X);
    for (auto *D : R->decls())
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
        for (auto *S : FT->specializations()) need(S);
  }
  bool copyCtorUsable(const CXXRecordDecl *R) {
    bool User = false;
    for (auto *X : R->ctors())
      if (X->isCopyConstructor()) { User = true; if (!X->isDeleted()) return true; }
    if (User) return false;
    return R->needsImplicitCopyConstructor() && !R->defaultedCopyConstructorIsDeleted();
  }
  bool copyAssignUsable(const CXXRecordDecl *R) {
    bool User = false;
    for (auto *X : R->methods())
      if (X->isCopyAssignmentOperator()) { User = true; if (!X->isDeleted()) return true; }
    if (User) return false;
    return R->needsImplicitCopyAssignment() && R->hasSimpleCopyAssignment();
  }

  void need(const FunctionDecl *F) {
    if (!F) return;
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    F->isDefined(Def);
    const FunctionDecl *Use = Def ? Def : F;
    if (!Seen.insert(Use->getCanonicalDecl()).second) return;
    SourceLocation L = Use->getLocation();
    if (auto *Pat = Use->getTemplateInstantiationPattern()) L = Pat->getLocation();
    if (!inRoots(L)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(Use)) {
        if (!(M->getParent()->isLambda() && inRoots(M->getParent()->getLocation()))) return;
      } else return;
    }
    Work.push_back(Use);
  }

  json::Value callee(const FunctionDecl *F) {
    json::Object O;
    need(F);
    O["id"] = id(F);
    O["n"] = F->getNameAsString();
    std::string QN;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      const CXXRecordDecl *P = M->getParent();
      std::string Base;
      if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(P))
        Base = qname(CT->getSpecializedTemplate());
      else
        Base = qname(P);
      QN = Base + "::" + F->getNameAsString();
      O["rec"] = recName(P);
      O["member"] = !M->isStatic();
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["cm"] = true;
    } else {
      QN = qname(F);
    }
    O["qn"] = QN;
    if (auto *TA = F->getTemplateSpecializationArgs()) O["ta"] = tmplArgs(TA);
    if (F->isDeleted()) O["deleted"] = true;
    if (F->isNoReturn()) O["noreturn"] = true;
    O["np"] = static_cast<int64_t>(F->getNumParams());
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    O["ret"] = type(F->getReturnType());
    if (F->isExternC()) O["c"] = true;
    return O;
  }

  json::Value constant(const APValue &V, QualType T, int Line) {
    json::Object O;
    O["k"] = "const";
    O["t"] = type(T);
    O["l"] = Line;
    if (V.isInt()) O["v"] = llvm::toString(V.getInt(), 10);
    else if (V.isFloat()) {
      llvm::SmallString<32> S;
      V.getFloat().toString(S, 40);
      O["fv"] = S.str().str();
    }
    return O;
  }

  json::Value var(const VarDecl *V) {
    json::Object O;
    O["id"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : DD->bindings()) {
        json::Object BO{{"id", id(X)}, {"n", X->getNameAsString()}, {"t", type(X->getType())}};
        if (X->getBinding()) BO["e"] = expr(X->getBinding());
        if (auto *HV = X->getHoldingVar()) BO["hv"] = var(HV);
        B.push_back(std::move(BO));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  std::string castKind(CastKind K) { return CastExpr::getCastKindName(K); }

  json::Value args(const Expr *const *A, unsigned N) {
    json::Array R;
    for (unsigned I = 0; I < N; ++I) R.push_back(expr(A[I]));
    return R;
  }

  json::Value exprList(ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *X : A) R.push_back(expr(X));
    return R;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    int L = lineOf(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    QualType T = E->getType();
    // constant folding of scalar prvalues
    if (E->isPRValue() && !E->isValueDependent() && !E->isTypeDependent() &&
        (T->isIntegralOrEnumerationType() || T->isFloatingType()) && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C, false) && !R.HasSideEffects &&
          (R.Val.isInt() || R.Val.isFloat()))
        return constant(R.Val, T, L);
    }
    json::Object O;
    O["t"] = type(T);
    O["l"] = L;
    if (E->isLValue()) O["lv"] = true;
    else if (E->isXValue()) O["xv"] = true;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: {
      O["k"] = "mat";
      O["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      return O;
    }
    case Stmt::SubstNonTypeTemplateParmExprClass:
      return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass:
      return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CXXStdInitializerListExprClass: {
      O["k"] = "stdinit";
      O["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      return O;
    }
    case Stmt::IntegerLiteralClass:
    case Stmt::CharacterLiteralClass:
    case Stmt::CXXBoolLiteralExprClass:
    case Stmt::FloatingLiteralClass: {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C, false)) return constant(R.Val, T, L);
      break;
    }
    case Stmt::StringLiteralClass: {
      O["k"] = "str";
      auto *S = cast<StringLiteral>(E);
      O["v"] = S->getCharByteWidth() == 1 && json::isUTF8(S->getString()) ? S->getString().str() : "<bin>";
      return O;
    }
    case Stmt::CXXNullPtrLiteralExprClass: O["k"] = "null"; return O;
    case Stmt::GNUNullExprClass: O["k"] = "null"; return O;
    case Stmt::CXXThisExprClass: O["k"] = "this"; return O;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      O["k"] = "ref";
      O["id"] = id(D);
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "const";
        O["v"] = llvm::toString(EC->getInitVal(), 10);
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fref";
        O["f"] = callee(FD);
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage()) {
          O["global"] = qname(VD);
          constantInit(VD, O);
        }
      }
      return O;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      O["k"] = "mem";
      O["n"] = M->getMemberDecl()->getNameAsString();
      O["id"] = id(M->getMemberDecl());
      O["arrow"] = M->isArrow();
      O["b"] = expr(M->getBase());
      if (auto *FD = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        O["k"] = "memf";
        O["f"] = callee(FD);
      } else if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        if (auto *P = dyn_cast<CXXRecordDecl>(F->getParent())) O["rec"] = recName(P);
      } else if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        O["global"] = qname(VD);
        constantInit(VD, O);
      }
      return O;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      O["k"] = "call";
      if (auto *D = M->getMethodDecl()) O["f"] = callee(D);
      O["obj"] = expr(M->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParenImpCasts())) {
        O["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) O["qualified"] = true;
      }
      O["a"] = args(M->getArgs(), M->getNumArgs());
      return O;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E);
      O["k"] = "call";
      O["op"] = getOperatorSpelling(M->getOperator());
      auto *D = M->getDirectCallee();
      if (D) O["f"] = callee(D);
      auto *MD = dyn_cast_or_null<CXXMethodDecl>(D);
      if (MD && !MD->isStatic() && M->getNumArgs() > 0) {
        O["obj"] = expr(M->getArg(0));
        O["a"] = args(M->getArgs() + 1, M->getNumArgs() - 1);
      } else {
        O["a"] = args(M->getArgs(), M->getNumArgs());
      }
      return O;
    }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *M = cast<CallExpr>(E);
      O["k"] = "call";
      if (auto *D = M->getDirectCallee()) O["f"] = callee(D);
      else O["ce"] = expr(M->getCallee());
      O["a"] = args(M->getArgs(), M->getNumArgs());
      return O;
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *M = cast<CXXConstructExpr>(E);
      O["k"] = "ctor";
      O["f"] = callee(M->getConstructor());
      O["rec"] = recName(M->getConstructor()->getParent());
      auto *CD = M->getConstructor();
      O["ck"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                : CD->isDefaultConstructor() ? "default" : "other";
      O["zero"] = M->requiresZeroInitialization();
      if (M->isListInitialization()) O["list"] = true;
      O["a"] = args(M->getArgs(), M->getNumArgs());
      return O;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *M = cast<CXXInheritedCtorInitExpr>(E);
      O["k"] = "ctor";
      O["f"] = callee(M->getConstructor());
      O["rec"] = recName(M->getConstructor()->getParent());
      O["ck"] = "inherited";
      O["a"] = json::Array{};
      return O;
    }
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::BuiltinBitCastExprClass:
    case Stmt::ImplicitCastExprClass: {
      auto *M = cast<CastExpr>(E);
      O["k"] = "cast";
      O["ck"] = castKind(M->getCastKind());
      if (!isa<ImplicitCastExpr>(E)) O["explicit"] = true;
      O["e"] = expr(M->getSubExpr());
      return O;
    }
    case Stmt::UnaryOperatorClass: {
      auto *M = cast<UnaryOperator>(E);
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(M->getOpcode()).str();
      O["post"] = M->isPostfix();
      O["e"] = expr(M->getSubExpr());
      return O;
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *M = cast<BinaryOperator>(E);
      O["k"] = "bin";
      O["op"] = M->getOpcodeStr().str();
      if (M->isAssignmentOp()) O["assign"] = true;
      if (auto *CA = dyn_cast<CompoundAssignOperator>(M)) {
        O["ct"] = type(CA->getComputationResultType());
        O["clt"] = type(CA->getComputationLHSType());
      }
      O["a"] = expr(M->getLHS());
      O["b"] = expr(M->getRHS());
      return O;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *M = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["c"] = expr(M->getCond());
      O["a"] = expr(M->getTrueExpr());
      O["b"] = expr(M->getFalseExpr());
      return O;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *M = cast<ArraySubscriptExpr>(E);
      O["k"] = "idx";
      O["a"] = expr(M->getBase());
      O["b"] = expr(M->getIdx());
      return O;
    }
    case Stmt::InitListExprClass: {
      auto *M = cast<InitListExpr>(E);
      if (M->isSemanticForm() == false && M->getSemanticForm()) M = M->getSemanticForm();
      O["k"] = "init";
      json::Array A;
      for (auto *X : M->inits()) A.push_back(expr(X));
      O["a"] = std::move(A);
      if (M->hasArrayFiller()) O["fill"] = expr(M->getArrayFiller());
      return O;
    }
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass: O["k"] = "zero"; return O;
    case Stmt::UnaryExprOrTypeTraitExprClass: O["k"] = "opaque"; O["why"] = "trait"; return O;
    case Stmt::LambdaExprClass: {
      auto *M = cast<LambdaExpr>(E);
      O["k"] = "lambda";
      auto *CO = M->getCallOperator();
      if (!CO->isDependentContext()) { need(CO); O["f"] = id(CO); }
      json::Array Cap;
      auto CI = M->capture_init_begin();
      for (auto &X : M->captures()) {
        json::Object CO2;
        CO2["this"] = X.capturesThis();
        CO2["byref"] = X.getCaptureKind() == LCK_ByRef || X.getCaptureKind() == LCK_This;
        if (X.capturesVariable()) {
          CO2["id"] = id(X.getCapturedVar());
          CO2["n"] = X.getCapturedVar()->getNameAsString();
        }
        if (CI != M->capture_init_end() && *CI) CO2["e"] = expr(*CI);
        ++CI;
        Cap.push_back(std::move(CO2));
      }
      O["cap"] = std::move(Cap);
      return O;
    }
    case Stmt::CXXThrowExprClass:
      O["k"] = "throw";
      O["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
      return O;
    case Stmt::CXXNewExprClass: {
      auto *M = cast<CXXNewExpr>(E);
      O["k"] = "new";
      O["at"] = type(M->getAllocatedType());
      if (M->getInitializer()) O["e"] = expr(M->getInitializer());
      if (M->isArray() && M->getArraySize()) O["n"] = expr(*M->getArraySize());
      return O;
    }
    case Stmt::CXXDeleteExprClass:
      O["k"] = "delete";
      O["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument());
      return O;
    case Stmt::ArrayInitLoopExprClass:
      O["k"] = "opaque";
      O["why"] = "arrayinitloop";
      O["e"] = expr(cast<ArrayInitLoopExpr>(E)->getCommonExpr());
      return O;
    case Stmt::OpaqueValueExprClass: {
      auto *S = cast<OpaqueValueExpr>(E)->getSourceExpr();
      if (S) return expr(S);
      break;
    }
    case Stmt::PredefinedExprClass: O["k"] = "str"; O["v"] = ""; return O;
    case Stmt::StmtExprClass:
      O["k"] = "stmtexpr";
      O["s"] = stmt(cast<StmtExpr>(E)->getSubStmt());
      return O;
    case Stmt::AtomicExprClass: {
      O["k"] = "opaque"; O["why"] = "atomic";
      json::Array A;
      for (auto *X : E->children()) if (auto *XE = dyn_cast_or_null<Expr>(X)) A.push_back(expr(XE));
      O["a"] = std::move(A);
      return O;
    }
    default: break;
    }
    O["k"] = "opaque";
    O["why"] = E->getStmtClassName();
    json::Array A;
    for (auto *X : E->children())
      if (auto *XE = dyn_cast_or_null<Expr>(X)) A.push_back(expr(XE));
    O["a"] = std::move(A);
    return O;
  }

  std::map<const Decl *, bool> InGlobal;
  void constantInit(const VarDecl *VD, json::Object &O) {
    if (VD->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    auto L = VD->getLocation();
    if (auto *P = VD->getTemplateInstantiationPattern()) L = P->getLocation();
    if (auto *I = VD->getAnyInitializer())
      if (VD->getType().isConstQualified() && inRoots(L) && !I->isValueDependent()) O["ginit"] = globalInit(VD, I);
  }

  json::Value globalInit(const VarDecl *VD, const Expr *I) {
    if (InGlobal[VD]) return nullptr;
    InGlobal[VD] = true;
    auto R = expr(I);
    InGlobal[VD] = false;
    return R;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O;
      O["k"] = "expr";
      O["l"] = lineOf(E->getBeginLoc());
      O["e"] = expr(E);
      return O;
    }
    json::Object O;
    O["l"] = lineOf(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      O["k"] = "block";
      O["le"] = lineOf(S->getEndLoc());
      json::Array A;
      for (auto *X : cast<CompoundStmt>(S)->body()) A.push_back(stmt(X));
      O["s"] = std::move(A);
      return O;
    }
    case Stmt::DeclStmtClass: {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      O["k"] = "if";
      if (I->isConstexpr()) O["cexpr"] = true;
      if (I->isConsteval()) O["ceval"] = true;
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getThen());
      if (I->getElse()) O["b"] = stmt(I->getElse());
      return O;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      O["k"] = "while";
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getBody());
      return O;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      O["k"] = "do";
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getBody());
      return O;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      O["k"] = "for";
      O["init"] = stmt(I->getInit());
      O["c"] = expr(I->getCond());
      O["inc"] = expr(I->getInc());
      O["a"] = stmt(I->getBody());
      return O;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      O["k"] = "rfor";
      if (I->getInit()) O["init"] = stmt(I->getInit());
      O["range"] = expr(I->getRangeInit());
      O["v"] = var(I->getLoopVariable());
      O["a"] = stmt(I->getBody());
      return O;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      O["k"] = "switch";
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getBody());
      return O;
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S);
      O["k"] = "case";
      O["v"] = expr(I->getLHS());
      O["a"] = stmt(I->getSubStmt());
      return O;
    }
    case Stmt::DefaultStmtClass:
      O["k"] = "default";
      O["a"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return O;
    case Stmt::ReturnStmtClass:
      O["k"] = "ret";
      O["e"] = expr(cast<ReturnStmt>(S)->getRetValue());
      return O;
    case Stmt::BreakStmtClass: O["k"] = "break"; return O;
    case Stmt::ContinueStmtClass: O["k"] = "continue"; return O;
    case Stmt::NullStmtClass: O["k"] = "null"; return O;
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *I = cast<CXXTryStmt>(S);
      O["k"] = "try";
      O["a"] = stmt(I->getTryBlock());
      json::Array H;
      for (unsigned N = 0; N < I->getNumHandlers(); ++N) {
        auto *X = I->getHandler(N);
        json::Object HO;
        if (X->getExceptionDecl()) HO["v"] = var(X->getExceptionDecl());
        HO["a"] = stmt(X->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    default: break;
    }
    O["k"] = "opaque";
    O["why"] = S->getStmtClassName();
    return O;
  }

  void function(const FunctionDecl *F) {
    json::Object O;
    O["id"] = id(F);
    O["n"] = F->getNameAsString();
    auto *M = dyn_cast<CXXMethodDecl>(F);
    if (M) {
      O["rec"] = recName(M->getParent());
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["virtual"] = M->isVirtual();
      O["pure"] = M->isPureVirtual();
      O["acc"] = static_cast<int>(M->getAccess());
    }
    O["qn"] = qname(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) O["ta"] = tmplArgs(TA);
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    O["ret"] = type(F->getReturnType());
    O["deleted"] = F->isDeleted();
    O["defaulted"] = F->isDefaulted();
    O["implicit"] = F->isImplicit();
    json::Array P;
    for (auto *X : F->parameters())
      P.push_back(json::Object{{"id", id(X)}, {"n", X->getNameAsString()}, {"t", type(X->getType())}});
    O["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                  : CD->isDefaultConstructor() ? "default" : "other";
      json::Array I;
      for (auto *X : CD->inits()) {
        json::Object IO;
        if (X->isAnyMemberInitializer()) {
          IO["field"] = X->getAnyMember()->getNameAsString();
          IO["id"] = id(X->getAnyMember());
        } else if (X->isBaseInitializer()) {
          if (auto *BR = QualType(X->getBaseClass(), 0)->getAsCXXRecordDecl()) IO["base"] = recName(BR);
        } else {
          IO["deleg"] = true;
        }
        IO["written"] = X->isWritten();
        IO["e"] = expr(X->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (F->hasBody() && !F->isDeleted()) O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }

  void run() {
    struct V : RecursiveASTVisitor<V> {
      Dumper &D;
      explicit V(Dumper &X) : D(X) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool shouldVisitImplicitCode() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isDependentContext()) D.need(F);
        return true;
      }
      bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentType() && D.inRoots(locOf(R)))
          D.record(R);
        return true;
      }
      bool VisitEnumDecl(EnumDecl *E) {
        if (D.inRoots(E->getLocation())) D.enumDecl(E);
        return true;
      }
    } Vis(*this);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty()) {
      auto *F = Work.front();
      Work.pop_front();
      function(F);
    }
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
    json::Object Top;
    Top["types"] = std::move(Types);
    Top["functions"] = std::move(Functions);
    Top["records"] = std::move(Records);
    Top["enums"] = std::move(Enums);
    OS << json::Value(std::move(Top));
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 3; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
