// xtract: dump the resolved program (functions, records, typed expression trees) of one
// translation unit as JSON, restricted to code whose definition lies under given roots.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots, Excl;
static std::string OutPath;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const FunctionDecl *, std::string> FnId;
  std::set<std::string> RefDone;
  Object FnRefs;                      // fid -> reference info
  Object Fns;                         // fid -> full definition
  Object Recs;                        // canonical type name -> record info
  Object Globals;                     // id -> global / static variables of the library
  std::unordered_map<const Decl *, int> DeclIds;
  std::vector<const FunctionDecl *> Queue;
  std::set<const FunctionDecl *> Queued;
  std::set<const RecordDecl *> RecDone;
  std::set<const VarDecl *> GlobDone;
  bool HadUnknown = false;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.UseVoidForZeroParams = false;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (FE) {
      auto R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
    }
    return P.str().str();
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool inRoots(SourceLocation L) {
    std::string F = file(L);
    if (F.empty()) return false;
    for (auto &E : Excl) if (F.size() >= E.size() && F.compare(F.size() - E.size(), E.size(), E) == 0) return false;
    for (auto &R : Roots) if (F.rfind(R, 0) == 0) return true;
    return false;
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int N = DeclIds.size() + 1;
    DeclIds[D] = N;
    return N;
  }

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }

  const FunctionDecl *def(const FunctionDecl *FD) {
    const FunctionDecl *D = nullptr;
    if (FD->isDefined(D)) return D;
    if (auto *P = FD->getTemplateInstantiationPattern()) (void)P;
    return FD;
  }

  std::string fid(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    auto It = FnId.find(FD);
    if (It != FnId.end()) return It->second;
    llvm::SmallString<256> U;
    std::string S;
    if (!index::generateUSRForDecl(FD, U)) S = U.str().str();
    else S = qname(FD);
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      S += "<";
      for (auto &A : TA->asArray()) { llvm::raw_string_ostream OS(S); A.print(PP, OS, true); OS.flush(); S += ","; }
      S += ">";
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) S += "@" + ty(C.getRecordType(MD->getParent()));
    S += "(";
    for (auto *P : FD->parameters()) S += ty(P->getType()) + ",";
    S += ")";
    // disambiguate lambdas and local classes by location
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda() || MD->getParent()->isLocalClass())
        S += "#" + std::to_string(declId(FD));
    FnId[FD] = S;
    return S;
  }

  void refFn(const FunctionDecl *FD) {
    std::string Id = fid(FD);
    if (!RefDone.insert(Id).second) { enqueue(FD); return; }
    Object O;
    O["qn"] = qname(FD);
    O["n"] = FD->getNameAsString();
    O["ret"] = ty(FD->getReturnType());
    Array Ps;
    for (auto *P : FD->parameters()) Ps.push_back(ty(P->getType()));
    O["params"] = std::move(Ps);
    if (FD->isVariadic()) O["variadic"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      Array As;
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Pack) {
          for (auto &B : A.pack_elements()) { std::string S; llvm::raw_string_ostream OS(S); B.print(PP, OS, true); As.push_back(OS.str()); }
        } else if (A.getKind() == TemplateArgument::Type) {
          As.push_back(ty(A.getAsType()));
        } else { std::string S; llvm::raw_string_ostream OS(S); A.print(PP, OS, true); As.push_back(OS.str()); }
      }
      O["targs"] = std::move(As);
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = ty(C.getRecordType(MD->getParent()));
      O["cqn"] = qname(MD->getParent());
      if (MD->isConst()) O["const"] = true;
      if (MD->isStatic()) O["static"] = true;
      if (MD->isVirtual()) O["virtual"] = true;
      if (MD->isCopyAssignmentOperator()) O["special"] = "copyassign";
      if (MD->isMoveAssignmentOperator()) O["special"] = "moveassign";
      if (MD->getParent()->isLambda()) O["lambda"] = true;
      if (MD->isTrivial()) O["trivial"] = true;
      O["access"] = (int)MD->getAccess();
      Array Ov;
      for (auto *B : MD->overridden_methods()) { Ov.push_back(fid(B)); }
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
      recRef(MD->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["k"] = "ctor";
      if (CD->isCopyConstructor()) O["special"] = "copy";
      else if (CD->isMoveConstructor()) O["special"] = "move";
      else if (CD->isDefaultConstructor()) O["special"] = "default";
      if (CD->isExplicit()) O["explicit"] = true;
    } else if (isa<CXXDestructorDecl>(FD)) O["k"] = "dtor";
    else if (isa<CXXConversionDecl>(FD)) O["k"] = "conv";
    if (FD->isDeleted()) O["deleted"] = true;
    if (FD->isDefaulted()) O["defaulted"] = true;
    if (FD->isNoReturn()) O["noreturn"] = true;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) O["noexcept"] = true;
    O["lib"] = inRoots(FD->getLocation());
    O["file"] = file(FD->getLocation());
    O["line"] = line(FD->getLocation());
    FnRefs[Id] = std::move(O);
    enqueue(FD);
  }

  void enqueue(const FunctionDecl *FD) {
    const FunctionDecl *D = nullptr;
    if (!FD->isDefined(D) || !D) return;
    if (D->isDependentContext()) return;
    if (!D->hasBody() && !D->isDefaulted()) return;
    bool lib = inRoots(D->getLocation());
    if (!lib) return;
    if (Queued.insert(D->getCanonicalDecl()).second) Queue.push_back(D);
  }

  void recRef(const CXXRecordDecl *RD) {
    if (!RD) return;
    RD = RD->getDefinition();
    if (!RD || RD->isDependentContext()) return;
    if (!RecDone.insert(RD).second) return;
    Object O;
    O["qn"] = qname(RD);
    O["file"] = file(RD->getLocation());
    O["line"] = line(RD->getLocation());
    bool lib = inRoots(RD->getLocation());
    O["lib"] = lib;
    if (RD->isLambda()) O["lambda"] = true;
    Array Bs;
    for (auto &B : RD->bases()) {
      Object BO;
      BO["t"] = ty(B.getType());
      BO["access"] = (int)B.getAccessSpecifier();
      Bs.push_back(std::move(BO));
      recRef(B.getType()->getAsCXXRecordDecl());
    }
    O["bases"] = std::move(Bs);
    Array TAs;
    if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD))
      for (auto &A : SD->getTemplateArgs().asArray()) { std::string S; llvm::raw_string_ostream OS(S); A.print(PP, OS, true); TAs.push_back(OS.str()); }
    O["targs"] = std::move(TAs);
    if (lib) {
      Array Fs;
      for (auto *F : RD->fields()) {
        Object FO;
        FO["n"] = F->getNameAsString();
        FO["t"] = ty(F->getType());
        FO["access"] = (int)F->getAccess();
        FO["line"] = line(F->getLocation());
        if (F->isMutable()) FO["mutable"] = true;
        if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = S(F->getInClassInitializer());
        Fs.push_back(std::move(FO));
        if (auto *R = F->getType()->getAsCXXRecordDecl()) recRef(R);
      }
      O["fields"] = std::move(Fs);
      Array Ms;
      for (auto *M : RD->methods()) {
        refFn(M);
        Ms.push_back(fid(M));
      }
      for (auto *D : RD->decls()) {
        if (auto *FTD = dyn_cast<FunctionTemplateDecl>(D))
          for (auto *Sp : FTD->specializations()) { refFn(Sp); Ms.push_back(fid(Sp)); }
        if (auto *V = dyn_cast<VarDecl>(D)) global(V);
        if (auto *FR = dyn_cast<FriendDecl>(D))
          if (auto *ND = FR->getFriendDecl())
            if (auto *FF = dyn_cast<FunctionDecl>(ND)) if (!FF->isDependentContext()) refFn(FF);
      }
      O["methods"] = std::move(Ms);
      O["has_copy_ctor_deleted"] = RD->needsImplicitCopyConstructor() ? RD->defaultedCopyConstructorIsDeleted() : false;
      O["has_move_ctor_deleted"] = RD->needsImplicitMoveConstructor() ? RD->defaultedMoveConstructorIsDeleted() : false;
      O["polymorphic"] = RD->isPolymorphic();
      O["abstract"] = RD->isAbstract();
    }
    Recs[ty(C.getRecordType(RD))] = std::move(O);
  }

  void global(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!GlobDone.insert(V).second) return;
    if (!inRoots(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    Object O;
    O["qn"] = qname(V);
    O["t"] = ty(V->getType());
    O["line"] = line(V->getLocation());
    O["file"] = file(V->getLocation());
    if (V->isStaticLocal()) O["staticlocal"] = true;
    if (V->getType().isConstQualified()) O["const"] = true;
    const VarDecl *D = V->getDefinition();
    if (const Expr *I = V->getAnyInitializer(D)) O["init"] = S(I);
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    Globals[std::to_string(declId(V))] = std::move(O);
  }

  Object node(const char *K, const Stmt *St) {
    Object O;
    O["k"] = K;
    O["l"] = line(St->getBeginLoc());
    return O;
  }

  Value varDecl(const VarDecl *V) {
    Object O;
    O["d"] = declId(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = line(V->getLocation());
    if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) recRef(R);
    if (V->isStaticLocal()) { O["static"] = true; global(V); }
    if (V->hasInit()) O["init"] = S(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array Bs;
      for (auto *B : DD->bindings()) {
        Object BO;
        BO["d"] = declId(B);
        BO["n"] = B->getNameAsString();
        BO["t"] = ty(B->getType());
        if (auto *HV = B->getHoldingVar()) {
          BO["hd"] = declId(HV);
          if (HV->hasInit()) BO["init"] = S(HV->getInit());
        } else if (B->getBinding()) BO["expr"] = S(B->getBinding());
        Bs.push_back(std::move(BO));
      }
      O["bindings"] = std::move(Bs);
    }
    return O;
  }

  Value S(const Stmt *St) {
    if (!St) return nullptr;
    // strip
    if (auto *E = dyn_cast<Expr>(St)) {
      if (auto *X = dyn_cast<ParenExpr>(E)) return S(X->getSubExpr());
      if (auto *X = dyn_cast<ConstantExpr>(E)) return S(X->getSubExpr());
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) {
        auto O = node("Full", E); O["e"] = S(X->getSubExpr()); return O;
      }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
        auto O = node("Mat", E); O["e"] = S(X->getSubExpr());
        O["t"] = ty(X->getType());
        if (X->getExtendingDecl()) O["ext"] = true;
        return O;
      }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return S(X->getSubExpr());
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return S(X->getReplacement());
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return S(X->getExpr());
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return S(X->getExpr());
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { auto O = node("StdInitList", E); O["e"] = S(X->getSubExpr()); O["t"] = ty(E->getType()); return O; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return S(X->getSemanticForm());
      if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { auto O = node("ArrayInitLoop", E); O["e"] = S(X->getCommonExpr()->getSourceExpr()); O["t"] = ty(E->getType()); return O; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return S(X->getSourceExpr());
      if (auto *X = dyn_cast<PseudoObjectExpr>(E)) return S(X->getResultExpr());
      if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return S(X->getResultExpr());
      if (auto *X = dyn_cast<ChooseExpr>(E)) return S(X->getChosenSubExpr());
      if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { auto O = node("Int", E); O["v"] = X->getValue() ? "1" : "0"; O["t"] = "bool"; return O; }
      if (auto *X = dyn_cast<TypeTraitExpr>(E)) { auto O = node("Int", E); O["v"] = X->getValue() ? "1" : "0"; O["t"] = "bool"; return O; }
      if (auto *X = dyn_cast<ConceptSpecializationExpr>(E)) { auto O = node("Int", E); O["v"] = X->isSatisfied() ? "1" : "0"; O["t"] = "bool"; return O; }
      if (auto *X = dyn_cast<SizeOfPackExpr>(E)) { auto O = node("Int", E); O["v"] = std::to_string(X->getPackLength()); O["t"] = ty(E->getType()); return O; }
      if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
        Expr::EvalResult R;
        if (X->EvaluateAsInt(R, C)) { auto O = node("Int", E); llvm::SmallString<32> Sx; R.Val.getInt().toString(Sx); O["v"] = Sx.str().str(); O["t"] = ty(E->getType()); return O; }
      }
    }
    if (auto *E = dyn_cast<Expr>(St)) return expr(E);
    return stmt(St);
  }

  Value callee(const FunctionDecl *FD) { refFn(FD); return fid(FD); }

  // constant-fold integral constant expressions that involve no local state (std constants, constexpr calls)
  bool foldConst(const Expr *E, Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    return false;
  }

  Value expr(const Expr *E) {
    Object O;
    std::string T = ty(E->getType());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O = node("Int", E); llvm::SmallString<32> B; X->getValue().toString(B, 10, X->getType()->isSignedIntegerType()); O["v"] = B.str().str();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O = node("Int", E); O["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O = node("Int", E); O["v"] = X->getValue() ? "1" : "0";
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O = node("Float", E); llvm::SmallString<32> B; X->getValue().toString(B, 0, 0); O["v"] = B.str().str();
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      O = node("Str", E); O["v"] = X->isOrdinary() || X->isUTF8() ? llvm::json::fixUTF8(X->getString()) : std::string("?");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O = node("Null", E);
    } else if (isa<CXXThisExpr>(E)) {
      O = node("This", E);
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        O = node("FnRef", E); O["f"] = callee(FD);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O = node("Enum", E); O["n"] = qname(EC); llvm::SmallString<32> B; EC->getInitVal().toString(B, 10); O["v"] = B.str().str();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O = node("Var", E);
        O["d"] = declId(V); O["n"] = V->getNameAsString();
        if (isa<ParmVarDecl>(V)) O["parm"] = true;
        if (V->hasGlobalStorage()) {
          O["global"] = true; O["qn"] = qname(V); global(V);
          if (V->getType().isConstQualified() && !inRoots(V->getLocation())) {
            Expr::EvalResult R;
            if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) { llvm::SmallString<32> Sx; R.Val.getInt().toString(Sx, 10); O["cv"] = Sx.str().str(); }
          }
        }
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O = node("Var", E); O["d"] = declId(B); O["n"] = B->getNameAsString(); O["binding"] = true;
      } else if (auto *TP = dyn_cast<TemplateParamObjectDecl>(D)) {
        O = node("Opaque", E); (void)TP;
      } else {
        O = node("Opaque", E); O["what"] = D->getDeclKindName();
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O = node("Field", E); O["n"] = F->getNameAsString(); O["o"] = S(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
        O["cls"] = ty(C.getRecordType(F->getParent()));
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) recRef(R);
      } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O = node("Var", E); O["d"] = declId(V); O["n"] = V->getNameAsString(); O["global"] = true; O["qn"] = qname(V); global(V);
        if (V->getType().isConstQualified() && !inRoots(V->getLocation()) && V->getType()->isIntegralOrEnumerationType())
          if (const APValue *A = V->evaluateValue()) if (A->isInt()) { llvm::SmallString<32> Sx; A->getInt().toString(Sx, 10); O["cv"] = Sx.str().str(); }
      } else if (auto *M = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        O = node("MemFn", E); O["f"] = callee(M); O["o"] = S(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
      } else O = node("Opaque", E);
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O = node("Call", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *FD = X->getDirectCallee();
      unsigned I = 0;
      if (FD) {
        O["f"] = callee(FD);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD); MD && !MD->isStatic()) { O["o"] = S(X->getArg(0)); I = 1; }
      }
      Array As;
      for (; I < X->getNumArgs(); ++I) As.push_back(S(X->getArg(I)));
      O["a"] = std::move(As);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *MD = X->getMethodDecl();
      O = node("Call", E);
      if (MD) {
        O["f"] = callee(MD);
        const Expr *Ob = X->getImplicitObjectArgument();
        O["o"] = S(Ob);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (MD->isVirtual() && !ME->hasQualifier()) O["virt"] = true;
        }
      } else {
        O["fe"] = S(X->getCallee());
      }
      Array As;
      for (auto *A : X->arguments()) As.push_back(S(A));
      O["a"] = std::move(As);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O = node("Call", E);
      if (auto *FD = X->getDirectCallee()) O["f"] = callee(FD);
      else O["fe"] = S(X->getCallee());
      Array As;
      for (auto *A : X->arguments()) As.push_back(S(A));
      O["a"] = std::move(As);
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O = node("Construct", E); O["f"] = callee(X->getConstructor()); O["a"] = Array(); O["inherited"] = true;
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O = node("Construct", E);
      O["f"] = callee(X->getConstructor());
      if (X->isListInitialization()) O["list"] = true;
      if (X->isElidable()) O["elidable"] = true;
      if (X->requiresZeroInitialization()) O["zinit"] = true;
      Array As;
      for (auto *A : X->arguments()) As.push_back(S(A));
      O["a"] = std::move(As);
      recRef(X->getConstructor()->getParent());
    } else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      O = node("Zero", E); (void)X;
    } else if (isa<ImplicitValueInitExpr>(E)) {
      O = node("Zero", E);
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: O = node("Load", E); O["e"] = S(X->getSubExpr()); break;
      case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
      case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_ToVoid:
        if (X->getCastKind() == CK_ToVoid) { O = node("Void", E); O["e"] = S(X->getSubExpr()); break; }
        return S(X->getSubExpr());
      case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
        O = node("Upcast", E); O["e"] = S(X->getSubExpr()); break;
      case CK_BaseToDerived: O = node("Downcast", E); O["e"] = S(X->getSubExpr()); break;
      case CK_Dynamic: O = node("Dyncast", E); O["e"] = S(X->getSubExpr()); break;
      case CK_NullToPointer: O = node("Null", E); break;
      default: O = node("Cast", E); O["ck"] = X->getCastKindName(); O["e"] = S(X->getSubExpr()); O["ft"] = ty(X->getSubExpr()->getType());
        if (!isa<ImplicitCastExpr>(X)) O["explicit"] = true;
      }
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O = node("CAssign", E); auto Op = BinaryOperator::getOpForCompoundAssignment(X->getOpcode()); O["op"] = BinaryOperator::getOpcodeStr(Op).str();
      O["lhs"] = S(X->getLHS()); O["rhs"] = S(X->getRHS()); O["ct"] = ty(X->getComputationResultType());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) { O = node("Assign", E); }
      else { O = node("Bin", E); O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); }
      O["lhs"] = S(X->getLHS()); O["rhs"] = S(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      if (X->getOpcode() == UO_Extension) return S(X->getSubExpr());
      O = node("Un", E); O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["e"] = S(X->getSubExpr());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O = node("Cond", E); O["c"] = S(X->getCond()); O["a"] = S(X->getTrueExpr()); O["b"] = S(X->getFalseExpr());
    } else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      O = node("Cond", E); O["c"] = S(X->getCond()); O["a"] = S(X->getTrueExpr()); O["b"] = S(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O = node("Index", E); O["o"] = S(X->getBase()); O["i"] = S(X->getIdx()); O["at"] = ty(X->getBase()->IgnoreParenImpCasts()->getType());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O = node("Lambda", E);
      const CXXRecordDecl *RD = X->getLambdaClass();
      recRef(RD);
      if (!RD->isGenericLambda()) O["f"] = callee(X->getCallOperator());
      else {
        Array Gs;
        if (auto *FTD = RD->getDependentLambdaCallOperator())
          for (auto *Sp : FTD->specializations()) { refFn(Sp); Gs.push_back(fid(Sp)); }
        O["gf"] = std::move(Gs);
      }
      O["mutable"] = X->isMutable();
      Array Cs;
      auto It = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        Object CO;
        if (Cp.capturesThis()) { CO["this"] = true; if (Cp.getCaptureKind() == LCK_StarThis) CO["copythis"] = true; }
        else if (Cp.capturesVariable()) {
          CO["d"] = declId(Cp.getCapturedVar()); CO["n"] = Cp.getCapturedVar()->getName().str();
          CO["t"] = ty(Cp.getCapturedVar()->getType());
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar()); V && V->isInitCapture()) CO["initcap"] = true;
        }
        if (It != X->capture_init_end() && *It) CO["init"] = S(*It);
        ++It;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *Sm = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!Sm) Sm = X;
      if (Sm->isTransparent() && Sm->getNumInits() == 1) return S(Sm->getInit(0));
      O = node("InitList", E); Array As; for (auto *I : Sm->inits()) As.push_back(S(I)); O["a"] = std::move(As);
      if (auto *R = E->getType()->getAsCXXRecordDecl()) recRef(R);
      if (Sm->getNumInits() == 1 && !E->getType()->isAggregateType()) return S(Sm->getInit(0));
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O = node("Throw", E); O["e"] = S(X->getSubExpr());
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O = node("New", E); O["at"] = ty(X->getAllocatedType());
      if (X->getInitializer()) O["init"] = S(X->getInitializer());
      if (X->isArray() && X->getArraySize()) O["size"] = S(*X->getArraySize());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O = node("Delete", E); O["e"] = S(X->getArgument());
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      O = node("Typeid", E);
      if (X->isTypeOperand()) O["of"] = ty(X->getTypeOperand(C)); else O["e"] = S(X->getExprOperand());
    } else if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
      O = node("InitList", E); Array As; for (auto *I : X->getInitExprs()) As.push_back(S(I)); O["a"] = std::move(As);
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      O = node("Str", E); O["v"] = "__func__"; (void)X;
    } else {
      O = node("Opaque", E); O["what"] = E->getStmtClassName();
      Array Ch; for (auto *Cx : E->children()) if (Cx) Ch.push_back(S(Cx)); O["ch"] = std::move(Ch);
    }
    O["t"] = T;
    if (E->isLValue()) O["lv"] = true;
    else if (E->isXValue()) O["xv"] = true;
    return O;
  }

  Value stmt(const Stmt *St) {
    Object O;
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      O = node("Block", St); Array A; for (auto *C2 : X->body()) A.push_back(S(C2)); O["s"] = std::move(A);
    } else if (auto *X = dyn_cast<DeclStmt>(St)) {
      O = node("Decl", St); Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["v"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(St)) {
      O = node("If", St);
      if (X->isConsteval()) { O["c"] = nullptr; }
      if (X->getInit()) O["init"] = S(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = S(X->getCond()); O["a"] = S(X->getThen()); O["b"] = S(X->getElse());
      if (X->isConstexpr()) {
        O["constexpr"] = true;
        if (auto R = X->getNondiscardedCase(C)) { O["live"] = *R ? S(*R) : Value(nullptr); O["haslive"] = true; }
      }
    } else if (auto *X = dyn_cast<WhileStmt>(St)) {
      O = node("While", St); O["c"] = S(X->getCond()); O["body"] = S(X->getBody());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
    } else if (auto *X = dyn_cast<DoStmt>(St)) {
      O = node("Do", St); O["c"] = S(X->getCond()); O["body"] = S(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(St)) {
      O = node("For", St); O["init"] = S(X->getInit()); O["c"] = S(X->getCond()); O["inc"] = S(X->getInc()); O["body"] = S(X->getBody());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
      O = node("RangeFor", St); O["range"] = S(X->getRangeInit());
      if (X->getInit()) O["init"] = S(X->getInit());
      O["rt"] = ty(X->getRangeInit()->getType());
      if (auto *V = X->getLoopVariable()) O["var"] = varDecl(V);
      O["body"] = S(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(St)) {
      O = node("Return", St); O["e"] = S(X->getRetValue());
    } else if (isa<BreakStmt>(St)) O = node("Break", St);
    else if (isa<ContinueStmt>(St)) O = node("Continue", St);
    else if (isa<NullStmt>(St)) O = node("Nop", St);
    else if (auto *X = dyn_cast<SwitchStmt>(St)) {
      O = node("Switch", St); O["c"] = S(X->getCond()); O["body"] = S(X->getBody());
      if (X->getInit()) O["init"] = S(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
    } else if (auto *X = dyn_cast<CaseStmt>(St)) {
      O = node("Case", St); O["e"] = S(X->getLHS()); O["sub"] = S(X->getSubStmt());
      Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> Sx; R.Val.getInt().toString(Sx, 10); O["v"] = Sx.str().str(); }
    } else if (auto *X = dyn_cast<DefaultStmt>(St)) {
      O = node("Default", St); O["sub"] = S(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      O = node("Try", St); O["body"] = S(X->getTryBlock()); Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *H = X->getHandler(I); Object HO; HO["l"] = line(H->getBeginLoc());
        HO["t"] = H->getCaughtType().isNull() ? "..." : ty(H->getCaughtType());
        if (auto *V = H->getExceptionDecl()) HO["v"] = varDecl(V);
        HO["body"] = S(H->getHandlerBlock()); A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
    } else if (auto *X = dyn_cast<AttributedStmt>(St)) return S(X->getSubStmt());
    else if (auto *X = dyn_cast<LabelStmt>(St)) { O = node("Label", St); O["sub"] = S(X->getSubStmt()); O["n"] = X->getName(); }
    else if (auto *X = dyn_cast<GotoStmt>(St)) { O = node("Goto", St); O["n"] = X->getLabel()->getName().str(); }
    else { O = node("OpaqueStmt", St); O["what"] = St->getStmtClassName(); }
    return O;
  }

  void dumpFn(const FunctionDecl *FD) {
    std::string Id = fid(FD);
    if (Fns.get(Id)) return;
    Fns[Id] = nullptr;
    refFn(FD);
    Object O;
    O["qn"] = qname(FD);
    O["file"] = file(FD->getLocation());
    O["line"] = line(FD->getLocation());
    O["endline"] = line(FD->getEndLoc());
    Array Ps;
    for (auto *P : FD->parameters()) {
      Object PO; PO["d"] = declId(P); PO["n"] = P->getNameAsString(); PO["t"] = ty(P->getType()); PO["l"] = line(P->getLocation());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) PO["def"] = S(P->getDefaultArg());
      Ps.push_back(std::move(PO));
      if (auto *R = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) recRef(R);
    }
    O["params"] = std::move(Ps);
    O["ret"] = ty(FD->getReturnType());
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      Array Is;
      for (auto *I : CD->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) { IO["field"] = I->getAnyMember()->getNameAsString(); IO["ft"] = ty(I->getAnyMember()->getType()); }
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["delegate"] = true;
        IO["written"] = I->isWritten();
        IO["e"] = S(I->getInit());
        IO["l"] = line(I->getSourceLocation());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    if (FD->hasBody()) O["body"] = S(FD->getBody());
    Fns[Id] = std::move(O);
  }

  void drain() {
    while (!Queue.empty()) {
      auto *F = Queue.back(); Queue.pop_back();
      dumpFn(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  explicit V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!D.inRoots(FD->getLocation()) || FD->isDependentContext()) return true;
    D.refFn(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!D.inRoots(RD->getLocation()) || RD->isDependentContext() || !RD->isCompleteDefinition() || RD->isLambda()) return true;
    D.recRef(RD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (VD->hasGlobalStorage() && D.inRoots(VD->getLocation()) && !VD->getDeclContext()->isDependentContext() && !VD->getType()->isDependentType()) D.global(VD);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V(D).TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    Object O;
    O["fns"] = std::move(D.Fns);
    O["refs"] = std::move(D.FnRefs);
    O["recs"] = std::move(D.Recs);
    O["globals"] = std::move(D.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(O));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

int main(int argc, const char **argv) {
  // xtract OUT SRC [--root R]... [--excl X]... -- flags
  if (argc < 4) return 2;
  OutPath = argv[1];
  std::string Src = argv[2];
  std::vector<std::string> Flags;
  int I = 3;
  for (; I < argc; ++I) {
    std::string A = argv[I];
    if (A == "--root") Roots.push_back(argv[++I]);
    else if (A == "--excl") Excl.push_back(argv[++I]);
    else if (A == "--") { ++I; break; }
  }
  for (; I < argc; ++I) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
