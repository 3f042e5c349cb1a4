// h2dfacts: resolved-program fact extractor for homog2d (clang 18 libTooling).
// For every function *definition* located in homog2d.hpp that exists in the
// translation unit (ordinary functions and template instantiations, lambdas),
// emits the type-checked syntax tree and its control-flow graph as JSON, plus
// records, variables of static storage duration, enums, and the list of
// function patterns of the header (so that a client can tell what was NOT
// instantiated and therefore not analysed).
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string g_out;
static std::string g_header = "homog2d.hpp";
static std::string g_also;   // additional file suffix to emit (self-tests)
static unsigned g_errors = 0;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
  Extractor(ASTContext &C, json::OStream &J)
      : Ctx(C), SM(C.getSourceManager()), J(J), NG(C),
        PP(C.getPrintingPolicy()) {
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inHeader(SourceLocation L) const {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    if (F.ends_with(g_header)) return true;
    return !g_also.empty() && F.ends_with(g_also);
  }
  unsigned line(SourceLocation L) const {
    return L.isValid() ? SM.getExpansionLineNumber(L) : 0;
  }

  // ---- tables
  std::map<std::string, int> TypeIds;
  std::vector<QualType> TypeList;
  std::vector<std::string> TypeStr;
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType C = T.getCanonicalType();
    std::string S = C.getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    int Id = TypeList.size();
    TypeIds[S] = Id;
    TypeList.push_back(C);
    TypeStr.push_back(S);
    // make sure pointee is registered too
    if (C->isReferenceType() || C->isPointerType()) typeId(C->getPointeeType());
    return Id;
  }
  std::unordered_map<const Decl *, int> DeclIds;
  std::vector<const ValueDecl *> DeclList;
  int declId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int Id = DeclList.size();
    DeclIds[D] = Id;
    DeclList.push_back(D);
    return Id;
  }
  std::unordered_map<const Decl *, std::string> FnNames;
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto It = FnNames.find(F);
    if (It != FnNames.end()) return It->second;
    std::string N;
    bool Lam = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) Lam = M->getParent()->isLambda();
    if (!F->isDependentContext() && !Lam) N = NG.getName(F);
    if (N.empty() || Lam) {
      llvm::raw_string_ostream OS(N);
      OS << "#" << F->getQualifiedNameAsString() << "@" << (const void *)F;
    }
    FnNames[F] = N;
    return N;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS);
    return S;
  }
  std::string recName(const CXXRecordDecl *R) {
    return Ctx.getRecordType(R).getCanonicalType().getAsString(PP);
  }

  // ---- node emission
  std::unordered_map<const Stmt *, int> NodeIds;
  int NextNode = 0;
  json::Array Nodes;

  static const Stmt *skipWrap(const Stmt *S) {
    for (;;) {
      if (!S) return S;
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = P->getReplacement();
      else if (auto *P = dyn_cast<ConstantExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(S)) {
        switch (P->getCastKind()) {
        case CK_NoOp: case CK_FunctionToPointerDecay: S = P->getSubExpr(); break;
        default: return S;
        }
      } else return S;
    }
  }
  // remember wrapper -> inner
  int emit(const Stmt *S0, std::vector<const LambdaExpr *> &Lams) {
    const Stmt *S = skipWrap(S0);
    if (!S) return -1;
    auto It = NodeIds.find(S);
    if (It != NodeIds.end()) { NodeIds[S0] = It->second; return It->second; }
    json::Object O;
    O["k"] = S->getStmtClassName();
    O["l"] = (int64_t)line(S->getBeginLoc());
    std::vector<int> Ch;
    bool DefaultChildren = true;
    auto add = [&](const Stmt *C) { Ch.push_back(C ? emit(C, Lams) : -1); };
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = typeId(E->getType());
      if (E->isLValue()) O["lv"] = 1;
      else if (E->isXValue()) O["lv"] = 2;
    }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = E->getDecl();
      if (auto *B = dyn_cast<BindingDecl>(D)) (void)B;
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["fn"] = fnId(F); fnRef(F); }
      else O["d"] = declId(D);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = E->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["fn"] = fnId(F); fnRef(F); }
      else O["d"] = declId(D);
      O["m"] = D->getNameAsString();
      if (E->isArrow()) O["ar"] = 1;
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["op"] = getOperatorSpelling(E->getOperator());
      if (auto *F = E->getDirectCallee()) { O["fn"] = fnId(F); fnRef(F);
        if (isa<CXXMethodDecl>(F)) O["mem"] = 1; }
      for (auto *A : E->arguments()) add(A);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) { O["fn"] = fnId(F); fnRef(F); }
      add(E->getCallee());
      for (auto *A : E->arguments()) add(A);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["fn"] = fnId(E->getConstructor()); fnRef(E->getConstructor());
      if (E->isElidable()) O["elid"] = 1;
      for (auto *A : E->arguments()) add(A);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = 1;
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      O["ck"] = E->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) O["ex"] = 1;
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<16> V; E->getValue().toString(V, 10, true);
      O["v"] = V.str().str();
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      O["v"] = E->getValueAsApproximateDouble();
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["v"] = E->getValue();
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      O["v"] = (int64_t)E->getValue();
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      if (E->isOrdinary()) { std::string V = E->getString().str(); O["v"] = json::fixUTF8(V); }
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      Lams.push_back(E);
      O["fn"] = fnId(E->getCallOperator());
      if (E->isGenericLambda()) {      // the operators actually instantiated
        json::Array Sps;
        if (auto *FT = E->getDependentCallOperator())
          for (auto *Sp : FT->specializations()) { if (Sps.empty()) O["fn"] = fnId(Sp); Sps.push_back(fnId(Sp)); }
        O["fns"] = std::move(Sps);
      }
      json::Array Caps;
      for (auto &C : E->captures()) {
        json::Object CO;
        CO["kind"] = C.capturesThis() ? (C.getCaptureKind()==LCK_StarThis?"*this":"this") : (C.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        if (C.capturesVariable()) CO["d"] = declId(C.getCapturedVar());
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      for (auto *I : E->capture_inits()) add(I);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      add(E->getExpr()); DefaultChildren = false;
    } else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
      add(E->getExpr()); DefaultChildren = false;
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      (void)E; DefaultChildren = false;
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = E->isSemanticForm() ? E : E->getSemanticForm();
      if (!Sem) Sem = E;
      for (auto *A : Sem->inits()) add(A);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<DeclStmt>(S)) {
      json::Array Ds;
      for (auto *D : E->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object DO;
          DO["d"] = declId(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (auto *BD : DD->bindings()) {
              json::Object BO; BO["d"] = declId(BD);
              if (BD->getBinding()) BO["e"] = emit(BD->getBinding(), Lams);
              B.push_back(std::move(BO));
            }
            DO["bind"] = std::move(B);
          }
          int I = -1;
          if (V->getInit()) { I = emit(V->getInit(), Lams); Ch.push_back(I); }
          DO["i"] = I;
          if (V->isStaticLocal()) DO["static"] = 1;
          Ds.push_back(std::move(DO));
        }
      }
      O["decls"] = std::move(Ds);
      DefaultChildren = false;
    } else if (auto *E = dyn_cast<IfStmt>(S)) {
      if (E->isConstexpr()) O["cx"] = 1;
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("init", E->getInit());
      if (E->getConditionVariableDeclStmt()) rl("cvar", E->getConditionVariableDeclStmt());
      rl("cond", E->getCond()); rl("then", E->getThen()); rl("else", E->getElse());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<ForStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("init", E->getInit()); rl("cond", E->getCond()); rl("inc", E->getInc()); rl("body", E->getBody());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<WhileStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("cond", E->getCond()); rl("body", E->getBody());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<DoStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("body", E->getBody()); rl("cond", E->getCond());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("range", E->getRangeStmt()); rl("begin", E->getBeginStmt()); rl("end", E->getEndStmt());
      rl("cond", E->getCond()); rl("inc", E->getInc()); rl("var", E->getLoopVarStmt()); rl("body", E->getBody());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<SwitchStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("cond", E->getCond()); rl("body", E->getBody());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<CaseStmt>(S)) {
      json::Object R;
      auto rl = [&](const char *N, const Stmt *C) { if (C) { int I = emit(C, Lams); R[N] = I; Ch.push_back(I); } };
      rl("val", E->getLHS()); rl("sub", E->getSubStmt());
      O["r"] = std::move(R); DefaultChildren = false;
    } else if (auto *E = dyn_cast<CXXCatchStmt>(S)) {
      if (E->getExceptionDecl()) { O["d"] = declId(E->getExceptionDecl()); O["ct"] = typeId(E->getCaughtType()); }
      else O["all"] = 1;
    } else if (isa<CXXThisExpr>(S)) {
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      (void)E;
    } else if (auto *E = dyn_cast<TypeTraitExpr>(S)) {
      if (!E->isValueDependent()) O["v"] = E->getValue();
    }
    if (DefaultChildren)
      for (const Stmt *C : S->children()) Ch.push_back(C ? emit(C, Lams) : -1);
    int Id = NextNode++;
    NodeIds[S] = Id;
    NodeIds[S0] = Id;
    if (!Ch.empty()) { json::Array A; for (int C : Ch) A.push_back(C); O["c"] = std::move(A); }
    O["i"] = Id;
    // constant value of boolean/integer conditions that clang can fold
    Nodes.push_back(std::move(O));
    return Id;
  }
  int nodeOf(const Stmt *S) {
    if (!S) return -1;
    auto It = NodeIds.find(S);
    if (It != NodeIds.end()) return It->second;
    const Stmt *T = skipWrap(S);
    It = NodeIds.find(T);
    return It == NodeIds.end() ? -1 : It->second;
  }

  // ---- functions
  std::set<const FunctionDecl *> Done;
  std::set<const FunctionDecl *> RefdFns;
  std::vector<const FunctionDecl *> RefdList;
  void fnRef(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (RefdFns.insert(F).second) RefdList.push_back(F);
  }

  const FunctionDecl *patternOf(const FunctionDecl *F) {
    if (auto *P = F->getTemplateInstantiationPattern()) return P;
    return F;
  }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return std::to_string(SM.getExpansionLineNumber(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L));
  }
  void fnHead(json::Object &O, const FunctionDecl *F) {
    O["id"] = fnId(F);
    O["name"] = F->getNameAsString();
    O["q"] = qname(F);
    const FunctionDecl *P = patternOf(F);
    O["pl"] = locStr(P->getLocation());
    O["line"] = (int64_t)line(P->getLocation());
    O["inhdr"] = inHeader(P->getLocation());
    O["ret"] = typeId(F->getReturnType());
    O["lk"] = (int64_t)F->getFormalLinkage();
    O["inl"] = F->isInlined();
    O["tmpl"] = F->isTemplateInstantiation();
    O["cx"] = F->isConstexpr();
    O["noret"] = F->isNoReturn();
    O["del"] = F->isDeleted();
    O["dflt"] = F->isDefaulted();
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      O["noex"] = !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) &&
                  FPT->getExceptionSpecType() != EST_DependentNoexcept && FPT->canThrow() == CT_Cannot;
    O["builtin"] = (int64_t)F->getBuiltinID();
    if (F->isStatic()) O["static"] = 1;
    json::Array Ps;
    for (auto *PV : F->parameters()) {
      json::Object PO;
      PO["d"] = declId(PV);
      PO["n"] = PV->getNameAsString();
      PO["t"] = typeId(PV->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = qname(M->getParent());
      O["acc"] = (int64_t)M->getAccess();
      O["const"] = M->isConst();
      O["mstatic"] = M->isStatic();
      O["virt"] = M->isVirtual();
      if (isa<CXXConstructorDecl>(M)) {
        auto *C = cast<CXXConstructorDecl>(M);
        O["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other";
      } else if (isa<CXXDestructorDecl>(M)) O["dtor"] = 1;
      else if (M->isCopyAssignmentOperator()) O["assign"] = "copy";
      else if (M->isMoveAssignmentOperator()) O["assign"] = "move";
      else if (isa<CXXConversionDecl>(M)) O["conv"] = 1;
      if (M->getParent()->isLambda()) O["lambda"] = 1;
      if (M->isImplicit()) O["impl"] = 1;
      json::Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fnId(X));
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
    }
    if (F->isOverloadedOperator()) O["oper"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string S; llvm::raw_string_ostream OS(S);
      for (auto &A : TA->asArray()) { A.print(PP, OS, true); OS << ";"; }
      O["targs"] = S;
    }
  }

  void emitFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    F = Def;
    if (F->isDependentContext()) return;
    const FunctionDecl *Pat = patternOf(F);
    if (!inHeader(Pat->getLocation()) && !inHeader(F->getLocation())) return;
    if (!Done.insert(F->getCanonicalDecl()).second) return;
    if (!F->getBody()) return;
    NodeIds.clear(); NextNode = 0; Nodes = json::Array();
    std::vector<const LambdaExpr *> Lams;
    json::Object O;
    fnHead(O, F);
    json::Array Inits;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      for (auto *I : C->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) { IO["f"] = I->getAnyMember()->getNameAsString(); IO["d"] = declId(I->getAnyMember()); }
        else if (I->isBaseInitializer()) IO["base"] = typeId(QualType(I->getBaseClass(), 0));
        else IO["deleg"] = 1;
        IO["w"] = I->isWritten();
        IO["e"] = emit(I->getInit(), Lams);
        Inits.push_back(std::move(IO));
      }
    }
    O["body"] = emit(F->getBody(), Lams);
    O["inits"] = std::move(Inits);
    // CFG
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddEHEdges = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = true;
    BO.PruneTriviallyFalseEdges = false;
    auto G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
    if (G) {
      json::Object CO;
      CO["entry"] = (int64_t)G->getEntry().getBlockID();
      CO["exit"] = (int64_t)G->getExit().getBlockID();
      json::Array Bs;
      for (const CFGBlock *B : *G) {
        json::Object BO2;
        BO2["b"] = (int64_t)B->getBlockID();
        json::Array El;
        for (const CFGElement &E : *B) {
          if (auto S = E.getAs<CFGStmt>()) {
            int N = nodeOf(S->getStmt());
            if (N < 0) {
              // synthesized (e.g. DeclStmt split): emit on the fly
              std::vector<const LambdaExpr *> L2;
              N = emit(S->getStmt(), L2);
            }
            // the outer wrapper may map on the same node: avoid duplicates
            if (!El.empty()) { if (auto V = El.back().getAsInteger()) if (*V == N) continue; }
            El.push_back(N);
          } else if (auto I = E.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *CI = I->getInitializer();
            json::Object IO;
            if (CI->isAnyMemberInitializer()) { IO["init"] = CI->getAnyMember()->getNameAsString(); IO["d"] = declId(CI->getAnyMember()); }
            else if (CI->isBaseInitializer()) IO["base"] = typeId(QualType(CI->getBaseClass(), 0));
            else IO["deleg"] = 1;
            IO["e"] = nodeOf(CI->getInit());
            El.push_back(std::move(IO));
          } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
            json::Object IO;
            IO["dtor"] = declId(D->getVarDecl());
            if (auto *DD = D->getDestructorDecl(Ctx)) { IO["fn"] = fnId(DD); fnRef(DD); }
            El.push_back(std::move(IO));
          }
        }
        BO2["e"] = std::move(El);
        if (B->hasNoReturnElement()) BO2["nr"] = 1;
        if (const Stmt *T = B->getTerminatorStmt()) {
          BO2["tk"] = T->getStmtClassName();
          if (auto *BOp = dyn_cast<BinaryOperator>(T)) BO2["top"] = BOp->getOpcodeStr().str();
          BO2["tn"] = nodeOf(T);
        }
        if (const Expr *Co = dyn_cast_or_null<Expr>(B->getTerminatorCondition(false))) {
          BO2["cond"] = nodeOf(Co);
          Expr::EvalResult R;
          if (!Co->isValueDependent() && Co->getType()->isIntegralOrEnumerationType() && Co->EvaluateAsInt(R, Ctx))
            BO2["cv"] = (int64_t)R.Val.getInt().getExtValue();
        }
        if (const Stmt *L = B->getLabel()) BO2["label"] = nodeOf(L);
        json::Array Su;
        for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
          const CFGBlock *SB = It->getReachableBlock();
          if (!SB) SB = It->getPossiblyUnreachableBlock();
          Su.push_back(SB ? (int64_t)SB->getBlockID() : (int64_t)-1);
        }
        BO2["s"] = std::move(Su);
        Bs.push_back(std::move(BO2));
      }
      CO["blocks"] = std::move(Bs);
      O["cfg"] = std::move(CO);
    }
    O["nodes"] = std::move(Nodes);
    J.value(json::Value(std::move(O)));
    for (auto *L : Lams) {
      if (L->isGenericLambda()) {
        if (auto *FT = L->getDependentCallOperator())
          for (auto *Sp : FT->specializations()) emitFunction(Sp);
      } else emitFunction(L->getCallOperator());
    }
  }

  struct Pat { std::string q; unsigned l; bool tmpl; bool body; };
  std::map<std::string, Pat> Patterns;
  std::set<const CXXRecordDecl *> Recs;
  std::vector<const CXXRecordDecl *> RecList;
  std::vector<const VarDecl *> Statics;
  std::set<const VarDecl *> StaticSet;
  std::vector<const EnumDecl *> Enums;

  bool VisitFunctionDecl(FunctionDecl *F) {
    const FunctionDecl *P = patternOf(F);
    if (inHeader(P->getLocation())) {
      if (!F->isTemplateInstantiation() && !F->isImplicit() && F->isThisDeclarationADefinition()) {
        bool Tm = F->isDependentContext() || F->getDescribedFunctionTemplate();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        Patterns[locStr(F->getLocation())] = Pat{qname(F), line(F->getLocation()), Tm, F->doesThisDeclarationHaveABody()};
      }
    }
    emitFunction(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) { return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext()) return true;
    const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
    if (!inHeader((P ? P : R)->getLocation())) return true;
    if (Recs.insert(R->getCanonicalDecl()).second) RecList.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->getType()->isDependentType()) return true;
    if (V->getDeclContext()->isDependentContext()) {
      return true;
    }
    SourceLocation L = V->getLocation();
    if (auto *P = V->getTemplateInstantiationPattern()) L = P->getLocation();
    if (!inHeader(L)) return true;
    if (StaticSet.insert(V->getCanonicalDecl()).second) Statics.push_back(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (inHeader(E->getLocation()) && E->isCompleteDefinition() && !E->isDependentContext()) Enums.push_back(E);
    return true;
  }

  void finish() {
    J.arrayEnd(); J.attributeEnd();
    // heads of referenced functions (callee table)
    J.attributeBegin("callees"); J.arrayBegin();
    for (size_t i = 0; i < RefdList.size(); i++) {
      json::Object O; fnHead(O, RefdList[i]); J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("records"); J.arrayBegin();
    for (auto *R : RecList) {
      json::Object O;
      O["name"] = recName(R); O["q"] = qname(R); O["line"] = (int64_t)line(R->getLocation());
      O["t"] = typeId(Ctx.getRecordType(R));
      O["lambda"] = R->isLambda();
      O["polymorphic"] = R->isPolymorphic();
      json::Array Bs; for (auto &B : R->bases()) Bs.push_back(typeId(B.getType()));
      O["bases"] = std::move(Bs);
      json::Array Fs;
      for (auto *F : R->fields()) {
        json::Object FO; FO["n"] = F->getNameAsString(); FO["t"] = typeId(F->getType()); FO["d"] = declId(F);
        FO["mut"] = F->isMutable(); FO["ini"] = F->hasInClassInitializer(); FO["acc"] = (int64_t)F->getAccess();
        FO["line"] = (int64_t)line(F->getLocation());
        Fs.push_back(std::move(FO));
      }
      O["fields"] = std::move(Fs);
      json::Array Ms;
      for (auto *M : R->methods()) { json::Object MO; fnHead(MO, M); Ms.push_back(std::move(MO)); }
      O["methods"] = std::move(Ms);
      O["defcopy"] = R->needsImplicitCopyConstructor() || R->hasSimpleCopyConstructor();
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("statics"); J.arrayBegin();
    for (auto *V : Statics) {
      json::Object O; O["d"] = declId(V); O["q"] = qname(V); O["line"] = (int64_t)line(V->getLocation());
      O["t"] = typeId(V->getType()); O["lk"] = (int64_t)V->getFormalLinkage(); O["local"] = V->isStaticLocal();
      O["const"] = V->getType().isConstQualified(); O["inl"] = V->isInline();
      if (V->isStaticLocal())
        if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) O["fn"] = fnId(F);
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("enums"); J.arrayBegin();
    for (auto *E : Enums) {
      json::Object O; O["q"] = qname(E); O["line"] = (int64_t)line(E->getLocation()); O["t"] = typeId(Ctx.getEnumType(E));
      json::Array A; for (auto *C : E->enumerators()) { json::Object CO; CO["n"] = C->getNameAsString(); CO["d"] = declId(C);
        llvm::SmallString<16> V; C->getInitVal().toString(V, 10); CO["v"] = V.str().str(); A.push_back(std::move(CO)); }
      O["e"] = std::move(A);
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("patterns"); J.arrayBegin();
    for (auto &P : Patterns) {
      json::Object O; O["pl"] = P.first; O["q"] = P.second.q; O["line"] = (int64_t)P.second.l; O["tmpl"] = P.second.tmpl; O["body"] = P.second.body;
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("decls"); J.arrayBegin();
    for (size_t i = 0; i < DeclList.size(); i++) {
      const ValueDecl *D = DeclList[i];
      json::Object O;
      O["n"] = D->getNameAsString();
      O["t"] = typeId(D->getType());
      O["l"] = (int64_t)line(D->getLocation());
      if (isa<ParmVarDecl>(D)) O["k"] = "param";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = V->hasGlobalStorage() ? (V->isStaticLocal() ? "slocal" : "global") : "local";
        if (V->hasGlobalStorage()) O["q"] = qname(V);
      } else if (auto *F = dyn_cast<FieldDecl>(D)) {
        O["k"] = "field"; O["mut"] = F->isMutable();
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) O["cls"] = recName(R);
      } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum"; O["q"] = qname(E);
        llvm::SmallString<16> V; E->getInitVal().toString(V, 10); O["v"] = V.str().str();
      }
      else if (isa<BindingDecl>(D)) O["k"] = "binding";
      else O["k"] = "other";
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("types"); J.arrayBegin();
    for (size_t i = 0; i < TypeList.size(); i++) {
      QualType T = TypeList[i];
      json::Object O; O["s"] = TypeStr[i];
      if (T->isReferenceType()) { O["k"] = T->isRValueReferenceType() ? "rref" : "ref"; O["p"] = typeId(T->getPointeeType()); O["pc"] = T->getPointeeType().isConstQualified(); }
      else if (T->isPointerType()) { O["k"] = "ptr"; O["p"] = typeId(T->getPointeeType()); O["pc"] = T->getPointeeType().isConstQualified(); }
      else if (T->isEnumeralType()) O["k"] = "enum";
      else if (T->isBooleanType()) O["k"] = "bool";
      else if (T->isRealFloatingType()) O["k"] = "float";
      else if (T->isIntegerType()) O["k"] = "int";
      else if (T->isRecordType()) {
        O["k"] = "rec";
        if (auto *R = T->getAsCXXRecordDecl()) { O["q"] = qname(R); O["u"] = T.getUnqualifiedType().getAsString(PP);
          if (auto *D = R->getDefinition()) { json::Array B; for (auto &Bs : D->bases()) if (!Bs.getType()->isDependentType()) B.push_back(typeId(Bs.getType())); O["b"] = std::move(B); O["triv"] = D->isTrivial(); }
          if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            json::Array A;
            auto add = [&](const TemplateArgument &X) { if (X.getKind() == TemplateArgument::Type && !X.getAsType()->isDependentType()) A.push_back(typeId(X.getAsType())); else if (X.getKind() == TemplateArgument::Integral) A.push_back("#" + std::to_string(X.getAsIntegral().getExtValue())); };
            for (auto &X : TS->getTemplateArgs().asArray()) { if (X.getKind() == TemplateArgument::Pack) for (auto &Y : X.pack_elements()) add(Y); else add(X); }
            O["a"] = std::move(A);
          }
        }
      } else if (T->isVoidType()) O["k"] = "void";
      else if (T->isArrayType()) { O["k"] = "arr"; O["p"] = typeId(QualType(T->getArrayElementTypeNoTypeQual(), 0)); }
      else O["k"] = "other";
      O["c"] = T.isConstQualified();
      J.value(json::Value(std::move(O)));
    }
    J.arrayEnd(); J.attributeEnd();
  }

  ASTContext &Ctx; SourceManager &SM; json::OStream &J; ASTNameGenerator NG; PrintingPolicy PP;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    g_errors = Ctx.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(g_out, EC);
    json::OStream J(OS);
    J.objectBegin();
    J.attribute("errors", (int64_t)g_errors);
    J.attributeBegin("functions"); J.arrayBegin();
    Extractor X(Ctx, J);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    X.finish();
    J.objectEnd();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  // h2dfacts OUT.json SRC [--also SUFFIX] -- flags
  std::string Src; std::vector<std::string> Flags; bool Fl = false;
  if (argc < 3) { llvm::errs() << "usage\n"; return 2; }
  g_out = argv[1]; Src = argv[2];
  for (int i = 3; i < argc; i++) {
    std::string A = argv[i];
    if (Fl) Flags.push_back(A);
    else if (A == "--") Fl = true;
    else if (A == "--also" && i + 1 < argc) g_also = argv[++i];
    else if (A == "--header" && i + 1 < argc) g_header = argv[++i];
  }
  Flags.push_back("-ferror-limit=0");
  Flags.push_back("-w");
  clang::tooling::FixedCompilationDatabase DB(".", Flags);
  clang::tooling::ClangTool T(DB, {Src});
  T.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return g_errors ? 3 : 0;
}
