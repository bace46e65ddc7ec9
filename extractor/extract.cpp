// Structured-IR extractor: parses one translation unit with clang and dumps
// every function body that lives under one of the given source roots (template
// instantiations and lambdas included) as JSON.  Purely syntactic + semantic
// analysis by the clang front end; nothing of the analysed code is executed.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;
static bool HadError = false;

namespace {

class Dumper
{
  public:
    ASTContext& C;
    SourceManager& SM;
    ASTNameGenerator NG;
    std::map<const Decl*, int> Ids;
    std::map<const Decl*, std::string> Keys;

    explicit Dumper(ASTContext& c)
        : C(c)
        , SM(c.getSourceManager())
        , NG(c)
    {
    }

    int id(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end())
            return it->second;
        int n = int(Ids.size()) + 1;
        Ids[D] = n;
        return n;
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        if (F.empty())
            return "";
        llvm::SmallString<256> P(F);
        SM.getFileManager().makeAbsolutePath(P);
        llvm::sys::path::remove_dots(P, true);
        return std::string(P);
    }
    int lineOf(SourceLocation L)
    {
        return int(SM.getExpansionLineNumber(L));
    }

    bool inRoots(const Decl* D)
    {
        auto F = fileOf(D->getLocation());
        for (auto& R : Roots)
            if (F.compare(0, R.size(), R) == 0)
                return true;
        return false;
    }

    std::string clsName(const CXXRecordDecl* R)
    {
        if (R->isLambda())
            return "lambda";
        return R->getQualifiedNameAsString();
    }

    std::string key(const FunctionDecl* F)
    {
        const FunctionDecl* Def = nullptr;
        if (F->hasBody(Def) && Def)
            F = Def;
        auto* Cn = F->getCanonicalDecl();
        auto it = Keys.find(Cn);
        if (it != Keys.end())
            return it->second;
        std::string K;
        bool local = false;
        for (const DeclContext* DC = F->getDeclContext(); DC; DC = DC->getParent())
            if (DC->isFunctionOrMethod())
                local = true;
            else if (auto* R = dyn_cast<CXXRecordDecl>(DC))
                if (R->isLambda())
                    local = true;
        if (!local)
            K = NG.getName(F);
        if (K.empty() || local)
        {
            K = "local#" + std::to_string(id(F)) + "@" +
                fileOf(F->getLocation()) + ":" +
                std::to_string(lineOf(F->getLocation()));
        }
        Keys[Cn] = K;
        return K;
    }

    std::string ty(QualType T)
    {
        if (T.isNull())
            return "?";
        T = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
        const Type* P = T.getTypePtr();
        if (P->isBooleanType())
            return "bool";
        if (P->isAnyCharacterType())
            return "char";
        if (auto* E = P->getAs<EnumType>())
            return "enum:" + E->getDecl()->getQualifiedNameAsString();
        if (P->isIntegerType())
            return (P->isUnsignedIntegerType() ? "u" : "i") +
                std::to_string(C.getTypeSize(T));
        if (P->isFloatingType())
            return "f" + std::to_string(C.getTypeSize(T));
        if (P->isVoidType())
            return "void";
        if (P->isPointerType())
            return "ptr";
        if (auto* R = P->getAsCXXRecordDecl())
            return "R:" + clsName(R);
        return "?";
    }

    // is the type a lazily evaluated expression that holds a random generator?
    bool lazyRandom(QualType T)
    {
        if (T.isNull())
            return false;
        std::string S =
            T.getCanonicalType().getNonReferenceType().getAsString();
        bool rnd = S.find("random_impl") != std::string::npos ||
            S.find("_distribution<") != std::string::npos;
        if (!rnd)
            return false;
        return S.find("xgenerator") != std::string::npos ||
            S.find("xfunction") != std::string::npos ||
            S.find("xview") != std::string::npos;
    }

    J::Value vardecl(const VarDecl* V)
    {
        J::Object O {{"id", id(V)}, {"n", V->getNameAsString()},
            {"t", ty(V->getType())}, {"l", lineOf(V->getLocation())}};
        if (V->getType()->isReferenceType())
            O["ref"] = V->getType()->isRValueReferenceType() ? "&&" : "&";
        QualType U = V->getType().getNonReferenceType();
        if (U.isConstQualified())
            O["const"] = true;
        if (V->isStaticLocal())
            O["static"] = true;
        if (lazyRandom(V->getType()))
            O["rnd"] = true;
        return O;
    }

    J::Value fn(const FunctionDecl* F)
    {
        J::Object O {{"key", key(F)}, {"qn", F->getQualifiedNameAsString()},
            {"name", F->getNameAsString()},
            {"file", fileOf(F->getLocation())},
            {"line", lineOf(F->getLocation())},
            {"ret", ty(F->getReturnType())},
            {"retref", F->getReturnType()->isReferenceType()}};
        J::Array Ps;
        for (auto* P : F->parameters())
            Ps.push_back(vardecl(P));
        O["params"] = std::move(Ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            O["cls"] = clsName(M->getParent());
            O["const"] = M->isConst();
            O["static"] = M->isStatic();
            if (M->getParent()->isLambda())
                O["lambda"] = true;
        }
        if (auto* A = F->getTemplateSpecializationArgs())
        {
            std::string S;
            llvm::raw_string_ostream OS(S);
            for (unsigned i = 0; i < A->size(); ++i)
            {
                if (i)
                    OS << ", ";
                A->get(i).print(C.getPrintingPolicy(), OS, true);
            }
            OS.flush();
            if (S.size() > 300)
                S.resize(300);
            O["targs"] = S;
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F))
        {
            J::Array I;
            for (auto* X : K->inits())
            {
                J::Object Q;
                if (X->isAnyMemberInitializer())
                    Q["field"] = X->getAnyMember()->getNameAsString();
                else if (X->isBaseInitializer())
                    Q["base"] = ty(QualType(X->getBaseClass(), 0));
                else
                    Q["delegate"] = true;
                if (X->isAnyMemberInitializer() && X->getAnyMember()->getType()->isReferenceType())
                    Q["ref"] = true;
                Q["e"] = E(X->getInit());
                I.push_back(std::move(Q));
            }
            O["inits"] = std::move(I);
        }
        O["body"] = S(F->getBody());
        return O;
    }

    J::Object node(const char* k, const Stmt* S)
    {
        J::Object O {{"k", k}};
        if (S)
            O["l"] = lineOf(S->getBeginLoc());
        return O;
    }

    J::Object exprNode(const char* k, const Expr* X)
    {
        auto O = node(k, X);
        O["t"] = ty(X->getType());
        return O;
    }

    J::Array args(llvm::ArrayRef<const Expr*> A)
    {
        J::Array R;
        for (auto* X : A)
            R.push_back(E(X));
        return R;
    }
    template <typename It>
    J::Array argsRange(It b, It e)
    {
        J::Array R;
        for (; b != e; ++b)
            R.push_back(E(*b));
        return R;
    }

    void callee(J::Object& O, const FunctionDecl* F)
    {
        O["fn"] = key(F);
        O["qn"] = F->getQualifiedNameAsString();
        O["name"] = F->getNameAsString();
        if (F->isNoReturn())
            O["noret"] = true;
        const FunctionDecl* Def = nullptr;
        bool hb = F->hasBody(Def);
        if (!hb && F->getTemplateInstantiationPattern())
            hb = F->getTemplateInstantiationPattern()->hasBody(Def);
        const Decl* L = F;
        if (F->getTemplateInstantiationPattern())
            L = F->getTemplateInstantiationPattern();
        if (inRoots(L))
            O["repo"] = true;
        if (F->isDefaulted())
            O["defaulted"] = true;
        J::Array PR;
        for (auto* P : F->parameters())
        {
            auto T = P->getType();
            if (T->isReferenceType())
                PR.push_back(T.getNonReferenceType().isConstQualified()
                        ? "cr"
                        : (T->isRValueReferenceType() ? "rr" : "r"));
            else
                PR.push_back("v");
        }
        O["pr"] = std::move(PR);
        O["retref"] = F->getReturnType()->isReferenceType();
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            O["cls"] = clsName(M->getParent());
            O["mconst"] = M->isConst();
            if (M->isStatic())
                O["mstatic"] = true;
            if (M->getParent()->isLambda())
                O["lambda"] = true;
        }
        if (auto* A = F->getTemplateSpecializationArgs())
        {
            // integral template arguments (std::get<I>)
            J::Array TA;
            for (unsigned i = 0; i < A->size(); ++i)
                if (A->get(i).getKind() == TemplateArgument::Integral &&
                    A->get(i).getAsIntegral().isRepresentableByInt64())
                    TA.push_back(A->get(i).getAsIntegral().getExtValue());
            if (!TA.empty())
                O["ti"] = std::move(TA);
        }
    }

    static bool isAssertFail(const Expr* X)
    {
        X = X->IgnoreParenImpCasts();
        if (auto* Ca = dyn_cast<CallExpr>(X))
            if (auto* F = Ca->getDirectCallee())
                if (F->getIdentifier() &&
                    F->getName().starts_with("__assert"))
                    return true;
        return false;
    }

    J::Value E(const Expr* X)
    {
        if (!X)
            return nullptr;
        if (auto* P = dyn_cast<ParenExpr>(X))
            return E(P->getSubExpr());
        if (auto* P = dyn_cast<FullExpr>(X)) // ExprWithCleanups, ConstantExpr
            return E(P->getSubExpr());
        if (auto* P = dyn_cast<MaterializeTemporaryExpr>(X))
            return E(P->getSubExpr());
        if (auto* P = dyn_cast<CXXBindTemporaryExpr>(X))
            return E(P->getSubExpr());
        if (auto* P = dyn_cast<CXXDefaultArgExpr>(X))
            return E(P->getExpr());
        if (auto* P = dyn_cast<CXXDefaultInitExpr>(X))
            return E(P->getExpr());
        if (auto* P = dyn_cast<CXXStdInitializerListExpr>(X))
            return E(P->getSubExpr());
        if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(X))
            return E(P->getReplacement());
        if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(X))
            return E(P->getSemanticForm());
        if (auto* P = dyn_cast<ArrayInitLoopExpr>(X))
            return E(P->getCommonExpr());
        if (auto* P = dyn_cast<OpaqueValueExpr>(X))
            return E(P->getSourceExpr());
        if (auto* P = dyn_cast<IntegerLiteral>(X))
        {
            auto O = exprNode("int", X);
            llvm::SmallString<32> S;
            P->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
            O["v"] = std::string(S);
            return O;
        }
        if (auto* P = dyn_cast<FloatingLiteral>(X))
        {
            auto O = exprNode("float", X);
            llvm::SmallString<64> S;
            P->getValue().toString(S, 0, 0);
            O["v"] = std::string(S);
            return O;
        }
        if (auto* P = dyn_cast<CXXBoolLiteralExpr>(X))
        {
            auto O = exprNode("bool", X);
            O["v"] = P->getValue();
            return O;
        }
        if (auto* P = dyn_cast<CharacterLiteral>(X))
        {
            auto O = exprNode("char", X);
            O["v"] = int(P->getValue());
            return O;
        }
        if (auto* P = dyn_cast<clang::StringLiteral>(X))
        {
            auto O = exprNode("str", X);
            O["v"] = P->getCharByteWidth() == 1 ? P->getString().str()
                                                : std::string("?");
            return O;
        }
        if (auto* P = dyn_cast<DeclRefExpr>(X))
        {
            auto* D = P->getDecl();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D))
            {
                auto O = exprNode("enum", X);
                O["n"] = EC->getNameAsString();
                O["v"] = EC->getInitVal().getExtValue();
                return O;
            }
            auto O = exprNode("ref", X);
            O["id"] = id(D);
            O["n"] = D->getNameAsString();
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                if (isa<ParmVarDecl>(V))
                    O["dk"] = "param";
                else if (V->hasGlobalStorage())
                {
                    O["dk"] = V->isStaticLocal() ? "static" : "global";
                    O["qn"] = V->getQualifiedNameAsString();
                    if (V->getType().isConstQualified() && V->hasInit() &&
                        !V->getInit()->isValueDependent())
                    {
                        if (auto* AV = V->evaluateValue())
                        {
                            if (AV->isInt())
                            {
                                llvm::SmallString<32> S;
                                AV->getInt().toString(S, 10);
                                O["cv"] = std::string(S);
                            }
                            else if (AV->isFloat())
                            {
                                llvm::SmallString<64> S;
                                AV->getFloat().toString(S, 0, 0);
                                O["cv"] = std::string(S);
                            }
                        }
                    }
                }
                else
                    O["dk"] = "var";
            }
            else if (isa<BindingDecl>(D))
                O["dk"] = "bind";
            else if (auto* F = dyn_cast<FunctionDecl>(D))
            {
                O["dk"] = "fn";
                callee(O, F);
            }
            else
                O["dk"] = "other";
            return O;
        }
        if (auto* P = dyn_cast<MemberExpr>(X))
        {
            auto* D = P->getMemberDecl();
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                auto O = exprNode("ref", X);
                O["id"] = id(D);
                O["n"] = D->getNameAsString();
                O["dk"] = "global";
                O["qn"] = V->getQualifiedNameAsString();
                return O;
            }
            auto O = exprNode("mem", X);
            O["n"] = D->getNameAsString();
            if (auto* Fd = dyn_cast<FieldDecl>(D))
            {
                if (auto* R = dyn_cast<CXXRecordDecl>(Fd->getParent()))
                    O["cls"] = clsName(R);
                if (Fd->isMutable())
                    O["mutable"] = true;
            }
            O["o"] = E(P->getBase());
            if (P->isArrow())
                O["arrow"] = true;
            return O;
        }
        if (isa<CXXThisExpr>(X))
            return exprNode("this", X);
        if (auto* P = dyn_cast<UnaryOperator>(X))
        {
            auto O = exprNode("un", X);
            O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
            if (P->isPostfix())
                O["post"] = true;
            O["a"] = E(P->getSubExpr());
            return O;
        }
        if (auto* P = dyn_cast<CompoundAssignOperator>(X))
        {
            auto O = exprNode("casg", X);
            auto Op = BinaryOperator::getOpForCompoundAssignment(P->getOpcode());
            O["op"] = BinaryOperator::getOpcodeStr(Op).str();
            O["ct"] = ty(P->getComputationResultType());
            O["a"] = E(P->getLHS());
            O["b"] = E(P->getRHS());
            return O;
        }
        if (auto* P = dyn_cast<BinaryOperator>(X))
        {
            auto O = exprNode(P->isAssignmentOp() ? "asg" : "bin", X);
            O["op"] = P->getOpcodeStr().str();
            O["a"] = E(P->getLHS());
            O["b"] = E(P->getRHS());
            return O;
        }
        if (auto* P = dyn_cast<ConditionalOperator>(X))
        {
            if (isAssertFail(P->getFalseExpr()))
            {
                auto O = exprNode("assert", X);
                O["c"] = E(P->getCond());
                return O;
            }
            auto O = exprNode("cond", X);
            O["c"] = E(P->getCond());
            O["a"] = E(P->getTrueExpr());
            O["b"] = E(P->getFalseExpr());
            return O;
        }
        if (auto* P = dyn_cast<LambdaExpr>(X))
        {
            auto O = exprNode("lambda", X);
            O["op"] = key(P->getCallOperator());
            J::Array Cs;
            for (auto& Cp : P->captures())
            {
                if (Cp.capturesThis())
                {
                    O["this"] = Cp.getCaptureKind() == LCK_This ? "ptr" : "copy";
                    continue;
                }
                if (!Cp.capturesVariable())
                    continue;
                J::Object Q {{"id", id(Cp.getCapturedVar())},
                    {"n", Cp.getCapturedVar()->getNameAsString()},
                    {"byref", Cp.getCaptureKind() == LCK_ByRef}};
                if (auto* CV = dyn_cast<VarDecl>(Cp.getCapturedVar()))
                    if (CV->isInitCapture())
                        Q["init"] = E(CV->getInit());
                Cs.push_back(std::move(Q));
            }
            O["caps"] = std::move(Cs);
            O["cid"] = id(P->getLambdaClass());
            return O;
        }
        if (auto* P = dyn_cast<CXXOperatorCallExpr>(X))
        {
            auto O = exprNode("call", X);
            if (auto* F = P->getDirectCallee())
            {
                callee(O, F);
                auto* M = dyn_cast<CXXMethodDecl>(F);
                O["oper"] = getOperatorSpelling(P->getOperator());
                if (P->getOperator() == OO_PlusPlus || P->getOperator() == OO_MinusMinus)
                    if (P->getNumArgs() == 2)
                        O["post"] = true;
                if (M && !M->isStatic())
                {
                    O["o"] = E(P->getArg(0));
                    O["args"] = argsRange(P->arg_begin() + 1, P->arg_end());
                }
                else
                    O["args"] = argsRange(P->arg_begin(), P->arg_end());
            }
            else
                O["args"] = argsRange(P->arg_begin(), P->arg_end());
            return O;
        }
        if (auto* P = dyn_cast<CXXMemberCallExpr>(X))
        {
            auto O = exprNode("call", X);
            if (auto* F = P->getMethodDecl())
                callee(O, F);
            if (auto* IO = P->getImplicitObjectArgument())
                O["o"] = E(IO);
            O["args"] = argsRange(P->arg_begin(), P->arg_end());
            return O;
        }
        if (auto* P = dyn_cast<CallExpr>(X))
        {
            auto O = exprNode("call", X);
            if (auto* F = P->getDirectCallee())
                callee(O, F);
            else
                O["ce"] = E(P->getCallee());
            O["args"] = argsRange(P->arg_begin(), P->arg_end());
            return O;
        }
        if (auto* P = dyn_cast<CXXConstructExpr>(X))
        {
            auto O = exprNode("ctor", X);
            auto* K = P->getConstructor();
            callee(O, K);
            if (K->isCopyConstructor())
                O["copy"] = true;
            if (K->isMoveConstructor())
                O["move"] = true;
            if (P->isListInitialization())
                O["list"] = true;
            if (P->isElidable())
                O["elide"] = true;
            if (lazyRandom(P->getType()))
                O["rnd"] = true;
            O["args"] = argsRange(P->arg_begin(), P->arg_end());
            return O;
        }
        if (auto* P = dyn_cast<CXXInheritedCtorInitExpr>(X))
        {
            auto O = exprNode("ctor", X);
            callee(O, P->getConstructor());
            O["inherited"] = true;
            O["args"] = J::Array {};
            return O;
        }
        if (auto* P = dyn_cast<InitListExpr>(X))
        {
            if (P->isSemanticForm() == false && P->getSemanticForm())
                P = P->getSemanticForm();
            if (P->isTransparent() && P->getNumInits() == 1)
                return E(P->getInit(0));
            auto O = exprNode("init", X);
            J::Array A, Fs;
            for (auto* I : P->inits())
                A.push_back(E(I));
            if (auto* R = P->getType()->getAsCXXRecordDecl())
            {
                for (auto& B : R->bases())
                {
                    (void)B;
                    Fs.push_back("<base>");
                }
                J::Array Rf;
                for (auto* Fd : R->fields())
                {
                    if (Fd->getType()->isReferenceType())
                        Rf.push_back(Fd->getNameAsString());
                    Fs.push_back(Fd->getNameAsString());
                }
                O["fields"] = std::move(Fs);
                if (!Rf.empty())
                    O["rfields"] = std::move(Rf);
            }
            O["e"] = std::move(A);
            return O;
        }
        if (auto* P = dyn_cast<ImplicitValueInitExpr>(X))
            return exprNode("zero", P);
        if (auto* P = dyn_cast<CXXScalarValueInitExpr>(X))
            return exprNode("zero", P);
        if (auto* P = dyn_cast<CastExpr>(X))
        {
            auto CK = P->getCastKind();
            const char* n = nullptr;
            switch (CK)
            {
                case CK_IntegralToFloating: n = "i2f"; break;
                case CK_FloatingToIntegral: n = "f2i"; break;
                case CK_IntegralCast: n = "i2i"; break;
                case CK_FloatingCast: n = "f2f"; break;
                case CK_IntegralToBoolean: n = "i2b"; break;
                case CK_FloatingToBoolean: n = "f2b"; break;
                case CK_PointerToBoolean: n = "p2b"; break;
                case CK_ToVoid: n = "void"; break;
                default: break;
            }
            if (!n)
                return E(P->getSubExpr());
            auto O = exprNode("cast", X);
            O["c"] = n;
            O["ft"] = ty(P->getSubExpr()->getType());
            O["a"] = E(P->getSubExpr());
            return O;
        }
        if (auto* P = dyn_cast<ArraySubscriptExpr>(X))
        {
            auto O = exprNode("idx", X);
            O["a"] = E(P->getBase());
            O["b"] = E(P->getIdx());
            return O;
        }
        if (auto* P = dyn_cast<CXXThrowExpr>(X))
        {
            auto O = exprNode("throw", X);
            if (P->getSubExpr())
                O["a"] = E(P->getSubExpr());
            return O;
        }
        {
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() &&
                X->EvaluateAsInt(R, C))
            {
                auto O = exprNode("int", X);
                llvm::SmallString<32> S;
                R.Val.getInt().toString(S, 10);
                O["v"] = std::string(S);
                return O;
            }
        }
        auto O = exprNode("unk", X);
        O["cn"] = X->getStmtClassName();
        J::Array Ch;
        for (auto* S : X->children())
            if (auto* Y = dyn_cast_or_null<Expr>(S))
                Ch.push_back(E(Y));
        O["ch"] = std::move(Ch);
        return O;
    }

    J::Value declStmt(const Decl* D)
    {
        if (auto* DD = dyn_cast<DecompositionDecl>(D))
        {
            J::Object O {{"k", "bind"}, {"l", lineOf(D->getLocation())}};
            O["v"] = vardecl(DD);
            J::Array B;
            for (auto* X : DD->bindings())
            {
                J::Object Q {{"id", id(X)}, {"n", X->getNameAsString()},
                    {"t", ty(X->getType())}};
                // field name for plain aggregates
                if (auto* BE = X->getBinding())
                    if (auto* M = dyn_cast<MemberExpr>(BE->IgnoreParenImpCasts()))
                        Q["field"] = M->getMemberDecl()->getNameAsString();
                B.push_back(std::move(Q));
            }
            O["b"] = std::move(B);
            O["e"] = E(DD->getInit());
            return O;
        }
        if (auto* V = dyn_cast<VarDecl>(D))
        {
            J::Object O {{"k", "var"}, {"l", lineOf(D->getLocation())}};
            O["v"] = vardecl(V);
            if (V->hasInit())
                O["e"] = E(V->getInit());
            return O;
        }
        return J::Object {{"k", "null"}};
    }

    J::Value S(const Stmt* X)
    {
        if (!X)
            return nullptr;
        if (auto* P = dyn_cast<CompoundStmt>(X))
        {
            auto O = node("block", X);
            J::Array A;
            for (auto* Y : P->body())
                A.push_back(S(Y));
            O["s"] = std::move(A);
            return O;
        }
        if (auto* P = dyn_cast<DeclStmt>(X))
        {
            J::Array A;
            for (auto* D : P->decls())
                A.push_back(declStmt(D));
            if (A.size() == 1)
                return std::move(A[0]);
            auto O = node("decls", X);
            O["s"] = std::move(A);
            return O;
        }
        if (auto* P = dyn_cast<IfStmt>(X))
        {
            auto O = node("if", X);
            if (P->getInit())
                O["init"] = S(P->getInit());
            if (P->getConditionVariableDeclStmt())
                O["cv"] = S(P->getConditionVariableDeclStmt());
            if (P->isConstexpr())
                O["constexpr"] = true;
            O["c"] = E(P->getCond());
            O["a"] = S(P->getThen());
            if (P->getElse())
                O["b"] = S(P->getElse());
            return O;
        }
        if (auto* P = dyn_cast<ForStmt>(X))
        {
            auto O = node("for", X);
            O["init"] = S(P->getInit());
            O["c"] = E(P->getCond());
            O["inc"] = E(P->getInc());
            O["body"] = S(P->getBody());
            return O;
        }
        if (auto* P = dyn_cast<WhileStmt>(X))
        {
            auto O = node("while", X);
            if (P->getConditionVariableDeclStmt())
                O["cv"] = S(P->getConditionVariableDeclStmt());
            O["c"] = E(P->getCond());
            O["body"] = S(P->getBody());
            return O;
        }
        if (auto* P = dyn_cast<DoStmt>(X))
        {
            auto O = node("do", X);
            O["c"] = E(P->getCond());
            O["body"] = S(P->getBody());
            return O;
        }
        if (auto* P = dyn_cast<CXXForRangeStmt>(X))
        {
            auto O = node("rfor", X);
            O["range"] = E(P->getRangeInit());
            O["v"] = S(P->getLoopVarStmt());
            O["body"] = S(P->getBody());
            if (P->getRangeStmt() && P->getBeginStmt() && P->getEndStmt() &&
                P->getCond() && P->getInc())
            {
                O["rg"] = S(P->getRangeStmt());
                O["bg"] = S(P->getBeginStmt());
                O["en"] = S(P->getEndStmt());
                O["cd"] = E(P->getCond());
                O["ic"] = E(P->getInc());
            }
            return O;
        }
        if (auto* P = dyn_cast<ReturnStmt>(X))
        {
            auto O = node("return", X);
            if (P->getRetValue())
                O["e"] = E(P->getRetValue());
            return O;
        }
        if (isa<BreakStmt>(X))
            return node("break", X);
        if (isa<ContinueStmt>(X))
            return node("continue", X);
        if (isa<NullStmt>(X))
            return node("null", X);
        if (auto* P = dyn_cast<SwitchStmt>(X))
        {
            auto O = node("switch", X);
            if (P->getInit())
                O["init"] = S(P->getInit());
            if (P->getConditionVariableDeclStmt())
                O["cv"] = S(P->getConditionVariableDeclStmt());
            O["c"] = E(P->getCond());
            O["body"] = S(P->getBody());
            return O;
        }
        if (auto* P = dyn_cast<CaseStmt>(X))
        {
            auto O = node("case", X);
            O["v"] = E(P->getLHS());
            if (P->getRHS())
                O["v2"] = E(P->getRHS());
            O["s"] = S(P->getSubStmt());
            return O;
        }
        if (auto* P = dyn_cast<DefaultStmt>(X))
        {
            auto O = node("default", X);
            O["s"] = S(P->getSubStmt());
            return O;
        }
        if (auto* P = dyn_cast<AttributedStmt>(X))
            return S(P->getSubStmt());
        if (auto* P = dyn_cast<LabelStmt>(X))
            return S(P->getSubStmt());
        if (auto* P = dyn_cast<Expr>(X))
        {
            auto O = node("expr", X);
            O["e"] = E(P);
            return O;
        }
        auto O = node("unk", X);
        O["cn"] = X->getStmtClassName();
        return O;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
  public:
    Dumper& D;
    J::Array Fns;
    J::Array Globals;
    J::Array Records;
    std::set<const Decl*> Seen;
    explicit Visitor(Dumper& d)
        : D(d)
    {
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (!F->isThisDeclarationADefinition() || !F->hasBody())
            return true;
        if (F->isDependentContext() || F->isTemplated())
            return true;
        const Decl* L = F;
        if (F->getTemplateInstantiationPattern())
            L = F->getTemplateInstantiationPattern();
        if (!D.inRoots(L))
            return true;
        if (F->isDefaulted() || F->isImplicit())
            return true;
        if (!Seen.insert(F->getCanonicalDecl()).second)
            return true;
        Fns.push_back(D.fn(F));
        return true;
    }

    bool VisitLambdaExpr(LambdaExpr* L)
    {
        auto* F = L->getCallOperator();
        auto add = [&](FunctionDecl* G)
        {
            if (!G || !G->hasBody() || G->isDependentContext())
                return;
            if (!D.inRoots(L->getCallOperator()))
                return;
            if (!Seen.insert(G->getCanonicalDecl()).second)
                return;
            Fns.push_back(D.fn(G));
        };
        if (auto* T = F->getDescribedFunctionTemplate())
        {
            for (auto* Sp : T->specializations())
            {
                add(Sp);
                if (Sp->hasBody() && !Sp->isDependentContext())
                    TraverseStmt(Sp->getBody());
            }
        }
        else
            add(F);
        return true;
    }

    // -- objects with static storage duration: how they are initialised and used

    // does the initialiser read something that differs between calls (a
    // parameter, *this, a local that does)?
    static bool perCall(const Stmt* S, std::set<const VarDecl*>& Busy)
    {
        if (!S)
            return false;
        if (isa<CXXThisExpr>(S))
            return true;
        if (auto* L = dyn_cast<LambdaExpr>(S))
        {
            for (auto* E : L->capture_inits())
                if (E && perCall(E, Busy))
                    return true;
            return false;
        }
        if (auto* R = dyn_cast<DeclRefExpr>(S))
        {
            auto* V = dyn_cast<VarDecl>(R->getDecl());
            if (V && isa<ParmVarDecl>(V))
                return true;
            if (V && V->hasLocalStorage())
            {
                if (!V->getType().isConstQualified() || !V->hasInit())
                    return true;
                if (Busy.insert(V).second && perCall(V->getInit(), Busy))
                    return true;
            }
        }
        for (auto* C : S->children())
            if (perCall(C, Busy))
                return true;
        return false;
    }
    struct Use
    {
        int uses {0}, reads {0}, binds {0};
        int wline {0};
    };
    std::map<const Decl*, Use> Uses;
    std::set<const Stmt*> Harmless, Bind;

    static const Expr* base(const Expr* E)
    {
        for (;;)
        {
            E = E->IgnoreParens();
            if (auto* M = dyn_cast<MemberExpr>(E))
            {
                if (M->isArrow() || isa<VarDecl>(M->getMemberDecl()))
                    return E;
                E = M->getBase();
            }
            else if (auto* A = dyn_cast<ArraySubscriptExpr>(E))
            {
                auto* B = A->getBase()->IgnoreParens();
                auto* C = dyn_cast<ImplicitCastExpr>(B);
                if (!C || C->getCastKind() != CK_ArrayToPointerDecay)
                    return E;
                E = C->getSubExpr();
            }
            else if (auto* C = dyn_cast<ImplicitCastExpr>(E);
                     C && (C->getCastKind() == CK_UncheckedDerivedToBase ||
                              C->getCastKind() == CK_DerivedToBase ||
                              (C->getCastKind() == CK_NoOp && !C->getType().isConstQualified())))
                E = C->getSubExpr();
            else
                return E;
        }
    }
    bool VisitImplicitCastExpr(ImplicitCastExpr* C)
    {
        bool R = C->getCastKind() == CK_LValueToRValue ||
            (C->getCastKind() == CK_NoOp && C->getType().isConstQualified());
        if (R)
            Harmless.insert(base(C->getSubExpr()));
        return true;
    }
    bool VisitCXXForRangeStmt(CXXForRangeStmt* S)
    {
        if (S->getRangeInit())
            Bind.insert(base(S->getRangeInit()));
        return true;
    }
    bool use(const Expr* E, const ValueDecl* D0)
    {
        auto* V = dyn_cast_or_null<VarDecl>(D0);
        if (!V || isa<ParmVarDecl>(V) || !V->hasGlobalStorage() || !D.inRoots(V))
            return true;
        auto& U = Uses[V->getCanonicalDecl()];
        ++U.uses;
        if (Harmless.count(E))
            ++U.reads;
        else if (Bind.count(E))
            ++U.binds;
        else
            U.wline = D.lineOf(E->getExprLoc());
        return true;
    }
    bool VisitDeclRefExpr(DeclRefExpr* E) { return use(E, E->getDecl()); }
    bool VisitMemberExpr(MemberExpr* E) { return use(E, E->getMemberDecl()); }

    std::vector<VarDecl*> Statics;
    std::set<const Decl*> SeenV;
    bool VisitVarDecl(VarDecl* V)
    {
        if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V))
            return true;
        if (!D.inRoots(V))
            return true;
        if (SeenV.insert(V->getCanonicalDecl()).second)
            Statics.push_back(V);
        return true;
    }
    void finish()
    {
        for (auto* V : Statics)
        {
            auto T = V->getType();
            bool Dep = V->getDeclContext()->isDependentContext() || T->isDependentType();
            J::Object O {{"n", V->getQualifiedNameAsString()},
                {"file", D.fileOf(V->getLocation())},
                {"line", D.lineOf(V->getLocation())}, {"dep", Dep},
                {"t", Dep ? std::string("dep") : D.ty(T)},
                {"const", T.isConstQualified() || V->isConstexpr()},
                {"local", V->isStaticLocal()},
                {"member", V->isStaticDataMember()},
                {"tls", V->getTLSKind() != VarDecl::TLS_None}};
            if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext()))
                O["fn"] = F->getQualifiedNameAsString();
            std::set<const VarDecl*> Busy;
            O["percall"] = V->isStaticLocal() && V->hasInit() && perCall(V->getInit(), Busy);
            if (auto* R = T.getNonReferenceType()->getAsCXXRecordDecl(); R && R->hasDefinition())
                O["mutable"] = R->hasMutableFields();
            auto& U = Uses[V->getCanonicalDecl()];
            O["uses"] = U.uses;
            O["reads"] = U.reads;
            O["binds"] = U.binds;
            O["wline"] = U.wline;
            Globals.push_back(std::move(O));
        }
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
            R->isLambda())
            return true;
        const Decl* L = R;
        if (auto* P = R->getTemplateInstantiationPattern())
            L = P;
        if (!D.inRoots(L))
            return true;
        if (!Seen.insert(R->getCanonicalDecl()).second)
            return true;
        J::Object O {{"n", R->getQualifiedNameAsString()},
            {"file", D.fileOf(L->getLocation())},
            {"line", D.lineOf(L->getLocation())}};
        J::Array Fs, Bs;
        for (auto* F : R->fields())
        {
            J::Object Q {{"n", F->getNameAsString()}, {"t", D.ty(F->getType())},
                {"l", D.lineOf(F->getLocation())}};
            if (F->getType()->isReferenceType())
                Q["ref"] = true;
            if (F->getType().isConstQualified())
                Q["const"] = true;
            if (F->isMutable())
                Q["mutable"] = true;
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                Q["e"] = D.E(F->getInClassInitializer());
            Fs.push_back(std::move(Q));
        }
        for (auto& B : R->bases())
            Bs.push_back(D.ty(B.getType()));
        O["fields"] = std::move(Fs);
        O["bases"] = std::move(Bs);
        Records.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer
{
  public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            HadError = true;
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        V.finish();
        J::Object Top;
        Top["functions"] = std::move(V.Fns);
        Top["globals"] = std::move(V.Globals);
        Top["records"] = std::move(V.Records);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutFile, EC);
        OS << J::Value(std::move(Top));
    }
};

class Action : public ASTFrontendAction
{
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(
        CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
} // namespace

// usage: extract OUT.json FILE ROOT[,ROOT...] -- compiler flags
int main(int argc, char** argv)
{
    if (argc < 5)
        return 64;
    OutFile = argv[1];
    std::string File = argv[2];
    std::string R = argv[3];
    size_t p = 0;
    while (p <= R.size())
    {
        auto q = R.find(',', p);
        if (q == std::string::npos)
            q = R.size();
        Roots.push_back(R.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> Flags;
    for (int i = 5; i < argc; ++i)
        Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, {File});
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    if (rc != 0 || HadError)
        return 3;
    return 0;
}
