// cxx2ir: mechanical extraction of the typed AST of the functions defined below a source root.
//
// Usage: cxx2ir <root> <tu.cpp> -- <compiler flags>
// Prints one JSON object: {"functions":[...],"records":[...],"enums":[...],"globals":[...]}.
// Only syntax without semantics is dropped (parentheses, temporaries' materialisation,
// cleanups, attributes); every expression keeps the type and the overload clang resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;

namespace {

class Emitter {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::map<const Decl *, int> ids;
    std::set<const CXXRecordDecl *> records;
    std::set<const EnumDecl *> enums;
    std::vector<const CXXRecordDecl *> recordOrder;
    std::set<const Decl *> pendingLambdas;
    std::vector<const FunctionDecl *> lambdaBodies;

    explicit Emitter(ASTContext &C)
        : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), MC(C.createMangleContext()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
    }

    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end()) {
            return it->second;
        }
        int n = static_cast<int>(ids.size()) + 1;
        ids[D] = n;
        return n;
    }

    std::string type(QualType T) {
        if (T.isNull()) {
            return "?";
        }
        noteType(T);
        return T.getCanonicalType().getAsString(PP);
    }

    void noteType(QualType T) {
        T = T.getCanonicalType();
        if (T->isReferenceType() || T->isPointerType()) {
            T = T->getPointeeType();
        }
        if (const CXXRecordDecl *R = T->getAsCXXRecordDecl()) {
            note(R);
        }
        if (const auto *ET = T->getAs<EnumType>()) {
            enums.insert(ET->getDecl());
        }
    }

    void note(const CXXRecordDecl *R) {
        R = R->getDefinition();
        if (R == nullptr || R->isDependentContext()) {
            return;
        }
        if (records.insert(R).second) {
            recordOrder.push_back(R);
        }
    }

    std::string loc(SourceLocation L) {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) {
            return "?";
        }
        return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }
    int line(SourceLocation L) {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isInvalid() ? 0 : static_cast<int>(P.getLine());
    }

    std::string mangle(const FunctionDecl *F) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (const auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
        } else if (const auto *DD = dyn_cast<CXXDestructorDecl>(F)) {
            MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
        } else if (MC->shouldMangleDeclName(F)) {
            MC->mangleName(GlobalDecl(F), os);
        } else {
            os << F->getNameAsString();
        }
        return os.str();
    }

    std::string qual(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P = PP;
        D->printQualifiedName(os, P);
        return os.str();
    }

    Array targs(const FunctionDecl *F) {
        Array A;
        if (const TemplateArgumentList *L = F->getTemplateSpecializationArgs()) {
            for (const TemplateArgument &T : L->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                T.print(PP, os, true);
                A.push_back(os.str());
            }
        }
        return A;
    }

    Value callee(const FunctionDecl *F) {
        Object O;
        O["q"] = qual(F);
        O["name"] = F->getNameAsString();
        O["m"] = mangle(F);
        O["ret"] = type(F->getReturnType());
        Array P;
        for (const ParmVarDecl *V : F->parameters()) {
            P.push_back(type(V->getType()));
        }
        O["ptypes"] = std::move(P);
        Array TA = targs(F);
        if (!TA.empty()) {
            O["targs"] = std::move(TA);
        }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = type(C.getRecordType(M->getParent()));
            if (M->isStatic()) {
                O["static"] = true;
            }
            if (M->isVirtual()) {
                O["virtual"] = true;
            }
            if (M->isDefaulted() || M->isImplicit()) {
                O["defaulted"] = true;
            }
        }
        return Value(std::move(O));
    }

    Value ap(const APValue &V) {
        if (V.isInt()) {
            llvm::SmallString<32> s;
            V.getInt().toString(s, 10);
            return Value(Object{{"i", s.str().str()}});
        }
        if (V.isFloat()) {
            llvm::SmallString<64> s;
            V.getFloat().toString(s, 800, 0, false);
            return Value(Object{{"f", s.str().str()}});
        }
        return Value(nullptr);
    }

    Value stmtOrNull(const Stmt *S) {
        if (S == nullptr) {
            return Value(nullptr);
        }
        return stmt(S);
    }

    Value vardecl(const VarDecl *V) {
        Object O;
        O["id"] = id(V);
        O["name"] = V->getNameAsString();
        O["type"] = type(V->getType());
        if (V->getInit() != nullptr && !V->isExceptionVariable() && !V->isCXXForRangeDecl()) {
            O["init"] = stmt(V->getInit());
        }
        if (V->isStaticLocal()) {
            O["static"] = true;
        }
        if (V->getTLSKind() != VarDecl::TLS_None) {
            O["tls"] = true;
        }
        if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (const BindingDecl *BD : DD->bindings()) {
                Object bo;
                bo["id"] = id(BD);
                bo["name"] = BD->getNameAsString();
                bo["type"] = type(BD->getType());
                if (BD->getBinding() != nullptr) {
                    bo["expr"] = stmt(BD->getBinding());
                }
                if (VarDecl *HV = BD->getHoldingVar()) {
                    bo["holding"] = vardecl(HV);
                }
                B.push_back(Value(std::move(bo)));
            }
            O["bindings"] = std::move(B);
        }
        return Value(std::move(O));
    }

    Value stmt(const Stmt *S) {
        if (const auto *E = dyn_cast<Expr>(S)) {
            return expr(E);
        }
        Object O;
        O["l"] = line(S->getBeginLoc());
        if (const auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block";
            Array A;
            for (const Stmt *c : X->body()) {
                A.push_back(stmt(c));
            }
            O["b"] = std::move(A);
        } else if (const auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            Array A;
            for (const Decl *d : X->decls()) {
                if (const auto *V = dyn_cast<VarDecl>(d)) {
                    A.push_back(vardecl(V));
                }
            }
            O["vars"] = std::move(A);
        } else if (const auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (X->isConstexpr()) {
                O["constexpr"] = true;
            }
            O["init"] = stmtOrNull(X->getInit());
            if (X->getConditionVariable() != nullptr) {
                O["cvar"] = vardecl(X->getConditionVariable());
            }
            O["c"] = expr(X->getCond());
            O["t"] = stmtOrNull(X->getThen());
            O["e"] = stmtOrNull(X->getElse());
        } else if (const auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            O["init"] = stmtOrNull(X->getInit());
            O["c"] = X->getCond() != nullptr ? expr(X->getCond()) : Value(nullptr);
            O["inc"] = X->getInc() != nullptr ? expr(X->getInc()) : Value(nullptr);
            if (X->getConditionVariable() != nullptr) {
                O["cvar"] = vardecl(X->getConditionVariable());
            }
            O["body"] = stmt(X->getBody());
        } else if (const auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (const auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "do";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (const auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "rfor";
            O["range"] = expr(X->getRangeInit());
            O["var"] = vardecl(X->getLoopVariable());
            if (X->getLoopVariable()->getInit() != nullptr) {
                O["deref"] = expr(X->getLoopVariable()->getInit());
            }
            if (X->getBeginStmt() != nullptr) {
                O["begin"] = stmt(X->getBeginStmt());
                O["end"] = stmt(X->getEndStmt());
                O["ne"] = expr(X->getCond());
                O["incr"] = expr(X->getInc());
                if (const auto *RS = X->getRangeStmt()) {
                    O["rstmt"] = stmt(RS);
                }
            }
            O["body"] = stmt(X->getBody());
        } else if (const auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "return";
            O["v"] = X->getRetValue() != nullptr ? expr(X->getRetValue()) : Value(nullptr);
        } else if (isa<BreakStmt>(S)) {
            O["k"] = "break";
        } else if (isa<ContinueStmt>(S)) {
            O["k"] = "continue";
        } else if (isa<NullStmt>(S)) {
            O["k"] = "null";
        } else if (const auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
        } else if (const auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case";
            O["v"] = expr(X->getLHS());
            O["s"] = stmt(X->getSubStmt());
        } else if (const auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default";
            O["s"] = stmt(X->getSubStmt());
        } else if (const auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try";
            O["b"] = stmt(X->getTryBlock());
            Array H;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                const CXXCatchStmt *c = X->getHandler(i);
                Object h;
                h["type"] = c->getExceptionDecl() != nullptr ? type(c->getCaughtType()) : "...";
                h["b"] = stmt(c->getHandlerBlock());
                H.push_back(Value(std::move(h)));
            }
            O["h"] = std::move(H);
        } else if (const auto *X = dyn_cast<AttributedStmt>(S)) {
            return stmt(X->getSubStmt());
        } else if (const auto *X = dyn_cast<OMPExecutableDirective>(S)) {
            O["k"] = "omp";
            O["cls"] = S->getStmtClassName();
            if (X->hasAssociatedStmt()) {
                O["b"] = stmt(X->getRawStmt());
            }
        } else if (const auto *X = dyn_cast<CapturedStmt>(S)) {
            return stmt(X->getCapturedStmt());
        } else {
            O["k"] = "unsupported";
            O["cls"] = S->getStmtClassName();
        }
        return Value(std::move(O));
    }

    Array exprs(llvm::ArrayRef<const Expr *> L) {
        Array A;
        for (const Expr *e : L) {
            A.push_back(expr(e));
        }
        return A;
    }

    Value expr(const Expr *E) {
        // wrappers without semantics of their own
        if (const auto *X = dyn_cast<ParenExpr>(E)) {
            return expr(X->getSubExpr());
        }
        if (const auto *X = dyn_cast<ExprWithCleanups>(E)) {
            return expr(X->getSubExpr());
        }
        if (const auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            return expr(X->getSubExpr());
        }
        if (const auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) {
            return expr(X->getSubExpr());
        }
        if (const auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
            return expr(X->getExpr());
        }
        if (const auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
            return expr(X->getExpr());
        }
        if (const auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
            return expr(X->getReplacement());
        }
        if (const auto *X = dyn_cast<ConstantExpr>(E)) {
            return expr(X->getSubExpr());
        }
        if (const auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            Object O;
            O["k"] = "stdinit";
            O["t"] = type(E->getType());
            O["e"] = expr(X->getSubExpr());
            return Value(std::move(O));
        }
        Object O;
        O["t"] = type(E->getType());
        O["l"] = line(E->getExprLoc());
        if (const auto *X = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int";
            llvm::SmallString<32> s;
            X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
            O["v"] = s.str().str();
        } else if (const auto *X = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "int";
            O["v"] = std::to_string(X->getValue());
        } else if (const auto *X = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "float";
            llvm::SmallString<64> s;
            X->getValue().toString(s, 800, 0, false);
            O["v"] = s.str().str();
        } else if (const auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
        } else if (const auto *X = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            if (X->isOrdinary() || X->isUTF8() || X->isUnevaluated()) {
                O["v"] = llvm::json::fixUTF8(X->getString());
            }
        } else if (isa<CXXNullPtrLiteralExpr>(E)) {
            O["k"] = "null";
        } else if (const auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "int";
                llvm::SmallString<32> s;
                EC->getInitVal().toString(s, 10);
                O["v"] = s.str().str();
                O["enum"] = EC->getNameAsString();
            } else if (const auto *F = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "fref";
                O["f"] = callee(F);
            } else {
                O["k"] = "ref";
                O["id"] = id(D);
                O["name"] = D->getNameAsString();
                if (const auto *V = dyn_cast<VarDecl>(D)) {
                    if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                        O["global"] = qual(V);
                    }
                    if (V->isStaticLocal()) {
                        O["slocal"] = true;
                    }
                    const VarDecl *def = nullptr;
                    const Expr *init = V->getAnyInitializer(def);
                    if (init != nullptr && def != nullptr && !init->isValueDependent() &&
                        (def->isConstexpr() || (def->hasGlobalStorage() &&
                                                def->getType().isConstQualified() &&
                                                def->getType()->isArithmeticType()))) {
                        if (const APValue *v = def->evaluateValue()) {
                            Value c = ap(*v);
                            if (c.kind() != Value::Null) {
                                O["const"] = std::move(c);
                            }
                        }
                    }
                }
                if (isa<BindingDecl>(D)) {
                    O["binding"] = true;
                }
            }
        } else if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
        } else if (const auto *X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = X->getMemberDecl();
            if (const auto *M = dyn_cast<CXXMethodDecl>(D)) {
                O["k"] = "mref";
                O["f"] = callee(M);
            } else {
                O["k"] = "member";
                O["name"] = D->getNameAsString();
                if (const auto *FD = dyn_cast<FieldDecl>(D)) {
                    O["cls"] = type(C.getRecordType(FD->getParent()));
                    if (FD->getType()->isReferenceType()) {
                        O["fref"] = true;
                    }
                } else if (const auto *V = dyn_cast<VarDecl>(D)) {
                    O["static"] = qual(V);
                    if (const APValue *v = (V->isConstexpr() ? V->evaluateValue() : nullptr)) {
                        Value c = ap(*v);
                        if (c.kind() != Value::Null) {
                            O["const"] = std::move(c);
                        }
                    }
                }
            }
            O["arrow"] = X->isArrow();
            O["e"] = expr(X->getBase());
        } else if (const auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) {
                O["post"] = true;
            }
            O["e"] = expr(X->getSubExpr());
        } else if (const auto *X = dyn_cast<CompoundAssignOperator>(E)) {
            O["k"] = "cas";
            O["op"] = X->getOpcodeStr().str();
            O["ct"] = type(X->getComputationResultType());
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
        } else if (const auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = "bin";
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
        } else if (const auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
        } else if (const auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "idx";
            O["a"] = expr(X->getBase());
            O["b"] = expr(X->getIdx());
        } else if (const auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "opcall";
            O["op"] = getOperatorSpelling(X->getOperator());
            if (const FunctionDecl *F = X->getDirectCallee()) {
                O["f"] = callee(F);
                noteLambda(F);
            }
            O["a"] = exprs(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
        } else if (const auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "mcall";
            if (const CXXMethodDecl *M = X->getMethodDecl()) {
                O["f"] = callee(M);
            }
            if (const Expr *obj = X->getImplicitObjectArgument()) {
                O["o"] = expr(obj);
            }
            if (const auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                O["arrow"] = ME->isArrow();
                if (ME->hasQualifier()) {
                    O["qualified"] = true;
                }
            }
            O["a"] = exprs(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
        } else if (const auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (const FunctionDecl *F = X->getDirectCallee()) {
                O["f"] = callee(F);
            } else {
                O["fe"] = expr(X->getCallee());
            }
            O["a"] = exprs(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
        } else if (const auto *X = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "ctor";
            O["f"] = callee(X->getConstructor());
            if (X->getConstructor()->isCopyOrMoveConstructor()) {
                O["copy"] = true;
            }
            if (X->isListInitialization()) {
                O["list"] = true;
            }
            if (X->isStdInitListInitialization()) {
                O["ilist"] = true;
            }
            if (X->requiresZeroInitialization()) {
                O["zero"] = true;
            }
            O["a"] = exprs(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
        } else if (const auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() || X->getSemanticForm() == nullptr) {
                O["k"] = "list";
                Array A;
                for (const Expr *i : X->inits()) {
                    A.push_back(expr(i));
                }
                O["a"] = std::move(A);
                if (X->hasArrayFiller()) {
                    O["filler"] = true;
                }
            } else {
                return expr(X->getSemanticForm());
            }
        } else if (const auto *X = dyn_cast<CastExpr>(E)) {
            O["k"] = "cast";
            O["ck"] = X->getCastKindName();
            if (isa<ExplicitCastExpr>(E)) {
                O["explicit"] = true;
            }
            if (X->getConversionFunction() != nullptr) {
                if (const auto *F = dyn_cast<FunctionDecl>(X->getConversionFunction())) {
                    O["f"] = callee(F);
                }
            }
            O["e"] = expr(X->getSubExpr());
        } else if (const auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            const CXXMethodDecl *M = X->getCallOperator();
            noteLambda(M);
            O["f"] = callee(M);
            Array A;
            auto init = X->capture_init_begin();
            for (const LambdaCapture &c : X->captures()) {
                Object co;
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (c.capturesThis()) {
                    co["this"] = true;
                } else if (c.capturesVariable()) {
                    co["id"] = id(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                }
                if (*init != nullptr) {
                    co["init"] = expr(*init);
                }
                ++init;
                A.push_back(Value(std::move(co)));
            }
            O["caps"] = std::move(A);
        } else if (const auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            O["e"] = X->getSubExpr() != nullptr ? expr(X->getSubExpr()) : Value(nullptr);
        } else if (const auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["nt"] = type(X->getAllocatedType());
            if (X->getInitializer() != nullptr) {
                O["init"] = expr(X->getInitializer());
            }
            if (X->getArraySize()) {
                O["n"] = expr(*X->getArraySize());
            }
        } else if (const auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            O["k"] = "int";
            if (X->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                O["v"] = s.str().str();
            }
        } else if (const auto *X = dyn_cast<TypeTraitExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
        } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "zero";
        } else if (const auto *X = dyn_cast<OpaqueValueExpr>(E)) {
            return expr(X->getSourceExpr());
        } else {
            O["k"] = "unsupported";
            O["cls"] = E->getStmtClassName();
        }
        return Value(std::move(O));
    }

    void noteLambda(const FunctionDecl *F) {
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda() && pendingLambdas.insert(M).second) {
                lambdaBodies.push_back(M);
            }
        }
    }

    Value function(const FunctionDecl *F) {
        Object O;
        O["q"] = qual(F);
        O["name"] = F->getNameAsString();
        O["m"] = mangle(F);
        O["ret"] = type(F->getReturnType());
        O["loc"] = loc(F->getLocation());
        O["endline"] = line(F->getEndLoc());
        Array P;
        for (const ParmVarDecl *V : F->parameters()) {
            Object p;
            p["id"] = id(V);
            p["name"] = V->getNameAsString();
            p["type"] = type(V->getType());
            P.push_back(Value(std::move(p)));
        }
        O["params"] = std::move(P);
        Array TA = targs(F);
        if (!TA.empty()) {
            O["targs"] = std::move(TA);
        }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = type(C.getRecordType(M->getParent()));
            O["const"] = M->isConst();
            if (M->isStatic()) {
                O["static"] = true;
            }
            if (M->isVirtual()) {
                O["virtual"] = true;
                Array OV;
                for (const CXXMethodDecl *B : M->overridden_methods()) {
                    OV.push_back(mangle(B));
                }
                O["overrides"] = std::move(OV);
            }
            note(M->getParent());
        }
        if (const auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            O["ctor"] = true;
            Array I;
            for (const CXXCtorInitializer *i : CD->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) {
                    io["field"] = i->getAnyMember()->getNameAsString();
                    io["type"] = type(i->getAnyMember()->getType());
                } else if (i->isBaseInitializer()) {
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                } else {
                    io["delegate"] = true;
                }
                io["written"] = i->isWritten();
                io["init"] = expr(i->getInit());
                I.push_back(Value(std::move(io)));
            }
            O["inits"] = std::move(I);
        }
        if (isa<CXXDestructorDecl>(F)) {
            O["dtor"] = true;
        }
        O["body"] = stmt(F->getBody());
        return Value(std::move(O));
    }

    Value record(const CXXRecordDecl *R) {
        Object O;
        O["type"] = type(C.getRecordType(R));
        O["loc"] = loc(R->getLocation());
        Array B;
        for (const CXXBaseSpecifier &b : R->bases()) {
            B.push_back(type(b.getType()));
        }
        O["bases"] = std::move(B);
        Array F;
        for (const FieldDecl *f : R->fields()) {
            Object fo;
            fo["name"] = f->getNameAsString();
            fo["type"] = type(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer() != nullptr) {
                fo["init"] = expr(f->getInClassInitializer());
            }
            if (f->isMutable()) {
                fo["mutable"] = true;
            }
            F.push_back(Value(std::move(fo)));
        }
        O["fields"] = std::move(F);
        return Value(std::move(O));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Emitter &M;
    std::vector<const FunctionDecl *> fns;
    std::vector<const VarDecl *> globals;
    explicit Visitor(Emitter &M) : M(M) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool inRoot(SourceLocation L) {
        PresumedLoc P = M.SM.getPresumedLoc(M.SM.getExpansionLoc(L));
        if (P.isInvalid()) {
            return false;
        }
        // the repository, and the instantiations of the specification
        return llvm::StringRef(P.getFilename()).starts_with(gRoot) ||
            llvm::StringRef(P.getFilename()).contains("/specs/tu/");
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isDeleted()) {
            return true;
        }
        if (!inRoot(F->getLocation())) {
            return true;
        }
        if (const auto *MD = dyn_cast<CXXMethodDecl>(F)) {
            if (MD->getParent()->isLambda()) {
                return true;
            }
        }
        fns.push_back(F);
        return true;
    }
    bool rootRecord(const CXXRecordDecl *R) {
        const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
        return inRoot((P != nullptr ? P : R)->getLocation());
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentContext() && rootRecord(R)) {
            M.note(R);
        }
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoot(V->getLocation()) &&
            !V->getType()->isDependentType() && !V->getDeclContext()->isDependentContext()) {
            globals.push_back(V);
        }
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) {
            return;
        }
        Emitter M(C);
        Visitor V(M);
        V.TraverseDecl(C.getTranslationUnitDecl());
        Array F;
        std::set<std::string> seen;
        for (const FunctionDecl *f : V.fns) {
            if (!seen.insert(M.mangle(f)).second && !f->getNameAsString().empty()) {
                continue;
            }
            F.push_back(M.function(f));
        }
        for (size_t i = 0; i < M.lambdaBodies.size(); ++i) {
            const FunctionDecl *f = M.lambdaBodies[i];
            if (f->hasBody() && !f->isDependentContext()) {
                F.push_back(M.function(f));
            }
        }
        Array G;
        for (const VarDecl *v : V.globals) {
            Object g;
            g["q"] = M.qual(v);
            g["type"] = M.type(v->getType());
            const VarDecl *def = nullptr;
            const Expr *init = v->getAnyInitializer(def);
            if (init != nullptr && !init->isValueDependent()) {
                g["init"] = M.expr(init);
                if (v->getType()->isArithmeticType() && def->getType().isConstQualified()) {
                    if (const APValue *a = def->evaluateValue()) {
                        g["const"] = M.ap(*a);
                    }
                }
            }
            G.push_back(Value(std::move(g)));
        }
        Array R;
        for (size_t i = 0; i < M.recordOrder.size(); ++i) {
            const CXXRecordDecl *r = M.recordOrder[i];
            if (V.rootRecord(r)) {
                R.push_back(M.record(r));
            }
        }
        Object O;
        O["functions"] = std::move(F);
        O["records"] = std::move(R);
        O["globals"] = std::move(G);
        llvm::outs() << Value(std::move(O)) << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

int main(int argc, const char **argv) {
    if (argc < 4) {
        llvm::errs() << "usage: cxx2ir root tu.cpp -- flags\n";
        return 2;
    }
    gRoot = argv[1];
    std::string tu = argv[2];
    std::vector<std::string> flags;
    int i = 3;
    for (; i < argc; ++i) {
        if (std::string(argv[i]) == "--") {
            ++i;
            break;
        }
    }
    for (; i < argc; ++i) {
        flags.emplace_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {tu});
    Factory f;
    return tool.run(&f);
}
