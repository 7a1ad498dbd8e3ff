// Extractor: parses one translation unit with the real front end and emits, as JSON, the resolved
// program (functions with bodies, records, enums, globals) for everything defined under --root.
// It decides nothing; the rules in /verif/sa do.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo";
static std::vector<std::string> Excludes;
static int64_t I64(llvm::APSInt const& v) { return (int64_t)v.extOrTrunc(64).getZExtValue(); }

struct Extractor : public RecursiveASTVisitor<Extractor> {
    ASTContext& C; SourceManager& SM; std::unique_ptr<MangleContext> MC;
    PrintingPolicy PP;
    json::Array Funcs, Records, Enums, Globals; json::Object Types;
    std::set<std::string> SeenTypes; std::set<std::string> SeenFn;
    std::map<Decl const*, int> LocalIds; int NextLocal = 0;
    std::map<std::string,int> FileIds; json::Array Files;
    std::vector<FunctionDecl*> PendingLambda;

    Extractor(ASTContext& C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!F) return "";
        llvm::SmallString<256> P(F->getName());
        if (auto E = SM.getFileManager().getVirtualFileSystem().getRealPath(P, P)) {}
        return std::string(P.str());
    }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string f = fileOf(L);
        if (f.compare(0, Root.size()+1, Root + "/") != 0) return false;
        for (auto& e : Excludes) if (f.compare(0, e.size(), e) == 0) return false;
        return true;
    }
    std::string rel(std::string const& f) {
        if (f.compare(0, Root.size()+1, Root + "/") == 0) return f.substr(Root.size()+1);
        return f;
    }
    int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        QualType K = T.getCanonicalType();
        std::string s = K.getAsString(PP);
        if (SeenTypes.insert(s).second) {
            json::Object o;
            Types[s] = nullptr;
            if (K.isConstQualified()) o["const"] = true;
            if (auto R = K->getAs<ReferenceType>()) {
                o["k"] = "ref"; o["to"] = ty(R->getPointeeType());
                if (K->isRValueReferenceType()) o["rv"] = true;
                if (R->getPointeeType().isConstQualified()) o["cto"] = true;
            } else if (auto P = K->getAs<PointerType>()) {
                o["k"] = "ptr"; o["to"] = ty(P->getPointeeType());
                if (P->getPointeeType().isConstQualified()) o["cto"] = true;
            } else if (K->isBooleanType()) { o["k"] = "bool"; o["size"] = 1; }
            else if (K->isEnumeralType()) { o["k"] = "enum"; if (!K->isIncompleteType()) o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity();
                o["n"] = K->getAs<EnumType>()->getDecl()->getQualifiedNameAsString(); }
            else if (K->isIntegerType()) { o["k"] = "int"; o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity(); o["signed"] = K->isSignedIntegerType(); }
            else if (K->isFloatingType()) { o["k"] = "float"; o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity(); }
            else if (auto RD = K->getAsCXXRecordDecl()) {
                o["k"] = "rec"; o["n"] = recName(RD);
                if (RD->hasDefinition() && !K->isDependentType() && !K->isIncompleteType()) {
                    o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity();
                    o["tdtor"] = RD->hasTrivialDestructor();
                    if (auto* D = RD->getDestructor()) o["dtor"] = key(D);
                    json::Array B; bases(RD, B); o["bases"] = std::move(B);
                }
                if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                    json::Array A;
                    for (auto& a : S->getTemplateArgs().asArray()) if (a.getKind() == TemplateArgument::Type) A.push_back(ty(a.getAsType()));
                    o["targs"] = std::move(A);
                }
            }
            else if (auto AT = dyn_cast<ArrayType>(K.getTypePtr())) {
                o["k"] = "arr"; o["to"] = ty(AT->getElementType());
                if (auto CA = dyn_cast<ConstantArrayType>(AT)) o["n"] = (int64_t)CA->getSize().getZExtValue();
                if (!K->isDependentType() && !K->isIncompleteType()) o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity();
            }
            else if (K->isVoidType()) o["k"] = "void";
            else if (K->isFunctionType()) o["k"] = "func";
            else if (K->isMemberPointerType()) o["k"] = "memptr";
            else o["k"] = "other";
            Types[s] = std::move(o);
        }
        return s;
    }
    std::string recName(CXXRecordDecl const* RD) {
        std::string s; llvm::raw_string_ostream os(s);
        if (RD->isLambda()) return "lambda@" + rel(fileOf(RD->getLocation())) + ":" + std::to_string(SM.getExpansionLineNumber(RD->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(RD->getLocation()));
        RD->getNameForDiagnostic(os, PP, true);
        return os.str();
    }
    void bases(CXXRecordDecl const* RD, json::Array& B) {
        for (auto const& b : RD->bases()) if (auto* d = b.getType()->getAsCXXRecordDecl()) {
            B.push_back(recName(d));
            if (d->hasDefinition()) bases(d->getDefinition(), B);
        }
    }
    std::string qn(NamedDecl const* D) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* M = dyn_cast<CXXMethodDecl>(D))
            return recName(M->getParent()) + "::" + D->getNameAsString();
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string key(FunctionDecl const* F) {
        F = F->getCanonicalDecl();
        llvm::SmallString<128> Buf;
        std::string pre;
        if (F->getFormalLinkage() == Linkage::Internal || F->getFormalLinkage() == Linkage::None) pre = rel(fileOf(F->getLocation())) + "|";
        if (F->isDependentContext()) {
            index::generateUSRForDecl(F, Buf); return "usr:" + std::string(Buf.str());
        }
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(K, Ctor_Complete), os);
        else if (auto* D = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
        else os << F->getNameAsString();
        return pre + os.str();
    }
    int local(Decl const* D) { D = D->getCanonicalDecl(); auto it = LocalIds.find(D); if (it != LocalIds.end()) return it->second; return LocalIds[D] = ++NextLocal; }

    json::Object E(char const* k, Expr const* e) {
        json::Object o; o["k"] = k; o["l"] = lineOf(e->getExprLoc()); o["t"] = ty(e->getType()); 
        if (e->isGLValue()) o["lv"] = true;
        return o;
    }
    json::Value refTo(ValueDecl const* D, Expr const* e) {
        json::Object o = E("ref", e);
        o["n"] = D->getNameAsString();
        if (auto* ec = dyn_cast<EnumConstantDecl>(D)) {
            o["k"] = "int"; o["v"] = (int64_t)I64(ec->getInitVal()); 
            std::string s; llvm::raw_string_ostream os(s); ec->printQualifiedName(os, PP); o["n"] = os.str(); return o;
        }
        if (auto* f = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["d"] = key(f); o["qn"] = qn(f); return o; }
        if (auto* v = dyn_cast<VarDecl>(D)) {
            if (isa<ParmVarDecl>(v)) { o["dk"] = "param"; o["d"] = local(v); }
            else if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["dk"] = "global"; o["qn"] = qn(v); 
                if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent()) { VarDecl const* DV = nullptr; v->getAnyInitializer(DV); if (auto* val = DV->evaluateValue()) if (val->isInt()) o["cv"] = (int64_t)I64(val->getInt()); } }
            else { o["dk"] = v->isStaticLocal() ? "slocal" : "local"; o["d"] = local(v); }
            return o;
        }
        o["dk"] = "other"; o["d"] = local(D); o["qn"] = qn(D);
        return o;
    }
    json::Array exprs(llvm::ArrayRef<Expr const*> es) { json::Array a; for (auto* x : es) a.push_back(X(x)); return a; }

    json::Value X(Expr const* e) {
        if (!e) return nullptr;
        if (auto* x = dyn_cast<FullExpr>(e)) return X(x->getSubExpr());
        if (auto* x = dyn_cast<ParenExpr>(e)) return X(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return X(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return X(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return X(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = X(x->getExpr()); if (auto* o = v.getAsObject()) (*o)["def"] = true; return v; }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return X(x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return X(x->getSubExpr());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return X(x->getSourceExpr());
        if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return X(x->getResultExpr());
        if (auto* x = dyn_cast<ChooseExpr>(e)) return X(x->getChosenSubExpr());
        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            switch (x->getCastKind()) {
                case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_PointerToBoolean: case CK_LValueToRValue: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
                    if (x->getCastKind() == CK_LValueToRValue) return X(x->getSubExpr());
                    if (x->getCastKind() == CK_DerivedToBase || x->getCastKind() == CK_UncheckedDerivedToBase) { auto v = X(x->getSubExpr()); return v; }
                    json::Object o = E("cast", e); o["ck"] = "implicit"; o["kind"] = x->getCastKindName(); o["a"] = X(x->getSubExpr()); return o;
                }
                case CK_NullToPointer: { json::Object o = E("null", e); return o; }
                default: return X(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            if (isa<CXXFunctionalCastExpr>(x) && x->getCastKind() == CK_ConstructorConversion) return X(x->getSubExpr());
            json::Object o = E("cast", e);
            o["ck"] = isa<CXXStaticCastExpr>(x) ? "static" : isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXDynamicCastExpr>(x) ? "dynamic" : isa<CStyleCastExpr>(x) ? "c" : "functional";
            o["kind"] = x->getCastKindName(); o["a"] = X(x->getSubExpr());
            o["from"] = ty(x->getSubExpr()->getType());
            return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { auto o = E("int", e); o["v"] = (int64_t)x->getValue().getLimitedValue(); return o; }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { auto o = E("int", e); o["v"] = (int64_t)x->getValue(); return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = E("int", e); o["v"] = (int64_t)x->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return E("null", e);
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { auto o = E("float", e); o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) { auto o = E("str", e); o["v"] = x->isOrdinary() || x->isUTF8() ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
        if (isa<CXXThisExpr>(e)) return E("this", e);
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { auto o = E("int", e); o["v"] = (int64_t)I64(r.Val.getInt()); o["sizeof"] = ty(x->getTypeOfArgument()); return o; }
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) return refTo(x->getDecl(), e);
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* D = x->getMemberDecl();
            if (isa<VarDecl>(D) || isa<EnumConstantDecl>(D)) return refTo(D, e);
            json::Object o = E("mem", e); o["o"] = X(x->getBase()); o["n"] = D->getNameAsString(); o["arrow"] = x->isArrow();
            if (auto* F = dyn_cast<FieldDecl>(D)) o["cls"] = F->getParent() && isa<CXXRecordDecl>(F->getParent()) ? recName(cast<CXXRecordDecl>(F->getParent())) : "";
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            json::Object o = E("un", e);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op += "post"; else if (x->isIncrementDecrementOp()) op += "pre";
            o["op"] = op; o["a"] = X(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->isAssignmentOp()) { json::Object o = E("asg", e); o["op"] = x->getOpcodeStr().str(); o["a"] = X(x->getLHS()); o["b"] = X(x->getRHS()); 
                if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) o["ct"] = ty(ca->getComputationResultType());
                return o; }
            json::Object o = E("bin", e); o["op"] = x->getOpcodeStr().str(); o["a"] = X(x->getLHS()); o["b"] = X(x->getRHS()); 
            o["at"] = ty(x->getLHS()->getType());
            return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) { json::Object o = E("cond", e); o["c"] = X(x->getCond()); o["a"] = X(x->getTrueExpr()); o["b"] = X(x->getFalseExpr()); return o; }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { json::Object o = E("idx", e); o["a"] = X(x->getBase()); o["b"] = X(x->getIdx()); return o; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { json::Object o = E("throw", e); o["a"] = x->getSubExpr() ? X(x->getSubExpr()) : json::Value(nullptr); if (x->getSubExpr()) o["tt"] = ty(x->getSubExpr()->getType().getUnqualifiedType()); return o; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            json::Object o = E("new", e); o["ty"] = ty(x->getAllocatedType());
            json::Array pl; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pl.push_back(X(x->getPlacementArg(i)));
            o["placement"] = std::move(pl);
            if (x->isArray() && x->getArraySize()) o["size"] = X(*x->getArraySize());
            if (x->getInitializer()) o["init"] = X(x->getInitializer());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { json::Object o = E("del", e); o["a"] = X(x->getArgument()); o["arr"] = x->isArrayForm(); o["dty"] = ty(x->getDestroyedType()); 
            if (auto* RD = x->getDestroyedType().isNull() ? nullptr : x->getDestroyedType()->getAsCXXRecordDecl()) if (RD->hasDefinition() && RD->getDestructor()) { o["dtor"] = key(RD->getDestructor()); o["vdtor"] = RD->getDestructor()->isVirtual(); }
            return o; }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            json::Object o = E("lambda", e); o["fn"] = key(x->getCallOperator());
            json::Array caps;
            auto ii = x->capture_init_begin();
            for (auto const& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["d"] = local(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; }
                if (ii != x->capture_init_end() && *ii) co["init"] = X(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            json::Object o = E("ctor", e); auto* D = x->getConstructor();
            o["fn"] = key(D); o["qn"] = qn(D); o["ty"] = ty(e->getType());
            if (D->isCopyConstructor()) o["copy"] = true;
            if (D->isMoveConstructor()) o["move"] = true;
            if (D->isDefaultConstructor()) o["defctor"] = true;
            json::Array a; for (auto* y : x->arguments()) a.push_back(X(y)); o["args"] = std::move(a);
            if (x->isElidable()) o["elide"] = true;
            pt(D, o);
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            json::Object o = E("call", e);
            auto* FD = x->getDirectCallee();
            unsigned skip = 0;
            if (FD) {
                o["fn"] = key(FD); o["qn"] = qn(FD); o["n"] = FD->getNameAsString();
                if (auto* M = dyn_cast<CXXMethodDecl>(FD)) { 
                    if (M->isStatic()) o["static"] = true;
                    o["cls"] = recName(M->getParent()); if (M->isConst()) o["cm"] = true; 
                    bool virt = M->isVirtual();
                    if (auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (ME->hasQualifier()) virt = false;
                    if (virt) o["virt"] = true;
                }
                if (FD->isNoReturn()) o["noreturn"] = true;
                if (auto* TA = FD->getTemplateSpecializationArgs()) { json::Array ta; for (auto& a : TA->asArray()) { if (a.getKind() == TemplateArgument::Integral) ta.push_back(I64(a.getAsIntegral())); else if (a.getKind() == TemplateArgument::Type) ta.push_back(ty(a.getAsType())); else ta.push_back(nullptr); } o["ta"] = std::move(ta); }
                pt(FD, o);
            }
            if (auto* MC_ = dyn_cast<CXXMemberCallExpr>(x)) {
                if (FD) { o["obj"] = X(MC_->getImplicitObjectArgument()); 
                    if (auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow(); }
                else { o["callee"] = X(x->getCallee()); }
            } else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(x)) {
                o["op"] = getOperatorSpelling(OC->getOperator());
                if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic() && OC->getNumArgs()) { o["obj"] = X(OC->getArg(0)); skip = 1; }
            } else if (!FD) o["callee"] = X(x->getCallee());
            json::Array a; for (unsigned i = skip; i < x->getNumArgs(); ++i) a.push_back(X(x->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) { auto* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); json::Object o = E("initlist", e); json::Array a; for (auto* y : s->inits()) a.push_back(X(y)); o["a"] = std::move(a); return o; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { json::Object o = E("zeroinit", e); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { json::Object o = E("typeid", e); if (x->isTypeOperand()) o["ty"] = ty(x->getTypeOperand(C)); else o["a"] = X(x->getExprOperand()); return o; }
        if (auto* x = dyn_cast<StmtExpr>(e)) { json::Object o = E("stmtexpr", e); o["s"] = S(x->getSubStmt()); return o; }
        if (!e->isValueDependent()) { Expr::EvalResult r; if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C)) { auto o = E("int", e); o["v"] = (int64_t)I64(r.Val.getInt()); return o; } }
        json::Object o = E("other", e); o["cls"] = e->getStmtClassName();
        json::Array a; for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(X(ce)); o["kids"] = std::move(a);
        return o;
    }
    // parameter passing modes: for each parameter, 'v' by value, 'r' mutable ref, 'c' const ref, 'p' mutable ptr, 'q' const ptr
    void pt(FunctionDecl const* FD, json::Object& o) {
        std::string s;
        for (auto* p : FD->parameters()) {
            QualType T = p->getType().getCanonicalType();
            if (T->isReferenceType()) s += T->getPointeeType().isConstQualified() ? 'c' : (T->isRValueReferenceType() ? 'm' : 'r');
            else if (T->isPointerType()) s += T->getPointeeType().isConstQualified() ? 'q' : 'p';
            else s += 'v';
        }
        o["pm"] = s;
        if (inRoot(FD->getLocation())) o["repo"] = true;
    }
    json::Value decl(VarDecl const* V) {
        json::Object o; o["n"] = V->getNameAsString(); o["d"] = local(V); o["t"] = ty(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = X(V->getInit());
        return o;
    }
    json::Value S(Stmt const* s) {
        if (!s) return nullptr;
        json::Object o; o["l"] = lineOf(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; json::Array a; for (auto* c : x->body()) a.push_back(S(c)); o["b"] = std::move(a); o["le"] = lineOf(x->getEndLoc()); return o; }
        if (auto* x = dyn_cast<IfStmt>(s)) { o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = decl(x->getConditionVariable()); o["c"] = X(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse()); if (x->isConstexpr()) o["cx"] = true; return o; }
        if (auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = decl(x->getConditionVariable()); o["c"] = X(x->getCond()); o["inc"] = X(x->getInc()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["cv"] = decl(x->getConditionVariable()); o["c"] = X(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = X(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; o["v"] = decl(x->getLoopVariable()); o["r"] = X(x->getRangeInit()); o["b"] = S(x->getBody());
            return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = decl(x->getConditionVariable()); o["c"] = X(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = X(x->getLHS()); if (x->getRHS()) o["hi"] = X(x->getRHS());
            Expr::EvalResult r; if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) o["cv"] = (int64_t)I64(r.Val.getInt());
            o["b"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "return"; if (x->getRetValue()) o["a"] = X(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "block"; o["b"] = json::Array(); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; json::Array a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(decl(v)); o["v"] = std::move(a); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["b"] = S(x->getTryBlock()); json::Array h; for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* c = x->getHandler(i); json::Object ho; ho["l"] = lineOf(c->getBeginLoc()); if (c->getExceptionDecl()) { ho["v"] = decl(c->getExceptionDecl()); ho["ct"] = ty(c->getCaughtType().getNonReferenceType().getUnqualifiedType()); } ho["b"] = S(c->getHandlerBlock()); h.push_back(std::move(ho)); } o["h"] = std::move(h); return o; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["n"] = x->getName(); o["b"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString(); return o; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if (auto* x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = X(x); return o; }
        o["k"] = "other"; o["cls"] = s->getStmtClassName(); return o;
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted() && F->isThisDeclarationADefinition())) return true;
        if (F->isDependentContext()) return true;
        if (!inRoot(F->getLocation())) return true;
        std::string k = key(F);
        if (!SeenFn.insert(k).second) return true;
        json::Object o; o["key"] = k; o["qn"] = qn(F); o["n"] = F->getNameAsString();
        o["file"] = rel(fileOf(F->getLocation())); o["line"] = lineOf(F->getLocation()); o["ret"] = ty(F->getReturnType());
        o["endline"] = lineOf(F->getEndLoc());
        json::Array ps; for (auto* p : F->parameters()) { json::Object po; po["n"] = p->getNameAsString(); po["d"] = local(p); po["t"] = ty(p->getType()); if (p->hasDefaultArg()) po["def"] = true; ps.push_back(std::move(po)); }
        o["params"] = std::move(ps);
        if (F->isTemplateInstantiation()) o["inst"] = true;
        if (F->isImplicit() || F->isDefaulted()) o["implicit"] = true;
        if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
        if (auto* FP = F->getType()->getAs<FunctionProtoType>()) if (isNoexceptExceptionSpec(FP->getExceptionSpecType()) ) o["noexcept"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isVirtual()) o["virt"] = true;
            json::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(key(b)); o["ov"] = std::move(ov);
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
                o["ctor"] = true; 
                if (CD->isCopyConstructor()) o["copy"] = true; 
                json::Array in;
                for (auto* i : CD->inits()) { json::Object io; if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(),0)); else io["deleg"] = true; io["written"] = i->isWritten(); if (i->getInit()) io["e"] = X(i->getInit()); in.push_back(std::move(io)); }
                o["inits"] = std::move(in);
            }
            if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
        }
        if (F->getBody()) o["body"] = S(F->getBody());
        Funcs.push_back(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoot(R->getLocation()) || R->isLambda()) return true;
        json::Object o; o["qn"] = recName(R); o["file"] = rel(fileOf(R->getLocation())); o["line"] = lineOf(R->getLocation());
        json::Array bs; for (auto const& b : R->bases()) if (auto* d = b.getType()->getAsCXXRecordDecl()) { json::Object bo; bo["n"] = recName(d); bo["virt"] = b.isVirtual(); bo["acc"] = (int)b.getAccessSpecifier(); bs.push_back(std::move(bo)); }
        o["bases"] = std::move(bs);
        json::Array fs; for (auto* f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); if (f->isMutable()) fo["mut"] = true; fo["line"] = lineOf(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = X(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
        o["fields"] = std::move(fs);
        json::Array ms; for (auto* m : R->methods()) {
            json::Object mo; mo["key"] = key(m); mo["n"] = m->getNameAsString(); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["const"] = m->isConst(); mo["implicit"] = m->isImplicit(); mo["deleted"] = m->isDeleted(); mo["acc"] = (int)m->getAccess(); mo["static"] = m->isStatic(); mo["line"] = lineOf(m->getLocation());
            json::Array ps; for (auto* p : m->parameters()) ps.push_back(ty(p->getType())); mo["params"] = std::move(ps); mo["ret"] = ty(m->getReturnType());
            json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(key(b)); mo["ov"] = std::move(ov);
            json::Array ovq; for (auto* b : m->overridden_methods()) ovq.push_back(qn(b)); mo["ovq"] = std::move(ovq);
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"] = true; mo["copy"] = c->isCopyConstructor(); }
            if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
            ms.push_back(std::move(mo)); }
        o["methods"] = std::move(ms);
        o["abstract"] = R->isAbstract();
        Records.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* D) {
        if (!D->isThisDeclarationADefinition() || D->isDependentContext() || !inRoot(D->getLocation())) return true;
        json::Object o; o["qn"] = D->getQualifiedNameAsString(); json::Array cs;
        for (auto* c : D->enumerators()) { json::Object co; co["n"] = c->getNameAsString(); co["v"] = (int64_t)I64(c->getInitVal()); cs.push_back(std::move(co)); }
        o["consts"] = std::move(cs); o["file"] = rel(fileOf(D->getLocation())); o["line"] = lineOf(D->getLocation());
        Enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) return true;
        json::Object o; o["qn"] = qn(V); o["t"] = ty(V->getType()); o["file"] = rel(fileOf(V->getLocation())); o["line"] = lineOf(V->getLocation());
        if (V->getAnyInitializer() && V->isThisDeclarationADefinition()) o["init"] = X(V->getAnyInitializer());
        o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        Globals.push_back(std::move(o));
        return true;
    }
};

struct Consumer : public ASTConsumer {
    std::string Out; CompilerInstance& CI;
    Consumer(CompilerInstance& CI, std::string O) : Out(O), CI(CI) {}
    void HandleTranslationUnit(ASTContext& C) override {
        Extractor X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
        o["functions"] = std::move(X.Funcs); o["records"] = std::move(X.Records); o["enums"] = std::move(X.Enums); o["globals"] = std::move(X.Globals); o["types"] = std::move(X.Types);
        std::error_code EC; llvm::raw_fd_ostream os(Out, EC);
        os << json::Value(std::move(o)) << "\n";
    }
};
static std::string OutFile;
struct Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(CI, OutFile); }
};
// usage: extract ROOT OUT SOURCE EXCL1,EXCL2 -- compiler flags
int main(int argc, char** argv) {
    if (argc < 6) { llvm::errs() << "usage\n"; return 2; }
    Root = argv[1]; OutFile = argv[2]; std::string Src = argv[3]; 
    { std::string e = argv[4]; size_t p = 0; while (p <= e.size()) { size_t q = e.find(',', p); if (q == std::string::npos) q = e.size(); if (q > p) Excludes.push_back(e.substr(p, q-p)); p = q+1; } }
    std::vector<std::string> Flags; for (int i = 6; i < argc; ++i) Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool T(DB, {Src});
    int r = T.run(tooling::newFrontendActionFactory<Action>().get());
    return r;
}
