// astdump: writes a compact, fully resolved picture of every function, record,
// enum and static variable that the repository defines, as JSON lines.
//
//   astdump OUT ROOT MAINFILE -- compiler flags
//
// Only declarations located under ROOT (the repository's packages) are written.
// Template instantiations are written with their concrete types; templates
// themselves are not (nothing in them is resolved).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/xxhash.h"
#include <deque>
#include <map>
#include <set>
#include <string>

using namespace clang;
using namespace llvm;
namespace J = llvm::json;

static std::string OutPath, Root;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper>
{
    ASTContext& C;
    SourceManager& SM;
    raw_ostream& OS;
    PrintingPolicy PP;
    std::map<const void*, int64_t> typeIds;
    std::vector<QualType> pendingTypes;
    std::set<const Decl*> seen;
    std::deque<const FunctionDecl*> queue;

public:
    Dumper(ASTContext& c, raw_ostream& os) : C(c), SM(c.getSourceManager()), OS(os), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
        PP.SuppressInlineNamespace = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    // ---- locations -----------------------------------------------------
    bool where(SourceLocation loc, std::string& file, unsigned& line)
    {
        loc = SM.getExpansionLoc(loc);
        if (loc.isInvalid())
            return false;
        PresumedLoc p = SM.getPresumedLoc(loc);
        if (p.isInvalid())
            return false;
        const FileEntry* fe = SM.getFileEntryForID(SM.getFileID(loc));
        if (!fe)
            return false;
        StringRef real = fe->tryGetRealPathName();
        file = real.empty() ? std::string(p.getFilename()) : real.str();
        line = p.getLine();
        return true;
    }
    bool ours(SourceLocation loc, std::string& file, unsigned& line)
    {
        if (!where(loc, file, line))
            return false;
        auto w = file.find("/stubs/witness/");
        if (w != std::string::npos) {
            file = file.substr(w + 1);
            return true;
        }
        if (!StringRef(file).starts_with(Root))
            return false;
        file = file.substr(Root.size());
        if (StringRef(file).starts_with("boost/"))
            return false;
        return true;
    }
    unsigned lineOf(SourceLocation loc)
    {
        return SM.getExpansionLineNumber(loc);
    }

    // ---- names ---------------------------------------------------------
    std::string usr(const Decl* d)
    {
        SmallString<256> buf;
        if (index::generateUSRForDecl(d->getCanonicalDecl(), buf))
            return "?" + std::to_string(d->getCanonicalDecl()->getID());
        return buf.str().str();
    }
    std::string qual(const NamedDecl* d)
    {
        std::string s;
        raw_string_ostream os(s);
        if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
            os << tyStr(C.getRecordType(m->getParent())) << "::";
            if (isa<CXXConstructorDecl>(m))
                os << "(ctor)";
            else if (isa<CXXDestructorDecl>(m))
                os << "(dtor)";
            else if (auto* conv = dyn_cast<CXXConversionDecl>(m))
                os << "operator " << tyStr(conv->getConversionType());
            else
                os << m->getNameAsString();
            return os.str();
        }
        d->printQualifiedName(os, PP);
        return os.str();
    }
    std::string tyStr(QualType t)
    {
        return t.getCanonicalType().getAsString(PP);
    }

    int ty(QualType t)
    {
        if (t.isNull())
            return -1;
        t = t.getCanonicalType();
        auto it = typeIds.find(t.getAsOpaquePtr());
        if (it != typeIds.end())
            return it->second;
        std::string str = tyStr(t);
        // stable id, so that tables of several units can be merged
        int id = (int)(llvm::xxh3_64bits(str + (t.isConstQualified() ? "#c" : "")) & 0x3fffffff);
        typeIds[t.getAsOpaquePtr()] = id;
        J::Object o;
        o["T"] = id;
        o["s"] = fix(str);
        if (t.isConstQualified())
            o["c"] = 1;
        if (t->isReferenceType()) {
            o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
            o["p"] = ty(t->getPointeeType());
        } else if (t->isPointerType()) {
            o["k"] = "ptr";
            o["p"] = ty(t->getPointeeType());
        } else if (auto* rt = t->getAs<RecordType>()) {
            o["k"] = "rec";
            auto* rd = rt->getDecl();
            o["q"] = fix(tyStr(t.getUnqualifiedType()));
            o["u"] = usr(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                std::string s;
                raw_string_ostream os(s);
                sp->getSpecializedTemplate()->printQualifiedName(os, PP);
                o["tn"] = os.str();
                J::Array ta;
                for (auto& a : sp->getTemplateArgs().asArray())
                    addArg(ta, a);
                o["ta"] = std::move(ta);
            }
        } else if (t->isBooleanType())
            o["k"] = "bool";
        else if (t->isEnumeralType()) {
            o["k"] = "enum";
            o["q"] = fix(tyStr(t.getUnqualifiedType()));
            o["w"] = (int)C.getTypeSize(t);
            o["us"] = (int)t->isUnsignedIntegerOrEnumerationType();
        } else if (t->isIntegerType()) {
            o["k"] = t->isAnyCharacterType() ? "char" : "int";
            o["w"] = (int)C.getTypeSize(t);
            o["us"] = (int)t->isUnsignedIntegerType();
        } else if (t->isFloatingType())
            o["k"] = "float";
        else if (t->isVoidType())
            o["k"] = "void";
        else if (t->isFunctionType())
            o["k"] = "fn";
        else if (auto* at = C.getAsConstantArrayType(t)) {
            o["k"] = "arr";
            o["p"] = ty(at->getElementType());
            o["sz"] = (int64_t)at->getSize().getZExtValue();
        } else if (t->isArrayType()) {
            o["k"] = "arr";
            o["p"] = ty(C.getAsArrayType(t)->getElementType());
        } else if (t->isNullPtrType())
            o["k"] = "nullptr";
        else
            o["k"] = "other";
        OS << J::Value(std::move(o)) << "\n";
        return id;
    }
    void addArg(J::Array& out, const TemplateArgument& a)
    {
        switch (a.getKind()) {
            case TemplateArgument::Type:
                out.push_back(fix(tyStr(a.getAsType())));
                break;
            case TemplateArgument::Integral:
                out.push_back(toString(a.getAsIntegral(), 10));
                break;
            case TemplateArgument::Pack:
                for (auto& x : a.pack_elements())
                    addArg(out, x);
                break;
            default:
                out.push_back("?");
        }
    }
    static std::string fix(std::string s)
    {
        return json::fixUTF8(s);
    }

    std::string varId(const ValueDecl* v)
    {
        if (auto* vd = dyn_cast<VarDecl>(v))
            if (vd->hasGlobalStorage() && !vd->isStaticLocal())
                return usr(vd);
        return v->getNameAsString() + "@" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(v->getLocation())))
            + (isa<ParmVarDecl>(v) ? ("p" + std::to_string(cast<ParmVarDecl>(v)->getFunctionScopeIndex())) : "");
    }

    // ---- expressions ---------------------------------------------------
    J::Value null() { return J::Value(nullptr); }

    J::Value ex(const Expr* e)
    {
        if (!e)
            return null();
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            J::Value v = ex(x->getSubExpr());
            return v;
        }
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e)) {
            return ex(x->getSubExpr());
        }
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return ex(x->getReplacement());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            switch (x->getCastKind()) {
                case CK_IntegralCast:
                case CK_IntegralToBoolean:
                case CK_PointerToBoolean:
                case CK_DerivedToBase:
                case CK_UncheckedDerivedToBase:
                case CK_BaseToDerived:
                case CK_IntegralToFloating:
                case CK_FloatingToIntegral: {
                    J::Object o;
                    o["k"] = "ic";
                    o["ck"] = x->getCastKindName();
                    o["e"] = ex(x->getSubExpr());
                    o["t"] = ty(x->getType());
                    if (e->isLValue())
                        o["lv"] = 1;
                    if (e->isXValue())
                        o["xv"] = 1;
                    cv(o, e);
                    return std::move(o);
                }
                case CK_NullToPointer: {
                    J::Object o;
                    o["k"] = "null";
                    o["t"] = ty(x->getType());
                    return std::move(o);
                }
                default:
                    return ex(x->getSubExpr());
            }
        }
        J::Object o;
        o["l"] = (int64_t)lineOf(e->getExprLoc());
        o["t"] = ty(e->getType());
        if (e->isLValue())
            o["lv"] = 1;
        if (e->isXValue())
            o["xv"] = 1;
        cv(o, e);

        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            o["k"] = "ref";
            refTo(o, x->getDecl());
            if (x->refersToEnclosingVariableOrCapture())
                o["cap"] = 1;
        } else if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* md = x->getMemberDecl();
            if (isa<FieldDecl>(md)) {
                o["k"] = "mem";
                o["b"] = ex(x->getBase());
                o["f"] = md->getNameAsString();
                o["fq"] = fix(tyStr(C.getRecordType(cast<RecordDecl>(md->getDeclContext())))) + "::" + md->getNameAsString();
                if (x->isArrow())
                    o["ar"] = 1;
            } else {
                o["k"] = "ref";
                refTo(o, md);
                o["b"] = ex(x->getBase());
            }
        } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* cd = x->getConstructor();
            o["k"] = "ctor";
            fnRef(o, cd);
            o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
            if (x->isElidable())
                o["el"] = 1;
            o["a"] = args(x->getArgs(), x->getNumArgs());
        } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "ctor";
            fnRef(o, x->getConstructor());
            o["ck"] = "other";
            o["a"] = J::Array{};
        } else if (auto* x = dyn_cast<CallExpr>(e)) {
            call(o, x);
        } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            return ex(x->getSemanticForm());
        } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = x->isAssignmentOp() ? "asg" : "bin";
            o["o"] = x->getOpcodeStr().str();
            o["L"] = ex(x->getLHS());
            o["R"] = ex(x->getRHS());
        } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                s = "p" + s;
            o["o"] = s;
            o["e"] = ex(x->getSubExpr());
        } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = ex(x->getCond());
            o["T"] = ex(x->getTrueExpr());
            o["F"] = ex(x->getFalseExpr());
        } else if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = ex(x->getCommon());
            o["T"] = ex(x->getCommon());
            o["F"] = ex(x->getFalseExpr());
        } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
            if (x->getSourceExpr())
                return ex(x->getSourceExpr());
            o["k"] = "opq";
        } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
        } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "int";
            o["chr"] = 1;
        } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "int";
            o["cv"] = x->getValue() ? 1 : 0;
        } else if (isa<FloatingLiteral>(e)) {
            o["k"] = "flt";
        } else if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            o["k"] = "str";
            std::string v;
            if (x->getCharByteWidth() == 1)
                v = x->getString().str();
            // keep bytes: one code point per byte
            std::string enc;
            for (unsigned char ch : v) {
                if (ch < 0x80)
                    enc += (char)ch;
                else {
                    enc += (char)(0xC0 | (ch >> 6));
                    enc += (char)(0x80 | (ch & 0x3F));
                }
            }
            o["v"] = enc;
        } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["k"] = "null";
        } else if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
        } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["at"] = ty(x->getAllocatedType());
            if (x->isArray()) {
                o["arr"] = 1;
                if (auto as = x->getArraySize())
                    o["n"] = ex(*as);
            }
            if (x->getInitializer())
                o["e"] = ex(x->getInitializer());
        } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "del";
            if (x->isArrayForm())
                o["arr"] = 1;
            o["e"] = ex(x->getArgument());
        } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            o["e"] = ex(x->getSubExpr());
        } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["b"] = ex(x->getBase());
            o["i"] = ex(x->getIdx());
        } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            o["k"] = "cast";
            o["ck"] = isa<CXXStaticCastExpr>(x) ? "static" :
                isa<CXXDynamicCastExpr>(x)      ? "dynamic" :
                isa<CXXConstCastExpr>(x)        ? "const" :
                isa<CXXReinterpretCastExpr>(x)  ? "reinterpret" :
                isa<CXXFunctionalCastExpr>(x)   ? "func" :
                                                  "c";
            o["kk"] = x->getCastKindName();
            o["e"] = ex(x->getSubExpr());
        } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lam";
            auto* op = x->getCallOperator();
            o["f"] = usr(op);
            enqueue(op);
            if (x->isGenericLambda())
                if (auto* td = op->getDescribedFunctionTemplate()) {
                    J::Array specs;
                    for (auto* s : td->specializations()) {
                        specs.push_back(usr(s));
                        enqueue(s);
                    }
                    o["specs"] = std::move(specs);
                }
            J::Array caps;
            auto init = x->capture_init_begin();
            for (auto& c : x->captures()) {
                J::Object co;
                if (c.capturesThis())
                    co["this"] = 1;
                else if (c.capturesVariable()) {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["d"] = varId(c.getCapturedVar());
                }
                if (c.getCaptureKind() == LCK_ByRef)
                    co["ref"] = 1;
                co["e"] = ex(*init);
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto* x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!s)
                s = x;
            o["k"] = "init";
            J::Array a;
            for (auto* i : s->inits())
                a.push_back(ex(i));
            o["a"] = std::move(a);
        } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
            J::Value v = ex(x->getExpr());
            if (auto* ob = v.getAsObject())
                (*ob)["da"] = 1;
            return v;
        } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
            J::Value v = ex(x->getExpr());
            if (auto* ob = v.getAsObject())
                (*ob)["di"] = 1;
            return v;
        } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["k"] = "zero";
        } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "sizeof";
            if (!x->isArgumentType())
                o["e"] = ex(x->getArgumentExpr());
            else
                o["at"] = ty(x->getArgumentType());
        } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
            o["k"] = "typeid";
        } else if (auto* x = dyn_cast<StmtExpr>(e)) {
            o["k"] = "stmt";
            o["b"] = st(x->getSubStmt());
        } else {
            o["k"] = "other";
            o["cls"] = e->getStmtClassName();
            J::Array a;
            for (auto* ch : e->children())
                if (auto* ce = dyn_cast_or_null<Expr>(ch))
                    a.push_back(ex(ce));
            o["a"] = std::move(a);
        }
        return std::move(o);
    }

    void cv(J::Object& o, const Expr* e)
    {
        if (e->isValueDependent() || e->isTypeDependent())
            return;
        if (!e->getType()->isIntegralOrEnumerationType())
            return;
        if (isa<CallExpr>(e) && !isa<CXXMemberCallExpr>(e)) {
            // keep calls as calls, the value is still useful
        }
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
            auto v = r.Val.getInt();
            if (v.getSignificantBits() <= 64)
                o["cv"] = v.isUnsigned() && v.getActiveBits() > 63 ? J::Value((double)v.getZExtValue())
                                                                  : J::Value((int64_t)v.getExtValue());
            if (v.isUnsigned() && v.getActiveBits() > 63)
                o["cvs"] = toString(v, 10);
        }
    }

    void refTo(J::Object& o, const ValueDecl* d)
    {
        o["n"] = fix(d->getNameAsString());
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            o["dk"] = "fn";
            fnRef(o, f);
        } else if (auto* p = dyn_cast<ParmVarDecl>(d)) {
            o["dk"] = "parm";
            o["d"] = varId(p);
        } else if (auto* v = dyn_cast<VarDecl>(d)) {
            o["dk"] = v->isStaticLocal() ? "slocal" : v->hasGlobalStorage() ? "glob" : "var";
            o["d"] = varId(v);
            if (v->hasGlobalStorage())
                o["qn"] = fix(qual(v));
        } else if (auto* c = dyn_cast<EnumConstantDecl>(d)) {
            o["dk"] = "enumc";
            o["qn"] = fix(qual(c));
        } else {
            o["dk"] = d->getDeclKindName();
            o["d"] = varId(d);
        }
    }

    void fnRef(J::Object& o, const FunctionDecl* f)
    {
        o["f"] = usr(f);
        o["q"] = fix(qual(f));
        if (auto* t = f->getTemplateSpecializationArgs()) {
            J::Array ta;
            for (auto& a : t->asArray())
                addArg(ta, a);
            o["ta"] = std::move(ta);
        }
        std::string pk;
        for (auto* p : f->parameters()) {
            QualType pt = p->getType().getCanonicalType();
            if (pt->isRValueReferenceType())
                pk += 'x';
            else if (pt->isReferenceType())
                pk += pt->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (pt->isPointerType())
                pk += pt->getPointeeType().isConstQualified() ? 'q' : 'p';
            else
                pk += 'v';
        }
        o["pk"] = pk;
        if (f->isNoReturn())
            o["nr"] = 1;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isConst())
                o["cst"] = 1;
            if (m->isStatic())
                o["stc"] = 1;
        }
        if (auto* pt = f->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()) && pt->isNothrow())
                o["nx"] = 1;
    }

    J::Array args(const Expr* const* a, unsigned n)
    {
        J::Array out;
        for (unsigned i = 0; i < n; ++i)
            out.push_back(ex(a[i]));
        return out;
    }

    void call(J::Object& o, const CallExpr* x)
    {
        o["k"] = "call";
        const FunctionDecl* fd = x->getDirectCallee();
        if (fd)
            fnRef(o, fd);
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(x)) {
            o["op"] = getOperatorSpelling(oc->getOperator());
            if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
                o["ob"] = ex(oc->getArg(0));
                J::Array a;
                for (unsigned i = 1; i < oc->getNumArgs(); ++i)
                    a.push_back(ex(oc->getArg(i)));
                o["a"] = std::move(a);
                if (cast<CXXMethodDecl>(fd)->isVirtual())
                    o["vt"] = 1;
                return;
            }
            o["a"] = args(oc->getArgs(), oc->getNumArgs());
            return;
        }
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(x)) {
            const Expr* callee = mc->getCallee()->IgnoreParens();
            if (auto* me = dyn_cast<MemberExpr>(callee)) {
                o["ob"] = ex(me->getBase());
                if (me->isArrow())
                    o["ar"] = 1;
                if (auto* md = dyn_cast_or_null<CXXMethodDecl>(fd))
                    if (md->isVirtual() && !me->hasQualifier())
                        o["vt"] = 1;
                if (fd && isa<CXXDestructorDecl>(fd))
                    o["dtor"] = 1;
            } else
                o["ce"] = ex(callee);
            if (fd && isa<CXXConversionDecl>(fd))
                o["cvn"] = 1;
            o["a"] = args(mc->getArgs(), mc->getNumArgs());
            return;
        }
        if (!fd)
            o["ce"] = ex(x->getCallee());
        o["a"] = args(x->getArgs(), x->getNumArgs());
    }

    // ---- statements ----------------------------------------------------
    J::Value var(const VarDecl* v)
    {
        J::Object o;
        o["d"] = varId(v);
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["l"] = (int64_t)lineOf(v->getLocation());
        if (v->isStaticLocal())
            o["static"] = 1;
        if (v->getInit())
            o["e"] = ex(v->getInit());
        return std::move(o);
    }

    J::Value st(const Stmt* s)
    {
        if (!s)
            return null();
        J::Object o;
        o["l"] = (int64_t)lineOf(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) {
            o["s"] = "exp";
            o["e"] = ex(e);
        } else if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["s"] = "blk";
            J::Array b;
            for (auto* c : x->body())
                b.push_back(st(c));
            o["b"] = std::move(b);
            o["el"] = (int64_t)lineOf(x->getRBracLoc());
        } else if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["s"] = "decl";
            J::Array vs;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d))
                    vs.push_back(var(v));
            o["v"] = std::move(vs);
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            o["s"] = "if";
            if (x->getInit())
                o["i"] = st(x->getInit());
            if (x->getConditionVariable())
                o["v"] = var(x->getConditionVariable());
            o["c"] = ex(x->getCond());
            if (x->isConstexpr() || x->isConsteval())
                o["cx"] = 1;
            o["T"] = st(x->getThen());
            o["F"] = st(x->getElse());
        } else if (auto* x = dyn_cast<ForStmt>(s)) {
            o["s"] = "for";
            o["i"] = st(x->getInit());
            if (x->getConditionVariable())
                o["v"] = var(x->getConditionVariable());
            o["c"] = ex(x->getCond());
            o["n"] = ex(x->getInc());
            o["b"] = st(x->getBody());
        } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["s"] = "rfor";
            o["v"] = var(x->getLoopVariable());
            o["r"] = ex(x->getRangeInit());
            o["b"] = st(x->getBody());
        } else if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["s"] = "while";
            if (x->getConditionVariable())
                o["v"] = var(x->getConditionVariable());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
        } else if (auto* x = dyn_cast<DoStmt>(s)) {
            o["s"] = "do";
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
        } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["s"] = "switch";
            if (x->getInit())
                o["i"] = st(x->getInit());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
        } else if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["s"] = "case";
            o["c"] = ex(x->getLHS());
            if (x->getRHS())
                o["hi"] = ex(x->getRHS());
            o["b"] = st(x->getSubStmt());
        } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
            o["s"] = "default";
            o["b"] = st(x->getSubStmt());
        } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["s"] = "ret";
            if (x->getRetValue())
                o["e"] = ex(x->getRetValue());
        } else if (isa<BreakStmt>(s)) {
            o["s"] = "brk";
        } else if (isa<ContinueStmt>(s)) {
            o["s"] = "cnt";
        } else if (auto* x = dyn_cast<GotoStmt>(s)) {
            o["s"] = "goto";
            o["n"] = x->getLabel()->getNameAsString();
        } else if (auto* x = dyn_cast<LabelStmt>(s)) {
            o["s"] = "label";
            o["n"] = x->getDecl()->getNameAsString();
            o["b"] = st(x->getSubStmt());
        } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["s"] = "try";
            o["b"] = st(x->getTryBlock());
            J::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                J::Object ho;
                if (h->getExceptionDecl()) {
                    ho["v"] = var(h->getExceptionDecl());
                    ho["t"] = ty(h->getCaughtType());
                }
                ho["b"] = st(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        } else if (isa<NullStmt>(s)) {
            o["s"] = "null";
        } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
            return st(x->getSubStmt());
        } else {
            o["s"] = "other";
            o["cls"] = s->getStmtClassName();
        }
        return std::move(o);
    }

    // ---- declarations --------------------------------------------------
    void enqueue(const FunctionDecl* f)
    {
        queue.push_back(f);
    }

    // a body the compiler did not get through: nothing of it is told
    static bool broken(const Stmt* x)
    {
        if (!x)
            return false;
        if (auto* e = dyn_cast<Expr>(x))
            if (e->containsErrors())
                return true;
        if (auto* d = dyn_cast<DeclStmt>(x))
            for (auto* v : d->decls())
                if (v->isInvalidDecl())
                    return true;
        for (auto* c : x->children())
            if (broken(c))
                return true;
        return false;
    }
    bool broken(const FunctionDecl* f)
    {
        if (!C.getDiagnostics().hasErrorOccurred())
            return false;
        return f->isInvalidDecl() || broken(f->getBody());
    }

    void emitFn(const FunctionDecl* f)
    {
        f = f->getDefinition() ? f->getDefinition() : f;
        if (f->isDependentContext())
            return;
        if (!seen.insert(f).second)
            return;
        std::string file;
        unsigned line;
        if (!ours(f->getLocation(), file, line))
            return;
        bool body = f->doesThisDeclarationHaveABody() && f->getBody() && !broken(f);
        auto* md = dyn_cast<CXXMethodDecl>(f);
        if (!body && !md)
            return; // plain declarations are not needed
        J::Object o;
        o["k"] = "fn";
        fnRef(o, f);
        o["file"] = file;
        o["line"] = (int64_t)line;
        o["n"] = fix(f->getNameAsString());
        o["ret"] = ty(f->getReturnType());
        if (f->isOverloadedOperator())
            o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        J::Array ps;
        for (auto* p : f->parameters()) {
            J::Object po;
            po["d"] = varId(p);
            po["n"] = p->getNameAsString();
            po["t"] = ty(p->getType());
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        if (auto* t = f->getPrimaryTemplate()) {
            std::string s;
            raw_string_ostream os(s);
            t->printQualifiedName(os, PP);
            o["tn"] = os.str();
        }
        if (f->isDefaulted())
            o["dft"] = 1;
        if (f->isDeleted())
            o["del"] = 1;
        if (f->isImplicit())
            o["imp"] = 1;
        if (f->getFormalLinkage() == clang::Linkage::Internal)
            o["internal"] = 1;
        if (f->isVariadic())
            o["variadic"] = 1;
        if (f->isExternC())
            o["c"] = 1;
        if (md) {
            o["cls"] = fix(tyStr(C.getRecordType(md->getParent())));
            o["clsu"] = usr(md->getParent());
            if (md->isStatic())
                o["static"] = 1;
            if (md->isVirtual())
                o["virt"] = 1;
            if (md->isPureVirtual())
                o["pure"] = 1;
            if (md->isConst())
                o["const"] = 1;
            o["acc"] = md->getAccess() == AS_public ? "public" : md->getAccess() == AS_private ? "private" : "protected";
            if (md->isVirtual()) {
                J::Array ov;
                for (auto* b : md->overridden_methods())
                    ov.push_back(usr(b));
                o["ov"] = std::move(ov);
            }
            if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
                o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
                if (body) {
                    J::Array is;
                    for (auto* i : cd->inits()) {
                        J::Object io;
                        if (i->isAnyMemberInitializer())
                            io["f"] = i->getAnyMember()->getNameAsString();
                        else if (i->isBaseInitializer())
                            io["base"] = fix(tyStr(QualType(i->getBaseClass(), 0)));
                        else if (i->isDelegatingInitializer())
                            io["deleg"] = 1;
                        if (i->isWritten())
                            io["w"] = 1;
                        io["e"] = ex(i->getInit());
                        is.push_back(std::move(io));
                    }
                    o["inits"] = std::move(is);
                }
            } else if (isa<CXXDestructorDecl>(f))
                o["ck"] = "dtor";
            else if (md->isCopyAssignmentOperator())
                o["ck"] = "copy=";
            else if (md->isMoveAssignmentOperator())
                o["ck"] = "move=";
        }
        if (body) {
            o["endl"] = (int64_t)lineOf(f->getBody()->getEndLoc());
            o["body"] = st(f->getBody());
        }
        OS << J::Value(std::move(o)) << "\n";
    }

    void drain()
    {
        while (!queue.empty()) {
            auto* f = queue.front();
            queue.pop_front();
            emitFn(f);
        }
    }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isThisDeclarationADefinition() || isa<CXXMethodDecl>(f)) {
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    return true; // emitted when the lambda expression is met
            emitFn(f);
            drain();
        }
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        std::string file;
        unsigned line;
        if (!ours(r->getLocation(), file, line))
            return true;
        J::Object o;
        o["k"] = "rec";
        o["u"] = usr(r);
        o["q"] = fix(tyStr(C.getRecordType(r)));
        o["file"] = file;
        o["line"] = (int64_t)line;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            std::string s;
            raw_string_ostream os(s);
            sp->getSpecializedTemplate()->printQualifiedName(os, PP);
            o["tn"] = os.str();
            J::Array ta;
            for (auto& a : sp->getTemplateArgs().asArray())
                addArg(ta, a);
            o["ta"] = std::move(ta);
        }
        J::Array bs;
        for (auto& b : r->bases()) {
            J::Object bo;
            bo["q"] = fix(tyStr(b.getType()));
            if (auto* br = b.getType()->getAsCXXRecordDecl())
                bo["u"] = usr(br);
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        J::Array fs;
        for (auto* f : r->fields()) {
            J::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            fo["l"] = (int64_t)lineOf(f->getLocation());
            if (f->isMutable())
                fo["mut"] = 1;
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["e"] = ex(f->getInClassInitializer());
            else if (f->hasInClassInitializer())
                fo["hasinit"] = 1;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (r->isPolymorphic())
            o["poly"] = 1;
        if (r->isAbstract())
            o["abs"] = 1;
        if (auto* d = r->getDestructor()) {
            if (d->isVirtual())
                o["vdtor"] = 1;
            if (d->isUserProvided())
                o["udtor"] = 1;
        }
        if (r->hasUserDeclaredCopyConstructor())
            o["ucopy"] = 1;
        if (r->hasUserDeclaredCopyAssignment())
            o["uassign"] = 1;
        bool delcopy = false;
        for (auto* c : r->ctors())
            if (c->isCopyConstructor() && c->isDeleted())
                delcopy = true;
        if (delcopy || (!r->hasUserDeclaredCopyConstructor() && r->defaultedCopyConstructorIsDeleted()))
            o["nocopy"] = 1;
        OS << J::Value(std::move(o)) << "\n";
        drain();
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e)
    {
        std::string file;
        unsigned line;
        if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !ours(e->getLocation(), file, line))
            return true;
        J::Object o;
        o["k"] = "enum";
        o["q"] = fix(tyStr(C.getEnumType(e)));
        o["file"] = file;
        o["line"] = (int64_t)line;
        J::Array cs;
        for (auto* c : e->enumerators()) {
            J::Array p;
            p.push_back(c->getNameAsString());
            p.push_back((int64_t)c->getInitVal().getExtValue());
            cs.push_back(std::move(p));
        }
        o["cs"] = std::move(cs);
        OS << J::Value(std::move(o)) << "\n";
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v) || v->getDeclContext()->isDependentContext() || v->getType()->isDependentType())
            return true;
        std::string file;
        unsigned line;
        if (!ours(v->getLocation(), file, line))
            return true;
        J::Object o;
        o["k"] = "gvar";
        o["u"] = v->isStaticLocal() ? varId(v) : usr(v);
        o["q"] = fix(qual(v));
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["file"] = file;
        o["line"] = (int64_t)line;
        if (v->isStaticLocal()) {
            o["slocal"] = 1;
            if (auto* f = dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod()))
                o["fn"] = usr(f);
        }
        if (v->isStaticDataMember())
            o["smember"] = 1;
        if (v->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        if (v->isConstexpr())
            o["cx"] = 1;
        if (v->hasConstantInitialization())
            o["ci"] = 1;
        if (v->isThisDeclarationADefinition() == VarDecl::Definition)
            o["def"] = 1;
        if (v->getInit() && !v->getInit()->isValueDependent())
            o["e"] = ex(v->getInit());
        OS << J::Value(std::move(o)) << "\n";
        drain();
        return true;
    }
};

class Consumer : public ASTConsumer
{
    raw_ostream& OS;

public:
    explicit Consumer(raw_ostream& os) : OS(os) {}
    void HandleTranslationUnit(ASTContext& c) override
    {
        Dumper d(c, OS);
        d.TraverseDecl(c.getTranslationUnitDecl());
        d.drain();
        // dependencies: every repository file this unit read
        auto& SM = c.getSourceManager();
        J::Array deps;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            StringRef p = it->first.getFileEntry().tryGetRealPathName();
            if (p.starts_with(Root) && !p.substr(Root.size()).starts_with("boost/"))
                deps.push_back(p.substr(Root.size()));
        }
        J::Object o;
        o["k"] = "deps";
        o["files"] = std::move(deps);
        o["errors"] = (int64_t)c.getDiagnostics().hasErrorOccurred();
        OS << J::Value(std::move(o)) << "\n";
    }
};

class Action : public ASTFrontendAction
{
    std::unique_ptr<raw_fd_ostream> os;

public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        std::error_code ec;
        os = std::make_unique<raw_fd_ostream>(OutPath, ec);
        return std::make_unique<Consumer>(*os);
    }
};
}

int main(int argc, const char** argv)
{
    if (argc < 5) {
        errs() << "usage: astdump OUT ROOT MAINFILE -- flags\n";
        return 2;
    }
    OutPath = argv[1];
    Root = argv[2];
    std::string mainFile = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { mainFile });
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
