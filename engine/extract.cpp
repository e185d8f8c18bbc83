// pdfmm fact extractor: dumps, for every function defined under a source root,
// its resolved expression nodes and control-flow graph, plus records, enums
// and variables with static storage, as one JSON object per line.
// It contains no property-specific logic: the rules live in ../rules/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;

static std::string g_root; // e.g. /repo/src/
static const unsigned MAX_INIT_NODES = 200000;

static std::string esc(llvm::StringRef s)
{
    std::string r;
    r.reserve(s.size() + 2);
    r.push_back('"');
    for (unsigned char c : s)
    {
        switch (c)
        {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            default:
                if (c < 0x20 || c >= 0x7f)
                {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                }
                else
                    r.push_back((char)c);
        }
    }
    r.push_back('"');
    return r;
}

class Dumper
{
public:
    Dumper(ASTContext& ctx, llvm::raw_ostream& os) : Ctx(ctx), SM(ctx.getSourceManager()), OS(os) { }

    // ---------- locations
    std::string fileOf(SourceLocation loc)
    {
        loc = SM.getExpansionLoc(loc);
        auto p = SM.getPresumedLoc(loc, false);
        if (p.isInvalid()) return "";
        return p.getFilename();
    }
    unsigned lineOf(SourceLocation loc)
    {
        return SM.getExpansionLineNumber(loc);
    }
    bool inRoot(SourceLocation loc)
    {
        auto f = fileOf(loc);
        return f.compare(0, g_root.size(), g_root) == 0;
    }

    // ---------- types
    int typeId(QualType t)
    {
        if (t.isNull()) return -1;
        auto it = TypeIds.find(t.getAsOpaquePtr());
        if (it != TypeIds.end()) return it->second;
        int id = (int)Types.size();
        TypeIds[t.getAsOpaquePtr()] = id;
        Types.emplace_back();
        QualType c = t.getCanonicalType();
        PrintingPolicy pp(Ctx.getLangOpts());
        pp.SuppressTagKeyword = true;
        std::string o = "{\"s\":" + esc(t.getAsString(pp)) + ",\"c\":" + esc(c.getAsString(pp));
        if (c.isConstQualified()) o += ",\"q\":1";
        if (auto r = c->getAs<ReferenceType>())
        {
            o += std::string(",\"k\":\"") + (c->isRValueReferenceType() ? "rref" : "ref") + "\",\"e\":" + std::to_string(typeId(r->getPointeeType()));
        }
        else if (auto p = c->getAs<PointerType>())
            o += ",\"k\":\"ptr\",\"e\":" + std::to_string(typeId(p->getPointeeType()));
        else if (auto a = Ctx.getAsArrayType(c))
        {
            o += ",\"k\":\"arr\",\"e\":" + std::to_string(typeId(a->getElementType()));
            if (auto ca = dyn_cast<ConstantArrayType>(a))
                o += ",\"n\":" + std::to_string(ca->getSize().getZExtValue());
        }
        else if (auto e = c->getAs<EnumType>())
            o += ",\"k\":\"enum\",\"r\":" + esc(qname(e->getDecl()));
        else if (auto rd = c->getAsCXXRecordDecl())
        {
            o += ",\"k\":\"rec\",\"r\":" + esc(qname(rd)) + ",\"d\":" + std::to_string(declId(rd));
            if (auto spec = dyn_cast<ClassTemplateSpecializationDecl>(rd))
            {
                o += ",\"ta\":[";
                bool first = true;
                for (auto& arg : spec->getTemplateArgs().asArray())
                {
                    if (!first) o += ",";
                    first = false;
                    if (arg.getKind() == TemplateArgument::Type) o += std::to_string(typeId(arg.getAsType()));
                    else o += "-1";
                }
                o += "]";
            }
        }
        else if (auto rt = c->getAs<RecordType>())
            o += ",\"k\":\"rec\",\"r\":" + esc(qname(rt->getDecl()));
        else if (c->isBooleanType()) o += ",\"k\":\"bool\"";
        else if (c->isVoidType()) o += ",\"k\":\"void\"";
        else if (c->isIntegerType() && !c->isDependentType())
        {
            o += ",\"k\":\"int\",\"w\":" + std::to_string(Ctx.getTypeSize(c));
            if (c->isSignedIntegerType()) o += ",\"sg\":1";
            if (c->isAnyCharacterType()) o += ",\"ch\":1";
        }
        else if (c->isRealFloatingType()) o += ",\"k\":\"flt\",\"w\":" + std::to_string(Ctx.getTypeSize(c));
        else if (c->isNullPtrType()) o += ",\"k\":\"null\"";
        else if (c->isFunctionType()) o += ",\"k\":\"func\"";
        else o += ",\"k\":\"other\"";
        o += "}";
        Types[id] = o;
        return id;
    }

    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream ss(s);
        PrintingPolicy pp(Ctx.getLangOpts());
        pp.SuppressUnwrittenScope = true;
        pp.SuppressInlineNamespace = true;
        pp.AnonymousTagLocations = false;
        d->printQualifiedName(ss, pp);
        return ss.str();
    }

    std::string usr(const Decl* d)
    {
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf))
            return "?" + std::to_string((uintptr_t)d);
        return buf.str().str();
    }

    // ---------- declarations
    int declId(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = DeclIds.find(d);
        if (it != DeclIds.end()) return it->second;
        int id = (int)Decls.size();
        DeclIds[d] = id;
        Decls.emplace_back();
        std::string o = "{";
        if (auto fd = dyn_cast<FunctionDecl>(d))
        {
            o += "\"k\":\"fn\",\"u\":" + esc(usr(fd)) + ",\"q\":" + esc(qname(fd)) + ",\"t\":" + std::to_string(typeId(fd->getReturnType()));
            o += ",\"p\":[";
            bool first = true;
            for (auto p : fd->parameters())
            {
                if (!first) o += ",";
                first = false;
                o += std::to_string(typeId(p->getType()));
            }
            o += "]";
            if (auto fpt = fd->getType()->getAs<FunctionProtoType>())
            {
                auto est = fpt->getExceptionSpecType();
                if (!isUnresolvedExceptionSpec(est) && fpt->isNothrow()) o += ",\"nt\":1";
                if (fpt->isVariadic()) o += ",\"var\":1";
            }
            if (fd->isNoReturn()) o += ",\"nr\":1";
            if (fd->getBuiltinID()) o += ",\"bi\":1";
            if (fd->isDeleted()) o += ",\"del\":1";
            if (fd->isStatic() || fd->getStorageClass() == SC_Static) o += ",\"st\":1";
            if (fd->isExternC()) o += ",\"c\":1";
            if (auto pat = fd->getTemplateInstantiationPattern())
                o += ",\"tpl\":" + esc(usr(pat));
            if (auto md = dyn_cast<CXXMethodDecl>(fd))
            {
                o += ",\"cls\":" + esc(qname(md->getParent()));
                if (md->isVirtual()) o += ",\"v\":1";
                if (md->isPureVirtual()) o += ",\"pv\":1";
                if (md->isConst()) o += ",\"cm\":1";
                if (md->isStatic()) o += ",\"sm\":1";
                if (isa<CXXConstructorDecl>(md))
                {
                    o += ",\"ctor\":1";
                    auto cd = cast<CXXConstructorDecl>(md);
                    if (cd->isCopyConstructor()) o += ",\"cc\":1";
                    if (cd->isMoveConstructor()) o += ",\"mc\":1";
                    if (cd->isDefaultConstructor()) o += ",\"dc\":1";
                }
                if (isa<CXXDestructorDecl>(md)) o += ",\"dtor\":1";
                if (isa<CXXConversionDecl>(md)) o += ",\"conv\":1";
                if (md->isCopyAssignmentOperator()) o += ",\"ca\":1";
                if (md->isMoveAssignmentOperator()) o += ",\"ma\":1";
                if (md->isImplicit()) o += ",\"imp\":1";
                if (md->isDefaulted()) o += ",\"def\":1";
                if (md->getParent()->isLambda()) o += ",\"lam\":1";
                o += ",\"acc\":" + std::to_string((int)md->getAccess());
                if (md->size_overridden_methods())
                {
                    o += ",\"ov\":[";
                    first = true;
                    for (auto m : md->overridden_methods())
                    {
                        if (!first) o += ",";
                        first = false;
                        o += std::to_string(declId(m));
                    }
                    o += "]";
                }
            }
            if (fd->isOverloadedOperator()) o += ",\"oo\":" + esc(getOperatorSpelling(fd->getOverloadedOperator()));
            o += inRootFlag(fd);
        }
        else if (auto vd = dyn_cast<VarDecl>(d))
        {
            o += std::string("\"k\":\"") + (isa<ParmVarDecl>(vd) ? "parm" : "var") + "\",\"q\":" + esc(qname(vd)) + ",\"t\":" + std::to_string(typeId(vd->getType()));
            if (vd->hasGlobalStorage())
                o += ",\"u\":" + esc(usr(vd)) + ",\"g\":1";
            if (vd->isStaticLocal()) o += ",\"sl\":1";
            if (auto pd = dyn_cast<ParmVarDecl>(vd)) o += ",\"pi\":" + std::to_string(pd->getFunctionScopeIndex());
            o += ",\"ln\":" + std::to_string(lineOf(vd->getLocation()));
            o += inRootFlag(vd);
        }
        else if (auto fd = dyn_cast<FieldDecl>(d))
        {
            o += "\"k\":\"field\",\"q\":" + esc(qname(fd)) + ",\"t\":" + std::to_string(typeId(fd->getType())) + ",\"cls\":" + esc(qname(fd->getParent()));
            o += inRootFlag(fd);
        }
        else if (auto ec = dyn_cast<EnumConstantDecl>(d))
        {
            o += "\"k\":\"enumc\",\"q\":" + esc(qname(ec)) + ",\"v\":" + std::to_string(ec->getInitVal().getExtValue());
        }
        else if (auto rd = dyn_cast<CXXRecordDecl>(d))
        {
            o += "\"k\":\"rec\",\"q\":" + esc(qname(rd)) + ",\"u\":" + esc(usr(rd));
            o += inRootFlag(rd);
        }
        else if (auto nd = dyn_cast<NamedDecl>(d))
            o += "\"k\":\"other\",\"q\":" + esc(qname(nd));
        else
            o += "\"k\":\"other\",\"q\":\"\"";
        o += "}";
        Decls[id] = o;
        return id;
    }
    std::string inRootFlag(const Decl* d) { return inRoot(d->getLocation()) ? ",\"in\":1" : ""; }

    // ---------- expression nodes
    struct FnCtx
    {
        llvm::DenseMap<const Stmt*, int> ids;
        std::vector<std::string> nodes;
        struct Try { const CXXTryStmt* s; int lo, hi; };
        std::vector<Try> tries;
    };
    FnCtx* F = nullptr;

    static bool isWrapper(const Stmt* s)
    {
        if (isa<ParenExpr>(s) || isa<ExprWithCleanups>(s) || isa<MaterializeTemporaryExpr>(s)
            || isa<CXXBindTemporaryExpr>(s) || isa<ConstantExpr>(s) || isa<SubstNonTypeTemplateParmExpr>(s)
            || isa<AttributedStmt>(s))
            return true;
        if (auto c = dyn_cast<ImplicitCastExpr>(s))
        {
            switch (c->getCastKind())
            {
                case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay:
                case CK_UserDefinedConversion: case CK_ConstructorConversion:
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
                    return true;
                default: return false;
            }
        }
        return false;
    }
    static const Stmt* wrapped(const Stmt* s)
    {
        if (auto as = dyn_cast<AttributedStmt>(s)) return as->getSubStmt();
        if (auto p = dyn_cast<ParenExpr>(s)) return p->getSubExpr();
        if (auto f = dyn_cast<FullExpr>(s)) return f->getSubExpr();
        if (auto m = dyn_cast<MaterializeTemporaryExpr>(s)) return m->getSubExpr();
        if (auto b = dyn_cast<CXXBindTemporaryExpr>(s)) return b->getSubExpr();
        if (auto n = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return n->getReplacement();
        if (auto c = dyn_cast<ImplicitCastExpr>(s)) return c->getSubExpr();
        return s;
    }

    int num(const Stmt* s)
    {
        if (!s) return -1;
        auto it = F->ids.find(s);
        if (it != F->ids.end()) return it->second;
        if (isWrapper(s))
        {
            int i = num(wrapped(s));
            F->ids[s] = i;
            if (auto ic = dyn_cast<ImplicitCastExpr>(s); ic && ic->getCastKind() == CK_LValueToRValue && i >= 0)
            {
                // the value of this lvalue is read
                auto& nd = F->nodes[i];
                nd.insert(nd.size() - 2, nd[nd.size() - 3] == '{' ? "\"rv\":1" : ",\"rv\":1");
            }
            return i;
        }
        int lo = (int)F->nodes.size();
        std::vector<int> kids;
        std::string ex;
        auto kid = [&](const Stmt* c) { int i = num(c); kids.push_back(i); return i; };

        if (auto call = dyn_cast<CallExpr>(s))
        {
            const FunctionDecl* fd = call->getDirectCallee();
            int obj = -1;
            std::vector<int> args;
            if (auto mc = dyn_cast<CXXMemberCallExpr>(call))
            {
                auto callee = mc->getCallee()->IgnoreParens();
                if (auto me = dyn_cast<MemberExpr>(callee))
                {
                    obj = kid(me->getBase());
                    F->ids[me] = obj;
                    auto md = dyn_cast<CXXMethodDecl>(me->getMemberDecl());
                    if (md && md->isVirtual() && !me->hasQualifier()) ex += ",\"v\":1";
                    if (me->isArrow()) ex += ",\"ar\":1";
                }
                else
                    obj = kid(callee);
            }
            else if (!fd)
                obj = kid(call->getCallee());
            else
                (void)0;
            unsigned ai = 0;
            for (auto a : call->arguments())
            {
                int i = kid(a);
                if (isa<CXXOperatorCallExpr>(call) && fd && isa<CXXMethodDecl>(fd) && ai == 0) obj = i;
                else args.push_back(i);
                ai++;
            }
            if (fd) ex += ",\"f\":" + std::to_string(declId(fd));
            ex += ",\"o\":" + std::to_string(obj) + ",\"a\":" + list(args);
            if (isa<CXXOperatorCallExpr>(call)) ex += ",\"op\":" + esc(getOperatorSpelling(cast<CXXOperatorCallExpr>(call)->getOperator()));
        }
        else if (auto ce = dyn_cast<CXXConstructExpr>(s))
        {
            for (auto a : ce->arguments()) kid(a);
            ex += ",\"f\":" + std::to_string(declId(ce->getConstructor())) + ",\"o\":-1,\"a\":" + list(kids);
            if (ce->isElidable()) ex += ",\"el\":1";
        }
        else if (auto da = dyn_cast<CXXDefaultArgExpr>(s)) kid(da->getExpr());
        else if (auto di = dyn_cast<CXXDefaultInitExpr>(s)) kid(di->getExpr());
        else if (auto le = dyn_cast<LambdaExpr>(s))
        {
            for (auto c : le->capture_inits()) if (c) kid(c);
            ex += ",\"f\":" + std::to_string(declId(le->getCallOperator())) + ",\"caps\":[";
            bool first = true;
            for (auto& c : le->captures())
            {
                if (!first) ex += ",";
                first = false;
                if (c.capturesThis()) ex += "[-1,1]";
                else if (c.capturesVariable()) ex += "[" + std::to_string(declId(c.getCapturedVar())) + "," + (c.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
                else ex += "[-2,0]";
            }
            ex += "]";
            Pending.push_back({ le->getCallOperator(), CurFn });
        }
        else if (auto ds = dyn_cast<DeclStmt>(s))
        {
            ex += ",\"vars\":[";
            bool first = true;
            for (auto d : ds->decls())
            {
                auto vd = dyn_cast<VarDecl>(d);
                if (!vd) continue;
                if (!first) ex += ",";
                first = false;
                int in = -1;
                if (vd->getInit()) in = kid(vd->getInit());
                ex += "[" + std::to_string(declId(vd)) + "," + std::to_string(in) + "]";
            }
            ex += "]";
        }
        else if (auto uett = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) (void)uett; // unevaluated
        else if (isa<CXXTypeidExpr>(s) || isa<CXXNoexceptExpr>(s)) (void)0;
        else if (auto ie = dyn_cast<InitListExpr>(s))
        {
            auto sem = ie->isSemanticForm() ? ie : ie->getSemanticForm();
            if (sem == nullptr) sem = ie;
            for (auto c : sem->inits()) if (c) kid(c);
        }
        else if (auto sil = dyn_cast<CXXStdInitializerListExpr>(s)) kid(sil->getSubExpr());
        else
        {
            for (auto c : s->children()) if (c) kid(c);
        }

        // kind-specific details
        if (auto e = dyn_cast<DeclRefExpr>(s)) ex += ",\"d\":" + std::to_string(declId(e->getDecl()));
        else if (auto e = dyn_cast<MemberExpr>(s)) ex += ",\"d\":" + std::to_string(declId(e->getMemberDecl())) + (e->isArrow() ? ",\"ar\":1" : "");
        else if (auto e = dyn_cast<BinaryOperator>(s)) ex += ",\"op\":" + esc(e->getOpcodeStr());
        else if (auto e = dyn_cast<UnaryOperator>(s)) ex += ",\"op\":" + esc((e->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(e->getOpcode()).str());
        else if (auto e = dyn_cast<CastExpr>(s))
        {
            ex += ",\"ck\":" + esc(e->getCastKindName());
            if (isa<ExplicitCastExpr>(e)) ex += ",\"xp\":1";
        }
        else if (auto e = dyn_cast<StringLiteral>(s)) { if (e->getCharByteWidth() == 1) ex += ",\"s\":" + esc(e->getBytes()); else ex += ",\"ws\":1"; }
        else if (auto e = dyn_cast<CXXNewExpr>(s)) ex += std::string(e->isArray() ? ",\"arr\":1" : "") + ",\"ty\":" + std::to_string(typeId(e->getAllocatedType())) + (e->getNumPlacementArgs() ? ",\"pl\":1" : "");
        else if (auto e = dyn_cast<CXXDeleteExpr>(s)) ex += e->isArrayForm() ? ",\"arr\":1" : "";
        else if (auto e = dyn_cast<FloatingLiteral>(s)) { llvm::SmallString<32> b; e->getValue().toString(b); ex += ",\"fv\":" + esc(b.str()); }
        else if (auto e = dyn_cast<CXXTryStmt>(s)) F->tries.push_back({ e, lo, 0 });
        else if (auto e = dyn_cast<CXXCatchStmt>(s))
        {
            ex += ",\"ct\":" + std::to_string(typeId(e->getCaughtType()));
            if (e->getExceptionDecl()) ex += ",\"d\":" + std::to_string(declId(e->getExceptionDecl()));
        }
        else if (auto e = dyn_cast<GotoStmt>(s)) ex += ",\"lb\":" + esc(e->getLabel()->getName());
        else if (auto e = dyn_cast<LabelStmt>(s)) ex += ",\"lb\":" + esc(e->getName());
        else if (auto e = dyn_cast<IfStmt>(s)) { ex += ",\"cond\":" + std::to_string(num(e->getCond())) + ",\"then\":" + std::to_string(num(e->getThen())) + ",\"else\":" + std::to_string(num(e->getElse())); }
        else if (auto e = dyn_cast<ForStmt>(s)) { ex += ",\"cond\":" + std::to_string(num(e->getCond())) + ",\"inc\":" + std::to_string(num(e->getInc())) + ",\"init\":" + std::to_string(num(e->getInit())) + ",\"body\":" + std::to_string(num(e->getBody())); }
        else if (auto e = dyn_cast<WhileStmt>(s)) { ex += ",\"cond\":" + std::to_string(num(e->getCond())) + ",\"body\":" + std::to_string(num(e->getBody())); }
        else if (auto e = dyn_cast<DoStmt>(s)) { ex += ",\"cond\":" + std::to_string(num(e->getCond())) + ",\"body\":" + std::to_string(num(e->getBody())); }
        else if (auto e = dyn_cast<CXXForRangeStmt>(s)) { ex += ",\"range\":" + std::to_string(num(e->getRangeInit())) + ",\"lv\":" + std::to_string(declId(e->getLoopVariable())) + ",\"body\":" + std::to_string(num(e->getBody())); }
        else if (auto e = dyn_cast<SwitchStmt>(s)) { ex += ",\"cond\":" + std::to_string(num(e->getCond())) + ",\"body\":" + std::to_string(num(e->getBody())); if (e->isAllEnumCasesCovered()) ex += ",\"all\":1"; }
        else if (auto e = dyn_cast<CaseStmt>(s))
        {
            Expr::EvalResult r;
            if (e->getLHS()->EvaluateAsInt(r, Ctx)) ex += ",\"cv\":" + ival(r.Val.getInt());
            if (e->getRHS() && e->getRHS()->EvaluateAsInt(r, Ctx)) ex += ",\"cv2\":" + ival(r.Val.getInt());
        }

        int t = -1;
        if (auto e = dyn_cast<Expr>(s))
        {
            t = typeId(e->getType());
            if (e->isLValue()) ex += ",\"lv\":1";
            if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()
                && !isa<CallExpr>(s))
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, Ctx, Expr::SE_NoSideEffects)) ex += ",\"cv\":" + ival(r.Val.getInt());
            }
            else if (isa<CallExpr>(s) && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent())
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, Ctx, Expr::SE_NoSideEffects)) ex += ",\"cv\":" + ival(r.Val.getInt());
            }
        }
        int id = (int)F->nodes.size();
        F->ids[s] = id;
        if (isa<CXXTryStmt>(s))
            for (auto& tr : F->tries) if (tr.s == s) { tr.lo = lo; tr.hi = id; }
        if (!ex.empty()) ex = ex.substr(1);
        F->nodes.push_back("[\"" + std::string(kindName(s)) + "\"," + std::to_string(t) + "," + std::to_string(lineOf(s->getBeginLoc())) + "," + list(kids) + ",{" + ex + "}]");
        return id;
    }
    static std::string ival(const llvm::APSInt& v)
    {
        llvm::SmallString<24> b;
        v.toString(b, 10);
        return b.str().str();
    }
    static std::string list(const std::vector<int>& v)
    {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
        return s + "]";
    }
    static const char* kindName(const Stmt* s)
    {
        if (isa<CXXTemporaryObjectExpr>(s) || isa<CXXConstructExpr>(s)) return "Construct";
        if (isa<CallExpr>(s)) return "Call";
        if (isa<CompoundAssignOperator>(s)) return "CompoundAssign";
        if (isa<CastExpr>(s)) return "Cast";
        if (isa<CXXNewExpr>(s)) return "New";
        if (isa<CXXDeleteExpr>(s)) return "Delete";
        if (isa<CXXThrowExpr>(s)) return "Throw";
        if (isa<CXXThisExpr>(s)) return "This";
        return s->getStmtClassName();
    }

    // ---------- functions
    struct PendingFn { const FunctionDecl* fd; std::string parent; };
    std::deque<PendingFn> Pending;
    std::string CurFn;
    std::set<const Decl*> Done;

    void dumpFunction(const FunctionDecl* fd, const std::string& parent)
    {
        if (!fd->isThisDeclarationADefinition() || !fd->hasBody() || fd->isDependentContext()) return;
        if (fd->isDefaulted() && !fd->isUserProvided()) return;
        if (!inRoot(fd->getLocation())) return;
        if (!Done.insert(fd).second) return;
        FnCtx fc;
        auto savedF = F; auto savedCur = CurFn;
        F = &fc;
        std::string u = usr(fd);
        CurFn = u;
        std::string o = "{\"K\":\"fn\",\"d\":" + std::to_string(declId(fd)) + ",\"u\":" + esc(u) + ",\"q\":" + esc(qname(fd));
        o += ",\"file\":" + esc(fileOf(fd->getLocation()).substr(g_root.size())) + ",\"line\":" + std::to_string(lineOf(fd->getLocation())) + ",\"end\":" + std::to_string(lineOf(fd->getEndLoc()));
        if (!parent.empty()) o += ",\"par\":" + esc(parent);
        o += ",\"params\":[";
        bool first = true;
        for (auto p : fd->parameters())
        {
            if (!first) o += ",";
            first = false;
            o += "[" + std::to_string(declId(p)) + "," + esc(p->getName()) + "," + std::to_string(typeId(p->getType())) + "]";
        }
        o += "]";
        int body = num(fd->getBody());
        if (auto cd = dyn_cast<CXXConstructorDecl>(fd))
        {
            o += ",\"inits\":[";
            first = true;
            for (auto in : cd->inits())
            {
                if (!first) o += ",";
                first = false;
                int n = num(in->getInit());
                std::string what = in->isAnyMemberInitializer() ? "\"m\"," + esc(in->getAnyMember()->getName()) :
                    in->isBaseInitializer() ? "\"b\"," + esc(QualType(in->getBaseClass(), 0)->getAsCXXRecordDecl() ? qname(QualType(in->getBaseClass(), 0)->getAsCXXRecordDecl()) : "?") : "\"d\",\"\"";
                o += "[" + what + "," + std::to_string(n) + "," + (in->isWritten() ? "1" : "0") + "]";
            }
            o += "]";
        }
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges = false;
        auto cfg = CFG::buildCFG(fd, fd->getBody(), &Ctx, bo);
        o += ",\"body\":" + std::to_string(body);
        if (cfg)
        {
            o += ",\"entry\":" + std::to_string(cfg->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(cfg->getExit().getBlockID());
            o += ",\"blocks\":{";
            first = true;
            std::map<const Stmt*, int> dispatch;
            for (auto b : *cfg)
            {
                if (!first) o += ",";
                first = false;
                o += "\"" + std::to_string(b->getBlockID()) + "\":{\"e\":[";
                bool f2 = true;
                for (auto& el : *b)
                {
                    std::string es;
                    if (auto st = el.getAs<CFGStmt>())
                    {
                        es = std::to_string(num(st->getStmt()));
                    }
                    else if (auto in = el.getAs<CFGInitializer>())
                    {
                        auto ini = in->getInitializer();
                        es = "[\"init\"," + (ini->isAnyMemberInitializer() ? esc(ini->getAnyMember()->getName()) : std::string("\"\"")) + "," + std::to_string(num(ini->getInit())) + "]";
                    }
                    else if (auto ad = el.getAs<CFGAutomaticObjDtor>())
                        es = "[\"dtor\"," + std::to_string(declId(ad->getVarDecl())) + "]";
                    else if (auto dd = el.getAs<CFGDeleteDtor>())
                        continue;
                    else
                        continue;
                    if (!f2) o += ",";
                    f2 = false;
                    o += es;
                }
                o += "],\"s\":[";
                f2 = true;
                for (auto& su : b->succs())
                {
                    if (!f2) o += ",";
                    f2 = false;
                    if (auto r = su.getReachableBlock()) o += std::to_string(r->getBlockID());
                    else if (auto r = su.getPossiblyUnreachableBlock()) o += "-" + std::to_string(r->getBlockID() + 1000000);
                    else o += "null";
                }
                o += "]";
                if (auto tm = b->getTerminatorStmt())
                {
                    o += ",\"tk\":\"" + std::string(kindName(tm)) + "\",\"ts\":" + std::to_string(num(tm));
                    if (auto tc = b->getTerminatorCondition(false)) o += ",\"tc\":" + std::to_string(num(tc));
                    if (isa<CXXTryStmt>(tm)) dispatch[tm] = b->getBlockID();
                }
                if (auto lb = b->getLabel())
                {
                    o += ",\"lab\":" + std::to_string(num(lb));
                }
                if (b->hasNoReturnElement()) o += ",\"nr\":1";
                o += "}";
            }
            o += "}";
            o += ",\"tries\":[";
            first = true;
            for (auto& tr : fc.tries)
            {
                if (!first) o += ",";
                first = false;
                int tb = num(tr.s->getTryBlock());
                o += "[" + std::to_string(dispatch.count(tr.s) ? dispatch[tr.s] : -1) + "," + std::to_string(tr.lo) + "," + std::to_string(tb) + "]";
            }
            o += "]";
        }
        o += ",\"nodes\":[";
        for (size_t i = 0; i < fc.nodes.size(); i++)
        {
            if (i) o += ",";
            o += fc.nodes[i];
        }
        o += "]}";
        OS << o << "\n";
        F = savedF;
        CurFn = savedCur;
        while (!Pending.empty())
        {
            auto p = Pending.front();
            Pending.pop_front();
            dumpFunction(p.fd, p.parent);
        }
    }

    // ---------- values of initialisers of static variables
    unsigned ValBudget = 0;
    std::string value(const Expr* e)
    {
        if (!e) return "null";
        if (ValBudget == 0) return "{\"x\":\"budget\"}";
        ValBudget--;
        e = cast<Expr>(strip(e));
        if (auto ie = dyn_cast<InitListExpr>(e))
        {
            auto sem = ie->isSemanticForm() ? ie : ie->getSemanticForm();
            if (!sem) sem = ie;
            std::string o = "[";
            bool first = true;
            for (auto c : sem->inits())
            {
                if (!first) o += ",";
                first = false;
                o += value(c);
            }
            return o + "]";
        }
        if (auto sl = dyn_cast<StringLiteral>(e))
        {
            if (sl->getCharByteWidth() == 1) return "{\"s\":" + esc(sl->getBytes()) + "}";
            return "{\"x\":\"wide\"}";
        }
        if (auto il = dyn_cast<CXXStdInitializerListExpr>(e)) return value(il->getSubExpr());
        if (auto ce = dyn_cast<CXXConstructExpr>(e))
        {
            std::string o = "{\"ctor\":" + esc(qname(ce->getConstructor()->getParent())) + ",\"a\":[";
            bool first = true;
            for (auto a : ce->arguments())
            {
                if (!first) o += ",";
                first = false;
                o += value(a);
            }
            return o + "]}";
        }
        if (auto da = dyn_cast<CXXDefaultArgExpr>(e)) return value(da->getExpr());
        if (auto dr = dyn_cast<DeclRefExpr>(e))
        {
            std::string o = "{\"d\":" + esc(qname(dr->getDecl()));
            if (auto ec = dyn_cast<EnumConstantDecl>(dr->getDecl())) o += ",\"v\":" + ival(ec->getInitVal());
            return o + "}";
        }
        if (auto ul = dyn_cast<UserDefinedLiteral>(e))
        {
            if (ul->getNumArgs() > 0) return value(ul->getArg(0));
        }
        if (auto c = dyn_cast<CastExpr>(e))
        {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, Ctx)) return ival(r.Val.getInt());
            return value(c->getSubExpr());
        }
        if (auto m = dyn_cast<CXXFunctionalCastExpr>(e)) return value(m->getSubExpr());
        Expr::EvalResult r;
        if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, Ctx)) return ival(r.Val.getInt());
        if (!e->isValueDependent() && e->getType()->isRealFloatingType())
        {
            llvm::APFloat fv(0.0);
            if (e->EvaluateAsFloat(fv, Ctx)) { llvm::SmallString<32> b; fv.toString(b); return "{\"f\":" + esc(b.str()) + "}"; }
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<ImplicitValueInitExpr>(e)) return "null";
        if (auto call = dyn_cast<CallExpr>(e))
        {
            std::string o = "{\"call\":" + (call->getDirectCallee() ? esc(qname(call->getDirectCallee())) : std::string("\"?\"")) + ",\"a\":[";
            bool first = true;
            for (auto a : call->arguments())
            {
                if (!first) o += ",";
                first = false;
                o += value(a);
            }
            return o + "]}";
        }
        return "{\"x\":" + esc(e->getStmtClassName()) + "}";
    }
    static const Stmt* strip(const Stmt* s)
    {
        while (true)
        {
            if (isWrapper(s)) { s = wrapped(s); continue; }
            if (auto c = dyn_cast<ImplicitCastExpr>(s)) if (c->getCastKind() == CK_ArrayToPointerDecay) { s = c->getSubExpr(); continue; }
            return s;
        }
    }

    void dumpVar(const VarDecl* vd)
    {
        if (!vd->hasGlobalStorage() || vd->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
        if (vd->isTemplated() || vd->getDeclContext()->isDependentContext()) return;
        if (!inRoot(vd->getLocation()) || !Done.insert(vd).second) return;
        auto fdc = dyn_cast<FunctionDecl>(vd->getDeclContext());
        std::string o = "{\"K\":\"var\",\"u\":" + esc(usr(vd)) + ",\"q\":" + esc(qname(vd)) + ",\"t\":" + std::to_string(typeId(vd->getType()));
        o += ",\"file\":" + esc(fileOf(vd->getLocation()).substr(g_root.size())) + ",\"line\":" + std::to_string(lineOf(vd->getLocation()));
        QualType ty = vd->getType();
        if (Ctx.getBaseElementType(ty).isConstQualified() || vd->isConstexpr()) o += ",\"const\":1";
        if (vd->isConstexpr()) o += ",\"cx\":1";
        if (vd->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
        if (vd->isStaticLocal()) o += ",\"sl\":1";
        if (vd->isStaticDataMember()) o += ",\"sdm\":1,\"acc\":" + std::to_string((int)vd->getAccess());
        if (fdc) o += ",\"fn\":" + esc(usr(fdc));
        if (vd->getInit())
        {
            Expr::EvalResult er;
            o += std::string(",\"ci\":") + (vd->hasConstantInitialization() ? "1" : "0");
            ValBudget = MAX_INIT_NODES;
            o += ",\"val\":" + value(vd->getInit());
        }
        o += "}";
        OS << o << "\n";
    }

    void dumpRecord(const CXXRecordDecl* rd)
    {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda()) return;
        if (!inRoot(rd->getLocation()) || !Done.insert(rd).second) return;
        std::string o = "{\"K\":\"rec\",\"u\":" + esc(usr(rd)) + ",\"q\":" + esc(qname(rd)) + ",\"file\":" + esc(fileOf(rd->getLocation()).substr(g_root.size())) + ",\"line\":" + std::to_string(lineOf(rd->getLocation()));
        if (rd->isUnion()) o += ",\"un\":1";
        if (rd->isPolymorphic()) o += ",\"poly\":1";
        if (rd->isAggregate()) o += ",\"agg\":1";
        if (rd->getDestructor() && rd->getDestructor()->isVirtual()) o += ",\"vd\":1";
        if (rd->isAbstract()) o += ",\"abs\":1";
        if (rd->hasUserDeclaredCopyConstructor()) o += ",\"ucc\":1";
        if (rd->hasUserDeclaredCopyAssignment()) o += ",\"uca\":1";
        if (rd->hasUserDeclaredMoveConstructor()) o += ",\"umc\":1";
        if (rd->hasUserDeclaredMoveAssignment()) o += ",\"uma\":1";
        if (rd->hasUserDeclaredDestructor()) o += ",\"udt\":1";
        o += ",\"bases\":[";
        bool first = true;
        for (auto& b : rd->bases())
        {
            auto br = b.getType()->getAsCXXRecordDecl();
            if (!br) continue;
            if (!first) o += ",";
            first = false;
            o += "[" + esc(qname(br)) + "," + std::to_string((int)b.getAccessSpecifier()) + "," + (b.isVirtual() ? "1" : "0") + "]";
        }
        o += "],\"fields\":[";
        first = true;
        for (auto f : rd->fields())
        {
            if (!first) o += ",";
            first = false;
            o += "{\"n\":" + esc(f->getName()) + ",\"t\":" + std::to_string(typeId(f->getType())) + ",\"ln\":" + std::to_string(lineOf(f->getLocation())) + ",\"acc\":" + std::to_string((int)f->getAccess());
            if (f->hasInClassInitializer()) o += ",\"ini\":1";
            if (f->isMutable()) o += ",\"mut\":1";
            if (f->isAnonymousStructOrUnion()) o += ",\"anon\":1";
            o += "}";
        }
        o += "],\"methods\":[";
        first = true;
        for (auto m : rd->methods())
        {
            if (!first) o += ",";
            first = false;
            o += "[" + std::to_string(declId(m)) + "," + (m->isUserProvided() ? "1" : "0") + "," + (m->isDeleted() ? "1" : "0") + "]";
        }
        o += "],\"friends\":[";
        first = true;
        for (auto fr : rd->friends())
        {
            std::string nm;
            if (auto ti = fr->getFriendType()) { if (auto r = ti->getType()->getAsCXXRecordDecl()) nm = qname(r); }
            else if (auto nd = fr->getFriendDecl()) nm = qname(nd);
            if (nm.empty()) continue;
            if (!first) o += ",";
            first = false;
            o += esc(nm);
        }
        o += "]}";
        OS << o << "\n";
    }

    void dumpEnum(const EnumDecl* ed)
    {
        if (!ed->isThisDeclarationADefinition() || !inRoot(ed->getLocation()) || ed->isTemplated() || !Done.insert(ed).second) return;
        std::string o = "{\"K\":\"enum\",\"q\":" + esc(qname(ed)) + ",\"file\":" + esc(fileOf(ed->getLocation()).substr(g_root.size())) + ",\"line\":" + std::to_string(lineOf(ed->getLocation())) + ",\"w\":" + std::to_string(ed->getIntegerType().isNull() ? 0 : Ctx.getTypeSize(ed->getIntegerType())) + ",\"c\":[";
        bool first = true;
        for (auto c : ed->enumerators())
        {
            if (!first) o += ",";
            first = false;
            o += "[" + esc(c->getName()) + "," + ival(c->getInitVal()) + "]";
        }
        o += "]}";
        OS << o << "\n";
    }

    void finish()
    {
        // declId/typeId may append to each other while printing: tables are complete here
        OS << "{\"K\":\"types\",\"v\":[";
        for (size_t i = 0; i < Types.size(); i++) OS << (i ? "," : "") << Types[i];
        OS << "]}\n{\"K\":\"decls\",\"v\":[";
        for (size_t i = 0; i < Decls.size(); i++) OS << (i ? "," : "") << Decls[i];
        OS << "]}\n";
    }

private:
    ASTContext& Ctx;
    SourceManager& SM;
    llvm::raw_ostream& OS;
    std::map<void*, int> TypeIds;
    std::vector<std::string> Types;
    llvm::DenseMap<const Decl*, int> DeclIds;
    std::vector<std::string> Decls;
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Visitor(Dumper& d) : D(d) { }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* fd)
    {
        if (auto md = dyn_cast<CXXMethodDecl>(fd)) if (md->getParent()->isLambda()) return true; // through LambdaExpr
        D.dumpFunction(fd, "");
        return true;
    }
    bool VisitVarDecl(VarDecl* vd) { D.dumpVar(vd); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) { D.dumpRecord(rd); return true; }
    bool VisitEnumDecl(EnumDecl* ed) { D.dumpEnum(ed); return true; }
private:
    Dumper& D;
};

class Consumer : public ASTConsumer
{
public:
    Consumer(llvm::raw_ostream& os) : OS(os) { }
    bool HandleTopLevelDecl(DeclGroupRef g) override
    {
        for (auto d : g) Top.push_back(d);
        return true;
    }
    void HandleCXXImplicitFunctionInstantiation(FunctionDecl* d) override { Top.push_back(d); }
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        Dumper D(ctx, OS);
        Visitor V(D);
        for (size_t i = 0; i < Top.size(); i++)
        {
            auto d = Top[i];
            if (auto fd = dyn_cast<FunctionDecl>(d))
            {
                // implicit instantiations: only those whose pattern lives in the root
                auto f2 = fd->getDefinition() ? fd->getDefinition() : fd;
                if (!D.inRoot(f2->getLocation())) continue;
                if (auto def = dyn_cast<FunctionDecl>(f2)) V.TraverseDecl(const_cast<FunctionDecl*>(def));
                continue;
            }
            if (isa<NamespaceDecl>(d) || D.inRoot(d->getLocation())) V.TraverseDecl(d);
        }
        D.finish();
        if (ctx.getDiagnostics().hasErrorOccurred()) OS << "{\"K\":\"error\"}\n";
    }
private:
    std::vector<Decl*> Top;
    llvm::raw_ostream& OS;
};

class Action : public ASTFrontendAction
{
public:
    Action(llvm::raw_ostream& os) : OS(os) { }
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        ci.getDiagnostics().setClient(new IgnoringDiagConsumer());
        return std::make_unique<Consumer>(OS);
    }
private:
    llvm::raw_ostream& OS;
};

// usage: extract ROOT OUT SRC -- flags...
int main(int argc, const char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SRC -- flags\n"; return 2; }
    g_root = argv[1];
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[2], ec);
    if (ec) return 2;
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { argv[3] });
    tool.setDiagnosticConsumer(new IgnoringDiagConsumer());
    tool.setPrintErrorMessage(false);
    tool.clearArgumentsAdjusters(); // keep flags verbatim
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    struct Fac : tooling::FrontendActionFactory
    {
        llvm::raw_ostream& os;
        Fac(llvm::raw_ostream& o) : os(o) { }
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(os); }
    } fac(os);
    int rc = tool.run(&fac);
    return rc;
}
