// oxfacts: dump a resolved, type-checked program (records, functions, per-function
// expression trees and control-flow graphs) for everything defined under a source root.
//   oxfacts ROOT OUT.json SOURCE -- CLANGFLAGS...
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <sstream>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gOut;

static std::string usr(const Decl *d)
{
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(d->getCanonicalDecl(), buf))
        return "?";
    return std::string(buf.str());
}

struct Dumper
{
    ASTContext &C;
    PrintingPolicy PP;
    json::Array funcs, records, globals, fails;
    std::set<std::string> seenF, seenR;
    std::set<std::string> files;

    Dumper(ASTContext &c) : C(c), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
    }

    std::string file(SourceLocation l)
    {
        SourceManager &SM = C.getSourceManager();
        l = SM.getExpansionLoc(l);
        return SM.getFilename(l).str();
    }
    int line(SourceLocation l)
    {
        SourceManager &SM = C.getSourceManager();
        return SM.getExpansionLineNumber(l);
    }
    bool inRoot(const Decl *d)
    {
        std::string f = file(d->getLocation());
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string ty(QualType q)
    {
        if (q.isNull())
            return "";
        return q.getCanonicalType().getAsString(PP);
    }

    // ---------------------------------------------------------------- records
    void record(const CXXRecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return;
        std::string u = usr(r);
        if (!seenR.insert(u).second)
            return;
        json::Object o;
        o["usr"] = u;
        o["name"] = r->getQualifiedNameAsString();
        o["type"] = ty(C.getRecordType(r));
        o["file"] = file(r->getLocation());
        o["line"] = line(r->getLocation());
        o["abstract"] = r->isAbstract();
        o["polymorphic"] = r->isPolymorphic();
        o["instantiation"] = isa<ClassTemplateSpecializationDecl>(r);
        json::Array bases;
        for (auto &b : r->bases())
            if (auto *br = b.getType()->getAsCXXRecordDecl())
                bases.push_back(json::Object{{"name", br->getQualifiedNameAsString()}, {"usr", usr(br)}});
        o["bases"] = std::move(bases);
        json::Array fields;
        for (auto *f : r->fields())
        {
            QualType t = f->getType();
            json::Object fo{{"name", f->getNameAsString()}, {"type", ty(t)}, {"line", line(f->getLocation())},
                            {"hasinit", f->hasInClassInitializer()},
                            {"pointer", t->isPointerType()}, {"reference", t->isReferenceType()},
                            {"scalar", t->isScalarType()}, {"const", t.isConstQualified()}, {"mutable", f->isMutable()}};
            fields.push_back(std::move(fo));
        }
        for (auto *d : r->decls())
            if (auto *v = dyn_cast<VarDecl>(d))
                if (v->isStaticDataMember())
                    fields.push_back(json::Object{{"name", v->getNameAsString()}, {"type", ty(v->getType())}, {"static", true}, {"line", line(v->getLocation())}, {"const", v->getType().isConstQualified()}});
        o["fields"] = std::move(fields);
        json::Array ms;
        for (auto *m : r->methods())
        {
            json::Object mo{{"usr", usr(m)}, {"name", m->getNameAsString()}, {"const", m->isConst()}, {"virtual", m->isVirtual()}, {"pure", m->isPureVirtual()}, {"static", m->isStatic()}, {"implicit", m->isImplicit()}, {"deleted", m->isDeleted()}, {"defaulted", m->isDefaulted()}, {"access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"}, {"line", line(m->getLocation())}, {"ret", ty(m->getReturnType())}};
            if (auto *k = dyn_cast<CXXConstructorDecl>(m))
            {
                mo["ctor"] = k->isCopyConstructor() ? "copy" : k->isMoveConstructor() ? "move" : k->isDefaultConstructor() ? "default" : "other";
            }
            if (isa<CXXDestructorDecl>(m))
                mo["dtor"] = true;
            if (m->isCopyAssignmentOperator())
                mo["assign"] = "copy";
            if (m->isMoveAssignmentOperator())
                mo["assign"] = "move";
            json::Array ov;
            for (auto *x : m->overridden_methods())
                ov.push_back(usr(x));
            mo["overrides"] = std::move(ov);
            json::Array ps;
            for (auto *p : m->parameters())
                ps.push_back(json::Object{{"name", p->getNameAsString()}, {"type", ty(p->getType())}});
            mo["params"] = std::move(ps);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        o["usercopyctor"] = r->hasUserDeclaredCopyConstructor();
        o["userassign"] = r->hasUserDeclaredCopyAssignment();
        o["userdtor"] = r->hasUserDeclaredDestructor();
        records.push_back(std::move(o));
    }

    // -------------------------------------------------------------- functions
    struct Fn
    {
        json::Array nodes;
        std::map<const Stmt *, int> id;
        std::map<const ValueDecl *, int> vars;
        json::Array varinfo;
    };
    Fn *F = nullptr;

    static const Stmt *strip(const Stmt *s)
    {
        while (s)
        {
            if (auto *p = dyn_cast<ParenExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<ImplicitCastExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<FullExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                s = p->getReplacement();
            else if (auto *p = dyn_cast<CXXDefaultArgExpr>(s))
                s = p->getExpr();
            else if (auto *p = dyn_cast<CXXDefaultInitExpr>(s))
                s = p->getExpr();
            else if (auto *p = dyn_cast<AttributedStmt>(s))
                s = p->getSubStmt();
            else if (auto *p = dyn_cast<ExplicitCastExpr>(s))
            {
                if (isa<CXXDynamicCastExpr>(p))
                    break;
                s = p->getSubExpr();
            }
            else
                break;
        }
        return s;
    }

    int var(const ValueDecl *v)
    {
        auto it = F->vars.find(v);
        if (it != F->vars.end())
            return it->second;
        int i = F->vars.size();
        F->vars[v] = i;
        bool stat = false;
        if (auto *vd = dyn_cast<VarDecl>(v))
            stat = vd->isStaticLocal();
        F->varinfo.push_back(json::Object{{"name", v->getNameAsString()}, {"type", ty(v->getType())}, {"parm", isa<ParmVarDecl>(v)}, {"line", line(v->getLocation())}, {"static", stat}, {"implicit", v->isImplicit()}});
        return i;
    }

    json::Object fref(const FunctionDecl *f)
    {
        // an instantiated member is keyed by its own USR
        json::Object o;
        o["f"] = usr(f);
        o["fn"] = f->getQualifiedNameAsString();
        o["repo"] = inRoot(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = m->getParent()->getQualifiedNameAsString();
            o["mconst"] = m->isConst();
            o["virt"] = m->isVirtual();
            o["static"] = m->isStatic();
        }
        std::string pk;
        for (auto *p : f->parameters())
        {
            QualType t = p->getType();
            if (t->isReferenceType())
                pk += t->getPointeeType().isConstQualified() ? 'c' : (t->isRValueReferenceType() ? 'm' : 'r');
            else if (t->isPointerType())
                pk += t->getPointeeType().isConstQualified() ? 'k' : 'p';
            else
                pk += 'v';
        }
        if (f->isVariadic())
            pk += '.';
        o["pk"] = pk;
        return o;
    }

    // conversions that lose value between an expression and what it is stripped to
    static const char *lossy(const Stmt *s, const Stmt *to)
    {
        const char *r = nullptr;
        while (s && s != to)
        {
            if (auto *p = dyn_cast<CastExpr>(s))
            {
                if (p->getCastKind() == CK_FloatingToIntegral)
                    r = "trunc";
                else if (p->getCastKind() == CK_FloatingCast && p->getType()->isSpecificBuiltinType(BuiltinType::Float) && !r)
                    r = "f32";
                else if (p->getCastKind() == CK_FloatingToBoolean && !r)
                    r = "bool";
            }
            const Stmt *n = nullptr;
            for (const Stmt *c : s->children())
            {
                n = c;
                break;
            }
            if (isa<CXXDefaultArgExpr>(s) || isa<CXXDefaultInitExpr>(s) || isa<SubstNonTypeTemplateParmExpr>(s))
                break;
            s = n;
        }
        return r;
    }

    static bool isPair(const DecompositionDecl *d)
    {
        const auto *rd = d->getType().getNonReferenceType()->getAsCXXRecordDecl();
        return rd && rd->getQualifiedNameAsString() == "std::pair";
    }

    static std::string part(const BindingDecl *b, const DecompositionDecl *d)
    {
        if (isPair(d))
            return d->bindings()[0] == b ? "first" : "second";
        if (const Expr *x = b->getBinding())
            if (const auto *m = dyn_cast<MemberExpr>(x->IgnoreImplicit()))
                return m->getMemberDecl()->getNameAsString();
        return "";
    }

    static const DeclRefExpr *bound(const Stmt *s)
    {
        const auto *e = dyn_cast<DeclRefExpr>(s);
        if (!e)
            return nullptr;
        const auto *b = dyn_cast<BindingDecl>(e->getDecl());
        if (!b)
            return nullptr;
        const auto *d = dyn_cast_or_null<DecompositionDecl>(b->getDecomposedDecl());
        if (!d || !d->getType().getNonReferenceType()->getAsCXXRecordDecl() || part(b, d).empty())
            return nullptr;
        return e;
    }

    int node(const Stmt *s0)
    {
        const Stmt *s = strip(s0);
        if (!s)
            return -1;
        auto it = F->id.find(s);
        if (it != F->id.end())
            return it->second;
        int me = F->nodes.size();
        F->id[s] = me;
        F->nodes.push_back(json::Object{});
        json::Object o;
        o["k"] = s->getStmtClassName();
        o["l"] = line(s->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(s))
        {
            o["t"] = ty(e->getType());
            if (e->isLValue())
                o["lv"] = true;
            if (const char *l = lossy(s0, s))
                o["lossy"] = l;
        }
        json::Array ch;
        auto add = [&](const Stmt *c) { ch.push_back(c ? node(c) : -1); };
        if (auto *e = bound(s))
        {
            // a name bound to a part of a pair or of a structure
            const auto *b = cast<BindingDecl>(e->getDecl());
            const auto *dec = cast<DecompositionDecl>(b->getDecomposedDecl());
            int v = F->nodes.size();
            F->nodes.push_back(json::Object{{"k", "DeclRefExpr"}, {"l", line(s->getBeginLoc())}, {"t", ty(dec->getType().getNonReferenceType())}, {"lv", true}, {"n", dec->getNameAsString()}, {"dk", "var"}, {"d", var(dec)}, {"c", json::Array{}}});
            o["k"] = "MemberExpr";
            o["arrow"] = false;
            o["mk"] = "field";
            const auto *rd = dec->getType().getNonReferenceType()->getAsCXXRecordDecl();
            o["cls"] = rd->getQualifiedNameAsString();
            o["n"] = part(b, dec);
            ch.push_back(v);
        }
        else if (auto *e = dyn_cast<DeclRefExpr>(s))
        {
            const ValueDecl *d = e->getDecl();
            o["n"] = d->getNameAsString();
            if (auto *fd = dyn_cast<FunctionDecl>(d))
            {
                o["dk"] = "func";
                o["fref"] = fref(fd);
            }
            else if (auto *ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["dk"] = "enum";
                o["n"] = ec->getQualifiedNameAsString();
                o["v"] = (int64_t)ec->getInitVal().getExtValue();
            }
            else if (auto *v = dyn_cast<VarDecl>(d))
            {
                if (v->hasGlobalStorage() && !v->isStaticLocal())
                {
                    o["dk"] = "global";
                    o["n"] = v->getQualifiedNameAsString();
                    o["repo"] = inRoot(v);
                    o["const"] = v->getType().isConstQualified();
                }
                else
                {
                    o["dk"] = "var";
                    o["d"] = var(v);
                }
            }
            else if (isa<BindingDecl>(d))
            {
                o["dk"] = "var";
                o["d"] = var(d);
            }
            else
                o["dk"] = "other";
        }
        else if (auto *e = dyn_cast<MemberExpr>(s))
        {
            const ValueDecl *m = e->getMemberDecl();
            o["n"] = m->getNameAsString();
            o["arrow"] = e->isArrow();
            if (auto *fd = dyn_cast<FieldDecl>(m))
            {
                o["mk"] = "field";
                if (fd->getType()->isReferenceType())
                    o["refm"] = true;
                o["cls"] = cast<NamedDecl>(fd->getParent())->getQualifiedNameAsString();
            }
            else if (isa<CXXMethodDecl>(m))
            {
                o["mk"] = "method";
                o["fref"] = fref(cast<CXXMethodDecl>(m));
            }
            else
            {
                o["mk"] = "static";
                o["n"] = m->getQualifiedNameAsString();
            }
            add(e->getBase());
        }
        else if (auto *e = dyn_cast<CXXOperatorCallExpr>(s))
        {
            o["op"] = getOperatorSpelling(e->getOperator());
            if (auto *fd = e->getDirectCallee())
            {
                o["fref"] = fref(fd);
                o["method"] = isa<CXXMethodDecl>(fd);
            }
            for (auto *a : e->arguments())
                add(a);
        }
        else if (auto *e = dyn_cast<CallExpr>(s))
        {
            if (auto *fd = e->getDirectCallee())
                o["fref"] = fref(fd);
            if (auto *mc = dyn_cast<CXXMemberCallExpr>(e))
            {
                const Expr *ob = mc->getImplicitObjectArgument();
                o["obj"] = node(ob);
                if (auto *me2 = dyn_cast<MemberExpr>(strip(mc->getCallee())))
                {
                    o["arrow"] = me2->isArrow();
                    o["qual"] = me2->hasQualifier();
                }
            }
            else if (!e->getDirectCallee())
                o["callee"] = node(e->getCallee());
            for (auto *a : e->arguments())
                add(a);
        }
        else if (auto *e = dyn_cast<CXXConstructExpr>(s))
        {
            o["fref"] = fref(e->getConstructor());
            o["copy"] = e->getConstructor()->isCopyOrMoveConstructor();
            o["elid"] = e->isElidable();
            for (auto *a : e->arguments())
                add(a);
        }
        else if (auto *e = dyn_cast<BinaryOperator>(s))
        {
            o["op"] = e->getOpcodeStr().str();
            add(e->getLHS());
            add(e->getRHS());
        }
        else if (auto *e = dyn_cast<UnaryOperator>(s))
        {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            o["post"] = e->isPostfix();
            add(e->getSubExpr());
        }
        else if (auto *e = dyn_cast<IntegerLiteral>(s))
        {
            o["v"] = (int64_t)e->getValue().getSExtValue();
        }
        else if (auto *e = dyn_cast<FloatingLiteral>(s))
        {
            o["v"] = e->getValueAsApproximateDouble();
        }
        else if (auto *e = dyn_cast<StringLiteral>(s))
        {
            o["v"] = e->isOrdinary() ? e->getString().str() : std::string("?");
        }
        else if (auto *e = dyn_cast<CharacterLiteral>(s))
        {
            o["v"] = (int64_t)e->getValue();
        }
        else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s))
        {
            o["v"] = e->getValue();
        }
        else if (auto *e = dyn_cast<CXXNewExpr>(s))
        {
            o["at"] = ty(e->getAllocatedType());
            o["arr"] = e->isArray();
            if (e->getInitializer())
                add(e->getInitializer());
        }
        else if (auto *e = dyn_cast<CXXDeleteExpr>(s))
        {
            o["arr"] = e->isArrayForm();
            add(e->getArgument());
        }
        else if (auto *e = dyn_cast<CXXThrowExpr>(s))
        {
            if (e->getSubExpr())
            {
                o["tt"] = ty(e->getSubExpr()->getType());
                add(e->getSubExpr());
            }
        }
        else if (auto *e = dyn_cast<DeclStmt>(s))
        {
            json::Array ds;
            for (auto *d : e->decls())
                if (auto *v = dyn_cast<VarDecl>(d))
                {
                    int ini = v->getInit() ? node(v->getInit()) : -1;
                    ds.push_back(json::Object{{"d", var(v)}, {"init", ini}, {"ref", v->getType()->isReferenceType()}});
                }
            o["decls"] = std::move(ds);
        }
        else if (auto *e = dyn_cast<CXXCatchStmt>(s))
        {
            o["ct"] = e->getExceptionDecl() ? ty(e->getCaughtType().getNonReferenceType()) : "...";
            if (e->getExceptionDecl())
                o["d"] = var(e->getExceptionDecl());
            add(e->getHandlerBlock());
        }
        else if (auto *e = dyn_cast<CXXTryStmt>(s))
        {
            add(e->getTryBlock());
            for (unsigned i = 0; i < e->getNumHandlers(); ++i)
                add(e->getHandler(i));
        }
        else if (auto *e = dyn_cast<SwitchStmt>(s))
        {
            json::Object r;
            if (e->getInit())
                r["init"] = node(e->getInit());
            if (e->getConditionVariableDeclStmt())
                r["var"] = node(e->getConditionVariableDeclStmt());
            r["cond"] = node(e->getCond());
            r["body"] = node(e->getBody());
            o["switch"] = std::move(r);
        }
        else if (auto *e = dyn_cast<IfStmt>(s))
        {
            json::Object r{{"cond", node(e->getCond())}, {"then", node(e->getThen())}, {"else", e->getElse() ? node(e->getElse()) : -1}};
            if (e->getInit())
                r["init"] = node(e->getInit());
            if (e->getConditionVariableDeclStmt())
                r["var"] = node(e->getConditionVariableDeclStmt());
            o["if"] = std::move(r);
        }
        else if (auto *e = dyn_cast<ForStmt>(s))
        {
            o["for"] = json::Object{{"init", e->getInit() ? node(e->getInit()) : -1}, {"cond", e->getCond() ? node(e->getCond()) : -1}, {"inc", e->getInc() ? node(e->getInc()) : -1}, {"body", node(e->getBody())}};
        }
        else if (auto *e = dyn_cast<WhileStmt>(s))
        {
            o["while"] = json::Object{{"cond", node(e->getCond())}, {"body", node(e->getBody())}};
        }
        else if (auto *e = dyn_cast<DoStmt>(s))
        {
            o["while"] = json::Object{{"cond", node(e->getCond())}, {"body", node(e->getBody())}};
        }
        else if (auto *e = dyn_cast<CXXForRangeStmt>(s))
        {
            o["range"] = json::Object{{"rinit", node(e->getRangeInit())}, {"rstmt", node(e->getRangeStmt())}, {"begin", node(e->getBeginStmt())}, {"end", node(e->getEndStmt())}, {"cond", node(e->getCond())}, {"inc", node(e->getInc())}, {"var", node(e->getLoopVarStmt())}, {"d", var(e->getLoopVariable())}, {"body", node(e->getBody())}};
        }
        else if (auto *e = dyn_cast<CXXDynamicCastExpr>(s))
        {
            add(e->getSubExpr());
        }
        else if (auto *e = dyn_cast<InitListExpr>(s))
        {
            for (auto *a : e->inits())
                add(a);
        }
        else if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s))
            add(e->getSubExpr());
        else if (auto *e = dyn_cast<LambdaExpr>(s))
        {
            // of a generic lambda, what it was first called with
            const CXXMethodDecl *op = e->getCallOperator();
            const Stmt *body = e->getBody();
            if (const FunctionTemplateDecl *t = op->getDescribedFunctionTemplate())
                for (const FunctionDecl *s : t->specializations())
                    if (s->hasBody() && !s->isDependentContext())
                    {
                        op = cast<CXXMethodDecl>(s);
                        body = s->getBody();
                        break;
                    }
            json::Array caps;
            for (auto &c : e->captures())
            {
                if (c.capturesThis())
                    caps.push_back(json::Object{{"this", true}});
                else if (c.capturesVariable())
                    caps.push_back(json::Object{{"d", var(c.getCapturedVar())}, {"byref", c.getCaptureKind() == LCK_ByRef}});
            }
            o["caps"] = std::move(caps);
            o["fref"] = fref(op);
            o["body"] = node(body);
            json::Array ps;
            for (auto *p : op->parameters())
                ps.push_back(var(p));
            o["lparams"] = std::move(ps);
        }
        else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            o["ue"] = true;
        }
        else
        {
            for (const Stmt *c : s->children())
                add(c);
        }
        o["c"] = std::move(ch);
        F->nodes[me] = std::move(o);
        return me;
    }

    void function(const FunctionDecl *f)
    {
        if (!f->doesThisDeclarationHaveABody() && !(isa<CXXConstructorDecl>(f) && f->hasBody() && f->isDefined()))
            return;
        if (!f->hasBody() || f->isDependentContext() || f->isDeleted())
            return;
        const FunctionDecl *def = nullptr;
        f->hasBody(def);
        if (def != f)
            return;
        std::string u = usr(f);
        if (!seenF.insert(u).second)
            return;
        Fn fn;
        Fn *save = F;
        F = &fn;
        json::Object o = fref(f);
        o["name"] = f->getNameAsString();
        o["file"] = file(f->getLocation());
        o["line"] = line(f->getLocation());
        o["endline"] = line(f->getEndLoc());
        o["ret"] = ty(f->getReturnType());
        o["implicit"] = f->isImplicit();
        o["defaulted"] = f->isDefaulted();
        o["isstatic"] = f->getStorageClass() == SC_Static;
        if (f->isTemplateInstantiation())
            o["instantiation"] = true;
        json::Array ps;
        for (auto *p : f->parameters())
        {
            json::Object po{{"d", var(p)}, {"name", p->getNameAsString()}, {"type", ty(p->getType())}, {"hasdef", p->hasDefaultArg()}};
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg())
                po["def"] = node(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
        {
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            o["clsusr"] = usr(m->getParent());
            json::Array ov;
            for (auto *x : m->overridden_methods())
                ov.push_back(usr(x));
            o["overrides"] = std::move(ov);
            if (m->isCopyAssignmentOperator())
                o["assign"] = "copy";
            if (m->isMoveAssignmentOperator())
                o["assign"] = "move";
        }
        if (auto *k = dyn_cast<CXXConstructorDecl>(f))
        {
            o["ctor"] = k->isCopyConstructor() ? "copy" : k->isMoveConstructor() ? "move" : k->isDefaultConstructor() ? "default" : "other";
            json::Array inits;
            for (auto *i : k->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["field"] = i->getAnyMember()->getNameAsString();
                    if (i->getAnyMember()->getType()->isReferenceType())
                        io["refm"] = true;
                }
                else if (i->isBaseInitializer())
                    io["base"] = ty(QualType(i->getBaseClass(), 0));
                else
                    io["delegating"] = true;
                io["written"] = i->isWritten();
                io["inclass"] = i->isInClassMemberInitializer();
                io["e"] = node(i->getInit());
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        if (isa<CXXDestructorDecl>(f))
            o["dtor"] = true;
        o["body"] = node(f->getBody());
        // control flow
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.PruneTriviallyFalseEdges = false;
        BO.AddInitializers = true;
        BO.AddImplicitDtors = false;
        BO.AddTemporaryDtors = false;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.AddCXXDefaultInitExprInAggregates = true;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &C, BO);
        if (cfg)
        {
            json::Array blocks;
            for (auto *b : *cfg)
            {
                json::Object bo;
                bo["id"] = (int)b->getBlockID();
                json::Array el;
                int last = -2;
                for (auto &e : *b)
                {
                    if (auto st = e.getAs<CFGStmt>())
                    {
                        int n = node(st->getStmt());
                        if (n != last)
                            el.push_back(n);
                        last = n;
                    }
                    else if (auto in = e.getAs<CFGInitializer>())
                    {
                        json::Object io;
                        auto *i = in->getInitializer();
                        if (i->isAnyMemberInitializer())
                            io["field"] = i->getAnyMember()->getNameAsString();
                        else if (i->isBaseInitializer())
                            io["base"] = ty(QualType(i->getBaseClass(), 0));
                        else
                            io["delegating"] = true;
                        io["e"] = node(i->getInit());
                        el.push_back(std::move(io));
                        last = -2;
                    }
                }
                bo["e"] = std::move(el);
                if (auto *t = b->getTerminatorStmt())
                {
                    bo["term"] = node(t);
                    bo["tk"] = t->getStmtClassName();
                }
                if (auto *c = b->getTerminatorCondition())
                    bo["cond"] = node(c);
                if (auto *l = b->getLabel())
                {
                    bo["label"] = node(l);
                }
                json::Array su;
                for (auto &s : b->succs())
                {
                    const CFGBlock *x = s.getReachableBlock();
                    if (!x)
                        x = s.getPossiblyUnreachableBlock();
                    su.push_back(x ? (int)x->getBlockID() : -1);
                }
                bo["s"] = std::move(su);
                if (b->hasNoReturnElement())
                    bo["noret"] = true;
                blocks.push_back(std::move(bo));
            }
            o["cfg"] = std::move(blocks);
            o["entry"] = (int)cfg->getEntry().getBlockID();
            o["exit"] = (int)cfg->getExit().getBlockID();
        }
        else
            o["nocfg"] = true;
        o["vars"] = std::move(fn.varinfo);
        o["nodes"] = std::move(fn.nodes);
        F = save;
        funcs.push_back(std::move(o));
    }

    void global(const VarDecl *v)
    {
        if (!v->hasGlobalStorage() || v->isStaticDataMember() == false && v->isLocalVarDecl())
            return;
        globals.push_back(json::Object{{"name", v->getQualifiedNameAsString()}, {"type", ty(v->getType())}, {"file", file(v->getLocation())}, {"line", line(v->getLocation())}, {"const", v->getType().isConstQualified()}, {"def", v->isThisDeclarationADefinition() == VarDecl::Definition}});
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper &D;
    Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (D.inRoot(r))
            D.record(r);
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (D.inRoot(f))
        {
            if (auto *m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    return true;
            D.function(f);
        }
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        if (!isa<ParmVarDecl>(v) && !v->isLocalVarDecl() && D.inRoot(v))
            D.global(v);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext &C) override
    {
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object top;
        top["functions"] = std::move(D.funcs);
        top["records"] = std::move(D.records);
        top["globals"] = std::move(D.globals);
        json::Array deps;
        SourceManager &SM = C.getSourceManager();
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
        {
            std::string n = it->first.getName().str();
            if (n.compare(0, gRoot.size(), gRoot) == 0)
                deps.push_back(n);
        }
        top["deps"] = std::move(deps);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(top));
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

struct Factory : tooling::FrontendActionFactory
{
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char **argv)
{
    if (argc < 5)
        return 2;
    gRoot = argv[1];
    gOut = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    Factory fac;
    // files to read from elsewhere: "original<TAB>replacement" lines
    std::vector<std::pair<std::string, std::string>> over;
    if (const char *env = getenv("OXFACTS_OVERLAY"))
    {
        std::istringstream in(env);
        std::string l;
        while (std::getline(in, l))
        {
            size_t t = l.find('\t');
            std::ifstream f(l.substr(t + 1));
            std::stringstream ss;
            ss << f.rdbuf();
            over.push_back({l.substr(0, t), ss.str()});
        }
    }
    for (auto &o : over)
        tool.mapVirtualFile(o.first, o.second);
    return tool.run(&fac);
}
