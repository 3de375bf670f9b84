// ncfacts: resolved-program fact extractor for the static checks in /verif/checks.
// Prints one JSON document per translation unit: every function defined under the
// root directory (with its resolved expression tree), records, enums and variables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;

static std::string Root = "/repo/";

namespace {

void jstr(std::string& o, llvm::StringRef s)
{
    o += '"';
    for (unsigned char c : s)
    {
        switch (c)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
            if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += static_cast<char>(c);
        }
    }
    o += '"';
}

class Ex
{
public:
    Ex(ASTContext& c, std::string& out) : C(c), SM(c.getSourceManager()), o(out) {}

    ASTContext&    C;
    SourceManager& SM;
    std::string&   o;
    std::map<const Decl*, unsigned> ids;

    bool inRoot(SourceLocation l, std::string* file = nullptr, unsigned* line = nullptr)
    {
        if (l.isInvalid())
            return false;
        SourceLocation e = SM.getExpansionLoc(l);
        auto           p = SM.getPresumedLoc(e, false);
        if (p.isInvalid())
            return false;
        llvm::StringRef f(p.getFilename());
        if (file)
            *file = f.str();
        if (line)
            *line = p.getLine();
        return f.starts_with(Root);
    }

    unsigned line(SourceLocation l)
    {
        if (l.isInvalid())
            return 0;
        return SM.getExpansionLineNumber(l);
    }

    void kv(const char* k, llvm::StringRef v)
    {
        o += ",\"";
        o += k;
        o += "\":";
        jstr(o, v);
    }
    void kn(const char* k, long long v)
    {
        o += ",\"";
        o += k;
        o += "\":";
        o += std::to_string(v);
    }

    std::string qual(const NamedDecl* d)
    {
        std::string              s;
        llvm::raw_string_ostream os(s);
        // qualified name without inline namespaces of the standard library
        PrintingPolicy pp(C.getLangOpts());
        pp.SuppressUnwrittenScope     = true;
        pp.TerseOutput                = true;
        pp.SuppressTemplateArgsInCXXConstructors = true;
        std::string r;
        std::vector<std::string> parts;
        parts.push_back(d->getDeclName().isEmpty() ? std::string() : d->getNameAsString());
        for (const DeclContext* dc = d->getDeclContext(); dc; dc = dc->getParent())
        {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (ns->isInline() || ns->isAnonymousNamespace())
                    continue;
                parts.push_back(ns->getNameAsString());
            }
            else if (auto* rd = dyn_cast<RecordDecl>(dc))
            {
                parts.push_back(rd->isLambda() ? "<lambda>" : rd->getNameAsString());
            }
            else if (auto* fd = dyn_cast<FunctionDecl>(dc))
            {
                parts.push_back(fd->getNameAsString() + "()");
            }
            else if (auto* ed = dyn_cast<EnumDecl>(dc))
            {
                parts.push_back(ed->getNameAsString());
            }
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it)
        {
            if (!r.empty())
                r += "::";
            r += *it;
        }
        return r;
    }

    std::string shortType(QualType t, int depth = 0)
    {
        if (t.isNull())
            return "";
        QualType    c = t.getCanonicalType();
        std::string s;
        if (c->isReferenceType())
            return shortType(c->getPointeeType(), depth) + (c->isRValueReferenceType() ? " &&" : " &");
        if (c->isPointerType())
            return shortType(c->getPointeeType(), depth) + " *";
        if (c.isConstQualified())
            s += "const ";
        QualType u = c.getUnqualifiedType();
        if (auto* rt = u->getAs<RecordType>())
        {
            auto* rd = rt->getDecl();
            if (rd->isLambda())
                return s + "<lambda>";
            s += qual(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
            {
                if (depth < 3)
                {
                    s += "<";
                    int n = 0;
                    for (auto& a : sp->getTemplateArgs().asArray())
                    {
                        if (n >= 3)
                        {
                            break;
                        }
                        auto put = [&](const TemplateArgument& x) {
                            if (n++)
                                s += ", ";
                            if (x.getKind() == TemplateArgument::Type)
                                s += shortType(x.getAsType(), depth + 1);
                            else
                                s += "?";
                        };
                        if (a.getKind() == TemplateArgument::Pack)
                        {
                            for (auto& x : a.pack_elements())
                                put(x);
                        }
                        else
                            put(a);
                    }
                    s += ">";
                }
            }
            return s;
        }
        if (auto* et = u->getAs<EnumType>())
            return s + qual(et->getDecl());
        if (u->isBuiltinType())
        {
            PrintingPolicy pp(C.getLangOpts());
            pp.Bool = 1;
            return s + u.getAsString(pp);
        }
        if (u->isDependentType())
            return s + "<dep>";
        std::string r = u.getAsString();
        if (r.size() > 120)
            r.resize(120);
        return s + r;
    }

    std::string usr(const Decl* d)
    {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(d, b))
            return "";
        if (b.size() > 400)
        {
            auto h = llvm::hash_value(b.str());
            return b.str().substr(0, 200).str() + "#" + std::to_string(static_cast<size_t>(h));
        }
        return b.str().str();
    }

    // identity of a variable/parameter/field inside one translation unit
    std::string staticLocal(const VarDecl* v)
    {
        return usr(v) + "@L" + std::to_string(line(v->getLocation()));
    }

    std::string did(const Decl* d)
    {
        d = d->getCanonicalDecl();
        if (isa<FieldDecl>(d))
            return usr(d);
        if (auto* v = dyn_cast<VarDecl>(d); v && v->hasGlobalStorage())
            return v->isStaticLocal() ? staticLocal(v) : usr(d);
        auto [it, nw] = ids.try_emplace(d, ids.size() + 1);
        return "v" + std::to_string(it->second);
    }

    static const FunctionDecl* pattern(const FunctionDecl* f)
    {
        return f;
    }

    void callee(const FunctionDecl* f)
    {
        kv("q", qual(f));
        kv("u", usr(f));
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isVirtual())
                kn("virt", 1);
            if (m->isConst())
                kn("cm", 1);
            if (m->isStatic())
                kn("st", 1);
        }
        if (auto* fp = f->getType()->getAs<FunctionProtoType>())
            if (isNoexceptExceptionSpec(fp->getExceptionSpecType()) &&
                fp->getExceptionSpecType() != EST_Unevaluated && fp->canThrow() == CT_Cannot)
                kn("nx", 1);
        bool r = inRoot(f->getLocation());
        if (r)
            kn("own", 1);
        // parameter passing modes: r = non-const lvalue ref, c = const ref, m = rvalue ref, p = ptr, q = const ptr, v = value
        std::string m;
        for (auto* p : f->parameters())
        {
            QualType t = p->getType();
            if (t->isRValueReferenceType())
                m += 'm';
            else if (t->isLValueReferenceType())
                m += t->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (t->isPointerType())
                m += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            else
                m += 'v';
        }
        kv("pm", m);
    }

    void begin(const char* k, SourceLocation l)
    {
        o += "{\"k\":\"";
        o += k;
        o += "\"";
        kn("l", line(l));
    }

    const Expr* strip(const Expr* e)
    {
        while (e)
        {
            if (auto* p = dyn_cast<ParenExpr>(e))
                e = p->getSubExpr();
            else if (auto* p = dyn_cast<FullExpr>(e))
                e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e))
                e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e))
                e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = p->getReplacement();
            else if (auto* p = dyn_cast<ImplicitCastExpr>(e))
            {
                auto ck = p->getCastKind();
                if (ck == CK_IntegralCast || ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating ||
                    ck == CK_FloatingToBoolean || ck == CK_IntegralToBoolean || ck == CK_PointerToBoolean ||
                    ck == CK_FloatingCast)
                    return e;
                e = p->getSubExpr();
            }
            else if (auto* p = dyn_cast<CXXConstructExpr>(e);
                     p && p->isElidable() && p->getNumArgs() >= 1)
                e = p->getArg(0);
            else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e))
                e = p->getSubExpr();
            else
                break;
        }
        return e;
    }

    void children(std::initializer_list<const Stmt*> l)
    {
        o += ",\"c\":[";
        bool first = true;
        for (auto* s : l)
        {
            if (!first)
                o += ',';
            first = false;
            node(s);
        }
        o += ']';
    }

    template <typename R>
    void childrenR(R&& r)
    {
        o += ",\"c\":[";
        bool first = true;
        for (const Stmt* s : r)
        {
            if (!first)
                o += ',';
            first = false;
            node(s);
        }
        o += ']';
    }

    void var(const VarDecl* v)
    {
        begin("Var", v->getLocation());
        kv("n", v->getNameAsString());
        kv("d", did(v));
        kv("t", shortType(v->getType()));
        if (v->isStaticLocal())
            kn("static", 1);
        if (auto* dd = dyn_cast<DecompositionDecl>(v))
        {
            o += ",\"bind\":[";
            bool first = true;
            for (auto* b : dd->bindings())
            {
                if (!first)
                    o += ',';
                first = false;
                o += "{\"n\":";
                jstr(o, b->getNameAsString());
                kv("d", did(b));
                o += '}';
            }
            o += ']';
        }
        if (v->hasInit())
        {
            kn("ini", static_cast<int>(v->getInitStyle()));
            children({v->getInit()});
        }
        o += '}';
    }

    void params(const FunctionDecl* f)
    {
        o += ",\"params\":[";
        bool first = true;
        for (auto* p : f->parameters())
        {
            if (!first)
                o += ',';
            first = false;
            o += "{\"n\":";
            jstr(o, p->getNameAsString());
            kv("d", did(p));
            kv("t", shortType(p->getType()));
            o += '}';
        }
        o += ']';
    }

    void node(const Stmt* s)
    {
        if (!s)
        {
            o += "null";
            return;
        }
        if (auto* e = dyn_cast<Expr>(s))
        {
            e = strip(e);
            expr(e);
            return;
        }
        switch (s->getStmtClass())
        {
        case Stmt::CompoundStmtClass:
            begin("Block", s->getBeginLoc());
            kn("e", line(s->getEndLoc()));
            childrenR(s->children());
            break;
        case Stmt::DeclStmtClass: {
            begin("Decl", s->getBeginLoc());
            o += ",\"c\":[";
            bool first = true;
            for (auto* d : cast<DeclStmt>(s)->decls())
            {
                if (auto* v = dyn_cast<VarDecl>(d))
                {
                    if (!first)
                        o += ',';
                    first = false;
                    var(v);
                }
            }
            o += ']';
            break;
        }
        case Stmt::IfStmtClass: {
            auto* i = cast<IfStmt>(s);
            begin("If", s->getBeginLoc());
            if (i->isConstexpr())
                kn("cx", 1);
            o += ",\"init\":";
            node(i->getInit());
            o += ",\"cvar\":";
            node(i->getConditionVariableDeclStmt());
            children({i->getCond(), i->getThen(), i->getElse()});
            break;
        }
        case Stmt::WhileStmtClass: {
            auto* w = cast<WhileStmt>(s);
            begin("While", s->getBeginLoc());
            o += ",\"cvar\":";
            node(w->getConditionVariableDeclStmt());
            children({w->getCond(), w->getBody()});
            break;
        }
        case Stmt::DoStmtClass: {
            auto* w = cast<DoStmt>(s);
            begin("Do", s->getBeginLoc());
            children({w->getBody(), w->getCond()});
            break;
        }
        case Stmt::ForStmtClass: {
            auto* f = cast<ForStmt>(s);
            begin("For", s->getBeginLoc());
            children({f->getInit(), f->getCond(), f->getInc(), f->getBody()});
            break;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* f = cast<CXXForRangeStmt>(s);
            begin("ForRange", s->getBeginLoc());
            o += ",\"init\":";
            node(f->getInit());
            o += ",\"var\":";
            var(f->getLoopVariable());
            children({f->getRangeInit(), f->getBody()});
            break;
        }
        case Stmt::SwitchStmtClass: {
            auto* w = cast<SwitchStmt>(s);
            begin("Switch", s->getBeginLoc());
            o += ",\"init\":";
            node(w->getInit());
            children({w->getCond(), w->getBody()});
            break;
        }
        case Stmt::CaseStmtClass: {
            auto* w = cast<CaseStmt>(s);
            begin("Case", s->getBeginLoc());
            children({w->getLHS(), w->getRHS(), w->getSubStmt()});
            break;
        }
        case Stmt::DefaultStmtClass:
            begin("Default", s->getBeginLoc());
            children({cast<DefaultStmt>(s)->getSubStmt()});
            break;
        case Stmt::ReturnStmtClass:
            begin("Return", s->getBeginLoc());
            children({cast<ReturnStmt>(s)->getRetValue()});
            break;
        case Stmt::BreakStmtClass: begin("Break", s->getBeginLoc()); break;
        case Stmt::ContinueStmtClass: begin("Continue", s->getBeginLoc()); break;
        case Stmt::NullStmtClass: begin("Null", s->getBeginLoc()); break;
        case Stmt::CXXTryStmtClass: {
            auto* t = cast<CXXTryStmt>(s);
            begin("Try", s->getBeginLoc());
            children({t->getTryBlock()});
            o += ",\"h\":[";
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                if (i)
                    o += ',';
                auto* h = t->getHandler(i);
                begin("Catch", h->getBeginLoc());
                if (h->getExceptionDecl())
                {
                    kv("t", shortType(h->getExceptionDecl()->getType()));
                    kv("n", h->getExceptionDecl()->getNameAsString());
                    kv("d", did(h->getExceptionDecl()));
                    bases(h->getExceptionDecl()->getType());
                }
                else
                    kv("t", "...");
                children({h->getHandlerBlock()});
                o += '}';
            }
            o += ']';
            break;
        }
        case Stmt::AttributedStmtClass:
            node(cast<AttributedStmt>(s)->getSubStmt());
            return;
        case Stmt::LabelStmtClass:
            begin("Label", s->getBeginLoc());
            children({cast<LabelStmt>(s)->getSubStmt()});
            break;
        default:
            begin("Stmt", s->getBeginLoc());
            kv("cls", s->getStmtClassName());
            childrenR(s->children());
        }
        o += '}';
    }

    void bases(QualType t)
    {
        QualType r = t.getNonReferenceType();
        auto*    d = r->getAsCXXRecordDecl();
        if (!d || !d->hasDefinition())
            return;
        o += ",\"bases\":[";
        bool                                 first = true;
        std::set<const CXXRecordDecl*>       seen;
        std::function<void(const CXXRecordDecl*)> go = [&](const CXXRecordDecl* x) {
            for (auto& b : x->bases())
                if (auto* bd = b.getType()->getAsCXXRecordDecl(); bd && seen.insert(bd).second)
                {
                    if (!first)
                        o += ',';
                    first = false;
                    jstr(o, qual(bd));
                    if (bd->hasDefinition())
                        go(bd->getDefinition());
                }
        };
        go(d->getDefinition());
        o += ']';
    }

    void expr(const Expr* e)
    {
        if (!e)
        {
            o += "null";
            return;
        }
        SourceLocation l = e->getExprLoc();
        switch (e->getStmtClass())
        {
        case Stmt::DeclRefExprClass: {
            auto* d = cast<DeclRefExpr>(e)->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                begin("FnRef", l);
                kv("n", f->getNameAsString());
                callee(f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                begin("EnumRef", l);
                kv("n", ec->getNameAsString());
                kv("q", qual(ec));
                llvm::SmallString<32> b;
                ec->getInitVal().toString(b, 10);
                kv("v", b);
            }
            else
            {
                begin("Ref", l);
                kv("n", d->getNameAsString());
                kv("d", did(d));
                if (auto* v = dyn_cast<VarDecl>(d); v && v->hasGlobalStorage())
                {
                    kv("q", qual(d));
                    kn("glob", 1);
                }
                if (isa<ParmVarDecl>(d))
                    kn("parm", 1);
            }
            break;
        }
        case Stmt::MemberExprClass: {
            auto* m = cast<MemberExpr>(e);
            begin("Member", m->getMemberLoc());
            kv("n", m->getMemberDecl()->getNameAsString());
            if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl()))
            {
                callee(f);
            }
            else
            {
                kv("d", did(m->getMemberDecl()));
                kv("q", qual(m->getMemberDecl()));
            }
            if (m->isArrow())
                kn("arrow", 1);
            children({m->getBase()});
            break;
        }
        case Stmt::CXXThisExprClass: begin("This", l); break;
        case Stmt::IntegerLiteralClass: {
            begin("Int", l);
            llvm::SmallString<32> b;
            cast<IntegerLiteral>(e)->getValue().toString(b, 10, true);
            kv("v", b);
            break;
        }
        case Stmt::CharacterLiteralClass:
            begin("Char", l);
            kn("v", cast<CharacterLiteral>(e)->getValue());
            break;
        case Stmt::FloatingLiteralClass: {
            begin("Float", l);
            llvm::SmallString<32> b;
            cast<FloatingLiteral>(e)->getValue().toString(b);
            kv("v", b);
            break;
        }
        case Stmt::StringLiteralClass:
            begin("Str", l);
            kv("v", cast<clang::StringLiteral>(e)->isUTF8() || cast<clang::StringLiteral>(e)->isOrdinary()
                        ? cast<clang::StringLiteral>(e)->getBytes()
                        : llvm::StringRef("?wide"));
            break;
        case Stmt::PredefinedExprClass: begin("Str", l); kv("v", "__func__"); break;
        case Stmt::CXXBoolLiteralExprClass:
            begin("Bool", l);
            kn("v", cast<CXXBoolLiteralExpr>(e)->getValue());
            break;
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: begin("NullPtr", l); break;
        case Stmt::UnaryOperatorClass: {
            auto* u = cast<UnaryOperator>(e);
            begin("Un", u->getOperatorLoc());
            kv("op", (UnaryOperator::getOpcodeStr(u->getOpcode()) + (u->isPostfix() ? "post" : "")).str());
            kv("t", shortType(u->getType()));
            children({u->getSubExpr()});
            break;
        }
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass: {
            auto* b = cast<BinaryOperator>(e);
            begin("Bin", b->getOperatorLoc());
            kv("op", b->getOpcodeStr());
            kv("t", shortType(b->getType()));
            children({b->getLHS(), b->getRHS()});
            break;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass: {
            auto* r = cast<CXXRewrittenBinaryOperator>(e);
            auto  d = r->getDecomposedForm();
            begin("Bin", l);
            kv("op", BinaryOperator::getOpcodeStr(d.Opcode));
            kn("rw", 1);
            children({d.LHS, d.RHS});
            break;
        }
        case Stmt::ConditionalOperatorClass: {
            auto* c = cast<ConditionalOperator>(e);
            begin("Cond", l);
            children({c->getCond(), c->getTrueExpr(), c->getFalseExpr()});
            break;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto* a = cast<ArraySubscriptExpr>(e);
            begin("Index", l);
            children({a->getBase(), a->getIdx()});
            break;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto* c = cast<CXXOperatorCallExpr>(e);
            begin("Op", c->getOperatorLoc());
            kv("op", getOperatorSpelling(c->getOperator()));
            if (auto* f = c->getDirectCallee())
                callee(f);
            kv("t", shortType(c->getType()));
            childrenR(c->arguments());
            break;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto* c = cast<CXXMemberCallExpr>(e);
            begin("MCall", l);
            auto* f = c->getMethodDecl();
            if (f)
            {
                kv("n", f->getNameAsString());
                callee(f);
                kv("ot", shortType(c->getObjectType()));
            }
            kv("t", shortType(c->getType()));
            if (auto* m = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
            {
                if (m->isArrow())
                    kn("arrow", 1);
                if (m->hasQualifier())
                    kn("qualcall", 1);
            }
            o += ",\"obj\":";
            node(c->getImplicitObjectArgument());
            childrenR(c->arguments());
            break;
        }
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto* c = cast<CallExpr>(e);
            begin("Call", l);
            if (auto* f = c->getDirectCallee())
            {
                kv("n", f->getNameAsString());
                callee(f);
            }
            else
            {
                o += ",\"fn\":";
                node(c->getCallee());
            }
            kv("t", shortType(c->getType()));
            childrenR(c->arguments());
            break;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto* c = cast<CXXConstructExpr>(e);
            begin("Ctor", l);
            auto* f = c->getConstructor();
            callee(f);
            kv("t", shortType(c->getType()));
            if (f->isCopyConstructor())
                kn("copy", 1);
            if (f->isMoveConstructor())
                kn("move", 1);
            if (c->isListInitialization())
                kn("list", 1);
            if (c->requiresZeroInitialization())
                kn("zi", 1);
            if (f->isTrivial() && f->isDefaultConstructor())
                kn("triv", 1);
            childrenR(c->arguments());
            break;
        }
        case Stmt::CXXInheritedCtorInitExprClass: begin("Ctor", l); kv("t", shortType(e->getType())); break;
        case Stmt::InitListExprClass: {
            auto* i = cast<InitListExpr>(e);
            if (auto* sem = i->getSemanticForm())
                i = sem;
            begin("InitList", l);
            kv("t", shortType(i->getType()));
            if (auto* rd = i->getType()->getAsRecordDecl())
            {
                o += ",\"fields\":[";
                bool first = true;
                if (auto* cx = dyn_cast<CXXRecordDecl>(rd))
                    for (unsigned k = 0; k < cx->getNumBases(); ++k)
                    {
                        if (!first)
                            o += ',';
                        first = false;
                        jstr(o, "<base>");
                    }
                for (auto* f : rd->fields())
                {
                    if (!first)
                        o += ',';
                    first = false;
                    jstr(o, f->getNameAsString());
                }
                o += ']';
            }
            childrenR(i->inits());
            break;
        }
        case Stmt::CXXDefaultArgExprClass: begin("DefArg", l); children({cast<CXXDefaultArgExpr>(e)->getExpr()}); break;
        case Stmt::CXXDefaultInitExprClass: begin("DefInit", l); children({cast<CXXDefaultInitExpr>(e)->getExpr()}); break;
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass: begin("Zero", l); kv("t", shortType(e->getType())); break;
        case Stmt::CXXNewExprClass: {
            auto* n = cast<CXXNewExpr>(e);
            begin("New", l);
            kv("t", shortType(n->getAllocatedType()));
            if (n->isArray())
                kn("arr", 1);
            if (n->hasInitializer())
                kn("ini", 1);
            o += ",\"size\":";
            node(n->isArray() && n->getArraySize() ? *n->getArraySize() : nullptr);
            children({n->getInitializer()});
            break;
        }
        case Stmt::CXXDeleteExprClass: {
            auto* n = cast<CXXDeleteExpr>(e);
            begin("Delete", l);
            if (n->isArrayForm())
                kn("arr", 1);
            children({n->getArgument()});
            break;
        }
        case Stmt::CXXThrowExprClass: {
            auto* t = cast<CXXThrowExpr>(e);
            begin("Throw", l);
            if (t->getSubExpr())
            {
                kv("t", shortType(t->getSubExpr()->getType()));
                bases(t->getSubExpr()->getType());
            }
            children({t->getSubExpr()});
            break;
        }
        case Stmt::LambdaExprClass: {
            auto* x = cast<LambdaExpr>(e);
            begin("Lambda", l);
            const CXXMethodDecl* op   = x->getCallOperator();
            const Stmt*          body = x->getBody();
            if (auto* ft = x->getDependentCallOperator())
            {
                for (auto* sp : ft->specializations())
                    if (sp->hasBody())
                    {
                        op   = cast<CXXMethodDecl>(sp);
                        body = sp->getBody();
                        break;
                    }
            }
            kv("u", usr(op));
            params(op);
            o += ",\"caps\":[";
            bool first = true;
            auto ii    = x->capture_init_begin();
            for (auto& cp : x->captures())
            {
                if (!first)
                    o += ',';
                first = false;
                o += "{\"ref\":";
                o += cp.getCaptureKind() == LCK_ByRef ? "1" : "0";
                if (cp.capturesThis())
                    kn("this", 1);
                else if (cp.capturesVariable())
                {
                    kv("n", cp.getCapturedVar()->getNameAsString());
                    kv("d", did(cp.getCapturedVar()));
                }
                o += ",\"x\":";
                node(*ii);
                o += '}';
                ++ii;
            }
            o += "],\"body\":";
            node(body);
            break;
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXDynamicCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXFunctionalCastExprClass: {
            auto* c = cast<CastExpr>(e);
            begin("Cast", l);
            kv("ck", c->getCastKindName());
            kv("t", shortType(c->getType()));
            kv("ft", shortType(c->getSubExpr()->getType()));
            if (isa<ImplicitCastExpr>(e))
                kn("imp", 1);
            if (c->getCastKind() == CK_IntegralCast && !e->isTypeDependent() && !c->getSubExpr()->isTypeDependent())
            {
                kn("w", (long)C.getIntWidth(c->getType()));
                kn("fw", (long)C.getIntWidth(c->getSubExpr()->getType()));
            }
            children({c->getSubExpr()});
            break;
        }
        case Stmt::UnaryExprOrTypeTraitExprClass: {
            begin("Sizeof", l);
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C))
            {
                llvm::SmallString<32> b;
                r.Val.getInt().toString(b, 10);
                kv("v", b);
            }
            break;
        }
        case Stmt::CXXDependentScopeMemberExprClass: {
            auto* m = cast<CXXDependentScopeMemberExpr>(e);
            begin("DepMember", l);
            kv("n", m->getMember().getAsString());
            children({m->isImplicitAccess() ? nullptr : m->getBase()});
            break;
        }
        case Stmt::UnresolvedLookupExprClass:
        case Stmt::UnresolvedMemberExprClass:
            begin("Unres", l);
            kv("n", cast<OverloadExpr>(e)->getName().getAsString());
            break;
        default:
            begin("Expr", l);
            kv("cls", e->getStmtClassName());
            childrenR(e->children());
        }
        o += '}';
    }

    void function(const FunctionDecl* f, const std::string& file)
    {
        o += "{\"q\":";
        jstr(o, qual(f));
        kv("u", usr(f));
        kv("f", file);
        kn("l", line(f->getLocation()));
        kn("e", line(f->getEndLoc()));
        kv("rt", shortType(f->getReturnType()));
        if (f->isDependentContext())
            kn("dep", 1);
        if (f->isTemplateInstantiation() || (isa<CXXMethodDecl>(f) && isa<ClassTemplateSpecializationDecl>(f->getDeclContext())))
            kn("inst", 1);
        if (f->isExternC())
            kn("externc", 1);
        if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace())
            kn("internal", 1);
        if (auto* fp = f->getType()->getAs<FunctionProtoType>())
            if (isNoexceptExceptionSpec(fp->getExceptionSpecType()) && fp->canThrow() == CT_Cannot)
                kn("nx", 1);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            kv("cls", qual(m->getParent()));
            if (m->isVirtual())
                kn("virt", 1);
            if (m->isConst())
                kn("cm", 1);
            if (m->isStatic())
                kn("st", 1);
            o += ",\"ov\":[";
            bool first = true;
            for (auto* b : m->overridden_methods())
            {
                if (!first)
                    o += ',';
                first = false;
                jstr(o, usr(b));
            }
            o += ']';
        }
        const char* kind = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : "fn";
        kv("kind", kind);
        if (f->isImplicit() || f->isDefaulted())
            kn("def", 1);
        if (f->isDeleted())
            kn("del", 1);
        params(f);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            if (c->isCopyConstructor())
                kn("copyctor", 1);
            if (c->isMoveConstructor())
                kn("movector", 1);
            o += ",\"inits\":[";
            bool first = true;
            for (auto* i : c->inits())
            {
                if (!first)
                    o += ',';
                first = false;
                o += "{\"w\":";
                o += i->isWritten() ? "1" : "0";
                if (i->isMemberInitializer())
                {
                    kv("m", i->getMember()->getNameAsString());
                    kv("d", did(i->getMember()));
                }
                else if (i->isBaseInitializer())
                    kv("b", shortType(QualType(i->getBaseClass(), 0)));
                else
                    kn("deleg", 1);
                o += ",\"x\":";
                node(i->getInit());
                o += '}';
            }
            o += ']';
        }
        o += ",\"body\":";
        node(f->getBody());
        o += '}';
    }
};

class V : public RecursiveASTVisitor<V>
{
public:
    V(ASTContext& c, Ex& fx, Ex& rx, Ex& ex, Ex& vx) : C(c), F(fx), R(rx), E(ex), G(vx) {}
    ASTContext& C;
    Ex&         F;
    Ex&         R;
    Ex&         E;
    Ex&         G;
    std::set<const Decl*> seen;

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool TraverseDecl(Decl* d)
    {
        if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && d->getLocation().isValid())
        {
            // whole subtrees outside the root hold nothing of interest, except instantiations
            // of templates written in the root (their location is in the root too)
            if (isa<DeclContext>(d) && !F.inRoot(d->getLocation()))
                return true;
        }
        return RecursiveASTVisitor<V>::TraverseDecl(d);
    }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted())
            return true;
        if (f->isDefaulted() && !f->hasBody())
            return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
            return true;
        std::string file;
        if (!F.inRoot(f->getLocation(), &file))
            return true;
        if (!seen.insert(f).second)
            return true;
        if (!F.o.empty())
            F.o += ",\n";
        F.function(f, file);
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* d)
    {
        if (!d->isThisDeclarationADefinition() || d->isLambda() || d->isImplicit())
            return true;
        std::string file;
        unsigned    ln;
        if (!R.inRoot(d->getLocation(), &file, &ln))
            return true;
        if (!R.o.empty())
            R.o += ",\n";
        R.o += "{\"q\":";
        jstr(R.o, R.qual(d));
        R.kv("f", file);
        R.kn("l", ln);
        if (d->isDependentContext())
            R.kn("dep", 1);
        else
        {
            if (d->isPolymorphic())
                R.kn("poly", 1);
            if (auto* dt = d->getDestructor(); dt && dt->isVirtual())
                R.kn("vdtor", 1);
            R.bases(C.getRecordType(d));
            if (!d->isInvalidDecl() && d->isCompleteDefinition())
            {
                R.o += ",\"layout\":1";
            }
        }
        R.o += ",\"fields\":[";
        bool first = true;
        for (auto* f : d->fields())
        {
            if (!first)
                R.o += ',';
            first = false;
            R.o += "{\"n\":";
            jstr(R.o, f->getNameAsString());
            R.kv("t", R.shortType(f->getType()));
            R.kn("l", R.line(f->getLocation()));
            R.kv("d", R.did(f));
            R.kn("ini", f->hasInClassInitializer());
            R.o += ",\"x\":";
            R.node(f->hasInClassInitializer() ? f->getInClassInitializer() : nullptr);
            R.o += '}';
        }
        R.o += "],\"methods\":[";
        first = true;
        for (auto* m : d->methods())
        {
            if (!first)
                R.o += ',';
            first = false;
            R.o += "{\"n\":";
            jstr(R.o, m->getNameAsString());
            R.kv("u", R.usr(m));
            if (m->isVirtual())
                R.kn("virt", 1);
            if (m->isPureVirtual())
                R.kn("pure", 1);
            if (m->isDeleted())
                R.kn("del", 1);
            if (m->isDefaulted())
                R.kn("def", 1);
            if (m->isImplicit())
                R.kn("imp", 1);
            R.o += '}';
        }
        R.o += "]}";
        return true;
    }

    bool VisitEnumDecl(EnumDecl* d)
    {
        std::string file;
        if (!d->isThisDeclarationADefinition() || !E.inRoot(d->getLocation(), &file))
            return true;
        if (!E.o.empty())
            E.o += ",\n";
        E.o += "{\"q\":";
        jstr(E.o, E.qual(d));
        E.kv("f", file);
        E.kn("l", E.line(d->getLocation()));
        E.o += ",\"e\":[";
        bool first = true;
        for (auto* c : d->enumerators())
        {
            if (!first)
                E.o += ',';
            first = false;
            llvm::SmallString<32> b;
            c->getInitVal().toString(b, 10);
            E.o += "[";
            jstr(E.o, c->getNameAsString());
            E.o += ",";
            E.o += b.str();
            E.o += "]";
        }
        E.o += "]}";
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v))
            return true;
        std::string file;
        if (!G.inRoot(v->getLocation(), &file))
            return true;
        if (!v->hasInit() && !v->isThisDeclarationADefinition())
            return true;
        if (!seen.insert(v).second)
            return true;
        if (!G.o.empty())
            G.o += ",\n";
        G.o += "{\"q\":";
        jstr(G.o, G.qual(v));
        G.kv("f", file);
        G.kn("l", G.line(v->getLocation()));
        G.kv("t", G.shortType(v->getType()));
        G.kv("u", v->isStaticLocal() ? G.staticLocal(v) : G.usr(v));
        if (v->isStaticLocal())
            G.kn("staticlocal", 1);
        if (v->getType().isConstQualified())
            G.kn("const", 1);
        G.o += ",\"x\":";
        G.node(v->hasInit() && !v->getType()->isDependentType() ? v->getInit() : nullptr);
        G.o += '}';
        return true;
    }
};

class Con : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& c) override
    {
        std::string f, r, e, g;
        Ex          F(c, f), R(c, r), E(c, e), G(c, g);
        V           v(c, F, R, E, G);
        v.TraverseDecl(c.getTranslationUnitDecl());
        llvm::outs() << "{\"functions\":[" << f << "],\n\"records\":[" << r << "],\n\"enums\":[" << e
                     << "],\n\"vars\":[" << g << "]}\n";
    }
};

class Act : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Con>();
    }
};

} // namespace

// usage: ncfacts ROOT FILE -- flags...
int main(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    Root             = argv[1];
    std::string file = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool                tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Act>().get()) ? 2 : 0;
}
