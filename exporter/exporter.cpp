// Exports the type-checked program (template instantiations included) as JSON.
// usage: exporter ROOT1[,ROOT2...] OUT.json -- clang args... file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> roots;
static std::string outPath;

struct Exporter
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const void*, int> ids;
    std::map<const void*, int> typeIds;
    Array types, functions, records, enums, globals;
    std::set<const void*> doneFn, doneRec, doneEnum, doneVar;
    std::vector<const CXXRecordDecl*> recQueue;

    explicit Exporter (ASTContext& c) : C (c), SM (c.getSourceManager()), PP (c.getPrintingPolicy())
    {
    PP.SuppressInlineNamespace = true;
        PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = true;
    }

    int id (const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find (d); if (it != ids.end()) return it->second; int n = (int) ids.size() + 1; ids[d] = n; return n; }

    std::string qname (const NamedDecl* d)
    {
        std::string s = d->getDeclName().getAsString();
        if (auto* cd = dyn_cast<CXXConstructorDecl> (d)) s = cd->getParent()->getNameAsString();
        if (auto* cd = dyn_cast<CXXDestructorDecl> (d)) s = "~" + cd->getParent()->getNameAsString();
        if (auto* rd = dyn_cast<CXXRecordDecl> (d)) if (rd->isLambda()) s = "(lambda)";
        const DeclContext* dc = d->getDeclContext();
        while (dc && ! dc->isTranslationUnit())
        {
            if (auto* ns = dyn_cast<NamespaceDecl> (dc)) { if (! ns->isInline() && ! ns->isAnonymousNamespace()) s = ns->getNameAsString() + "::" + s; else if (ns->isAnonymousNamespace()) s = "(anon)::" + s; }
            else if (auto* rd = dyn_cast<CXXRecordDecl> (dc)) s = (rd->isLambda() ? std::string ("(lambda)") : rd->getNameAsString()) + "::" + s;
            else if (auto* fd = dyn_cast<FunctionDecl> (dc)) { s = fd->getNameAsString() + "()::" + s; }
            else if (auto* ed = dyn_cast<EnumDecl> (dc)) { if (ed->isScoped()) s = ed->getNameAsString() + "::" + s; }
            dc = dc->getParent();
        }
        return s;
    }

    std::string fileOf (SourceLocation l) { auto p = SM.getPresumedLoc (SM.getExpansionLoc (l)); return p.isValid() ? p.getFilename() : ""; }
    int lineOf (SourceLocation l) { auto p = SM.getPresumedLoc (SM.getExpansionLoc (l)); return p.isValid() ? (int) p.getLine() : 0; }
    static std::string norm (const std::string& f)
    {
        llvm::SmallString<256> p (f); llvm::sys::fs::make_absolute (p); llvm::sys::path::remove_dots (p, true); return std::string (p.str());
    }
    bool inRoots (SourceLocation l)
    {
        if (l.isInvalid()) return false;
        std::string f = norm (fileOf (l));
        for (auto& r : roots) if (f.compare (0, r.size(), r) == 0) return true;
        return false;
    }

    int type (QualType q)
    {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto key = q.getAsOpaquePtr();
        auto it = typeIds.find (key); if (it != typeIds.end()) return it->second;
        int n = (int) types.size(); typeIds[key] = n; types.push_back (nullptr);
        Object o; o["s"] = q.getAsString (PP);
        if (q.isConstQualified()) o["const"] = true;
        if (q->isReferenceType()) { o["k"] = q->isRValueReferenceType() ? "rref" : "ref"; o["to"] = type (q->getPointeeType()); }
        else if (q->isPointerType()) { o["k"] = "ptr"; o["to"] = type (q->getPointeeType()); }
        else if (q->isBooleanType()) o["k"] = "bool";
        else if (q->isEnumeralType()) { o["k"] = "enum"; auto* ed = q->castAs<EnumType>()->getDecl(); o["q"] = qname (ed); enumDecl (ed); }
        else if (q->isIntegerType()) { o["k"] = "int"; if (! q->isDependentType()) o["bits"] = (int) C.getTypeSize (q); o["sg"] = q->isSignedIntegerType(); }
        else if (q->isRealFloatingType()) { o["k"] = "float"; o["bits"] = (int) C.getTypeSize (q); }
        else if (q->isVoidType()) o["k"] = "void";
        else if (q->isArrayType()) { o["k"] = "array"; o["to"] = type (C.getAsArrayType (q)->getElementType()); if (auto* ca = dyn_cast<ConstantArrayType> (C.getAsArrayType (q))) o["n"] = (int64_t) ca->getSize().getZExtValue(); }
        else if (auto* rd = q->getAsCXXRecordDecl())
        {
            o["k"] = "rec"; o["q"] = qname (rd); o["rid"] = id (rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl> (rd)) o["targs"] = targs (&sp->getTemplateArgs());
            recQueue.push_back (rd);
        }
        else o["k"] = "other";
        types[n] = std::move (o);
        return n;
    }

    Array targs (const TemplateArgumentList* l)
    {
        Array a; if (l) for (auto& t : l->asArray()) targ (a, t); return a;
    }
    void targ (Array& a, const TemplateArgument& t)
    {
        if (t.getKind() == TemplateArgument::Type) a.push_back (t.getAsType().getAsString (PP));
        else if (t.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; t.getAsIntegral().toString (s, 10); a.push_back (std::string (s.str())); }
        else if (t.getKind() == TemplateArgument::Pack) { for (auto& u : t.pack_elements()) targ (a, u); }
        else a.push_back ("?");
    }

    void enumDecl (const EnumDecl* e)
    {
        if (! doneEnum.insert (e->getCanonicalDecl()).second) return;
        if (auto* d = e->getDefinition()) e = d;
        if (! inRoots (e->getLocation())) return;
        Object o; o["q"] = qname (e); o["file"] = fileOf (e->getLocation()); o["line"] = lineOf (e->getLocation());
        Array cs; for (auto* c : e->enumerators()) { Object x; x["n"] = c->getNameAsString(); x["v"] = c->getInitVal().getExtValue(); cs.push_back (std::move (x)); }
        o["consts"] = std::move (cs); enums.push_back (std::move (o));
    }

    void record (const CXXRecordDecl* r)
    {
        r = r->getDefinition() ? r->getDefinition() : r;
        if (! doneRec.insert (r->getCanonicalDecl()).second) return;
        if (r->isDependentType() || ! r->hasDefinition()) return;
        Object o; o["id"] = id (r); o["q"] = qname (r); o["file"] = norm (fileOf (r->getLocation())); o["line"] = lineOf (r->getLocation());
        o["lambda"] = r->isLambda();
        const bool own = inRoots (r->getLocation());
        o["own"] = own;
        o["t"] = type (C.getRecordType (r));
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl> (r)) o["targs"] = targs (&sp->getTemplateArgs());
        Array bs; for (auto& b : r->bases()) { if (auto* br = b.getType()->getAsCXXRecordDecl()) { Object x; x["id"] = id (br); x["q"] = qname (br); x["t"] = type (b.getType()); bs.push_back (std::move (x)); recQueue.push_back (br); } }
        o["bases"] = std::move (bs);
        o["trivially_copyable"] = r->isTriviallyCopyable();
        if (own)
        {
            Array fs;
            for (auto* f : r->fields())
            {
                Object x; x["id"] = id (f); x["n"] = f->getNameAsString(); x["t"] = type (f->getType()); x["line"] = lineOf (f->getLocation());
                x["acc"] = (int) f->getAccess();
                x["hasinit"] = f->hasInClassInitializer();
                x["mutable"] = f->isMutable();
                if (f->hasInClassInitializer() && f->getInClassInitializer() && ! f->getInClassInitializer()->isTypeDependent()) x["init"] = expr (f->getInClassInitializer());
                fs.push_back (std::move (x));
            }
            o["fields"] = std::move (fs);
            Array ms;
            for (auto* d : r->decls())
            {
                const FunctionDecl* m = dyn_cast<FunctionDecl> (d);
                if (! m) continue;
                Object x; x["id"] = id (m); x["n"] = m->getNameAsString(); x["acc"] = (int) m->getAccess(); x["line"] = lineOf (m->getLocation());
                if (auto* md = dyn_cast<CXXMethodDecl> (m)) { x["virtual"] = md->isVirtual(); x["pure"] = md->isPureVirtual(); x["const"] = md->isConst(); x["static"] = md->isStatic(); x["implicit"] = md->isImplicit();
                    Array ov; for (auto* om : md->overridden_methods()) ov.push_back (id (om)); x["over"] = std::move (ov); }
                x["deleted"] = m->isDeleted(); x["defaulted"] = m->isDefaulted();
                if (auto* cd = dyn_cast<CXXConstructorDecl> (m)) x["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : "other";
                if (auto* md = dyn_cast<CXXMethodDecl> (m)) { if (md->isCopyAssignmentOperator()) x["asg"] = "copy"; if (md->isMoveAssignmentOperator()) x["asg"] = "move"; }
                x["rt"] = type (m->getReturnType());
                Array ps; for (auto* p : m->parameters()) ps.push_back (type (p->getType())); x["pt"] = std::move (ps);
                ms.push_back (std::move (x));
            }
            o["methods"] = std::move (ms);
        }
        records.push_back (std::move (o));
    }

    // ---------------------------------------------------------------- expressions
    Object node (const char* k, SourceLocation l) { Object o; o["k"] = k; o["l"] = lineOf (l); return o; }

    void fnRef (Object& o, const FunctionDecl* f)
    {
        o["fn"] = id (f); o["q"] = qname (f); o["n"] = f->getDeclName().getAsString();
        if (auto* m = dyn_cast<CXXMethodDecl> (f)) { o["mvirt"] = m->isVirtual(); o["mconst"] = m->isConst(); o["mstatic"] = m->isStatic(); o["cls"] = id (m->getParent()); o["clst"] = type (C.getRecordType (m->getParent())); }
        if (auto* l = f->getTemplateSpecializationArgs()) o["targs"] = targs (l);
        o["rt"] = type (f->getReturnType());
        Array ps; for (auto* p : f->parameters()) ps.push_back (type (p->getType())); o["pt"] = std::move (ps);
        if (f->isNoReturn()) o["noreturn"] = true;
        if (f->getBuiltinID()) o["builtin"] = true;
        if (f->isStatic() && ! isa<CXXMethodDecl> (f)) {}
    }

    Value expr (const Expr* e)
    {
        if (! e) return nullptr;
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr> (e)) return expr (x->getReplacement());
        if (auto* x = dyn_cast<ConstantExpr> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<FullExpr> (e)) return expr (x->getSubExpr());
        if (auto* x = dyn_cast<CXXDefaultArgExpr> (e)) { Value v = expr (x->getExpr()); if (auto* o = v.getAsObject()) (*o)["defarg"] = true; return v; }
        if (auto* x = dyn_cast<CXXDefaultInitExpr> (e)) return expr (x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr> (e)) { Object o = node ("stdinit", e->getExprLoc()); o["e"] = expr (x->getSubExpr()); o["t"] = type (e->getType()); return o; }
        if (auto* x = dyn_cast<ArrayInitLoopExpr> (e)) { Object o = node ("arraycopy", e->getExprLoc()); o["e"] = expr (x->getCommonExpr()->getSourceExpr()); o["t"] = type (e->getType()); return o; }
        if (auto* x = dyn_cast<OpaqueValueExpr> (e)) return expr (x->getSourceExpr());

        Object o = node ("?", e->getExprLoc());
        o["t"] = type (e->getType());
        if (e->isGLValue()) o["lv"] = e->isXValue() ? 2 : 1;
        constVal (o, e);

        if (auto* x = dyn_cast<IntegerLiteral> (e)) { o["k"] = "int"; llvm::SmallString<32> s; x->getValue().toString (s, 10, x->getType()->isSignedIntegerType()); o["v"] = std::string (s.str()); return o; }
        if (auto* x = dyn_cast<FloatingLiteral> (e)) { o["k"] = "float"; o["v"] = fstr (x->getValue()); return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr> (e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<CharacterLiteral> (e)) { o["k"] = "int"; o["v"] = std::to_string (x->getValue()); o["char"] = true; return o; }
        if (auto* x = dyn_cast<StringLiteral> (e)) { o["k"] = "str"; o["v"] = x->getCharByteWidth() == 1 ? sanitize (x->getString().str()) : std::string ("wide"); return o; }
        if (auto* x = dyn_cast<PredefinedExpr> (e)) { o["k"] = "str"; o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : std::string(); return o; }
        if (isa<CXXNullPtrLiteralExpr> (e) || isa<GNUNullExpr> (e)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr> (e)) { o["k"] = "this"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr> (e)) return declRef (std::move (o), x->getDecl());
        if (auto* x = dyn_cast<MemberExpr> (e))
        {
            if (auto* f = dyn_cast<FieldDecl> (x->getMemberDecl())) { o["k"] = "mem"; o["b"] = expr (x->getBase()); o["f"] = id (f); o["n"] = f->getNameAsString(); o["arrow"] = x->isArrow(); o["cls"] = id (cast<CXXRecordDecl> (f->getParent())); return o; }
            if (isa<VarDecl> (x->getMemberDecl()) || isa<EnumConstantDecl> (x->getMemberDecl())) return declRef (std::move (o), x->getMemberDecl());
            if (auto* m = dyn_cast<CXXMethodDecl> (x->getMemberDecl())) { o["k"] = "mref"; o["b"] = expr (x->getBase()); o["arrow"] = x->isArrow(); fnRef (o, m); return o; }
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr> (e))
        {
            o["k"] = "call"; o["op"] = getOperatorSpelling (x->getOperator());
            auto* f = x->getDirectCallee(); Array a; unsigned i = 0;
            if (f) { fnRef (o, f); if (isa<CXXMethodDecl> (f) && ! cast<CXXMethodDecl> (f)->isStatic()) { o["this"] = expr (x->getArg (0)); i = 1; if (cast<CXXMethodDecl> (f)->isVirtual()) o["v"] = true; } }
            for (; i < x->getNumArgs(); ++i) a.push_back (expr (x->getArg (i)));
            o["args"] = std::move (a); return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr> (e))
        {
            o["k"] = "call"; Array a; for (auto* y : x->arguments()) a.push_back (expr (y)); o["args"] = std::move (a);
            if (auto* m = x->getMethodDecl())
            {
                fnRef (o, m); o["this"] = expr (x->getImplicitObjectArgument());
                if (auto* me = dyn_cast<MemberExpr> (x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); if (m->isVirtual() && ! me->hasQualifier()) o["v"] = true; }
                return o;
            }
            o["k"] = "icall"; o["f"] = expr (x->getCallee()); return o;
        }
        if (auto* x = dyn_cast<CallExpr> (e))
        {
            o["k"] = "call"; Array a; for (auto* y : x->arguments()) a.push_back (expr (y)); o["args"] = std::move (a);
            if (auto* f = x->getDirectCallee()) { fnRef (o, f); if (auto* u = dyn_cast<UserDefinedLiteral> (e)) o["udl"] = u->getUDSuffix()->getName().str(); return o; }
            o["k"] = "icall"; o["f"] = expr (x->getCallee()); return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr> (e))
        {
            o["k"] = "ctor"; fnRef (o, x->getConstructor()); o["elide"] = x->isElidable(); o["list"] = x->isListInitialization(); o["zero"] = x->requiresZeroInitialization();
            auto* cd = x->getConstructor(); o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
            if (isa<CXXTemporaryObjectExpr> (e)) o["temp"] = true;
            Array a; for (auto* y : x->arguments()) a.push_back (expr (y)); o["args"] = std::move (a); return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr> (e)) { o["k"] = "ctor"; fnRef (o, x->getConstructor()); o["inherited"] = true; o["args"] = Array(); return o; }
        if (auto* x = dyn_cast<CXXNewExpr> (e)) { o["k"] = "new"; o["nt"] = type (x->getAllocatedType()); o["init"] = expr (x->getInitializer()); if (x->isArray()) o["size"] = expr (x->getArraySize().value_or (nullptr)); if (x->getNumPlacementArgs()) o["placement"] = true; return o; }
        if (auto* x = dyn_cast<CXXDeleteExpr> (e)) { o["k"] = "del"; o["e"] = expr (x->getArgument()); return o; }
        if (auto* x = dyn_cast<CompoundAssignOperator> (e)) { o["k"] = "asg"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr (x->getLHS()); o["b"] = expr (x->getRHS()); o["clt"] = type (x->getComputationLHSType()); o["crt"] = type (x->getComputationResultType()); return o; }
        if (auto* x = dyn_cast<BinaryOperator> (e)) { o["k"] = x->getOpcode() == BO_Assign ? "asg" : "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr (x->getLHS()); o["b"] = expr (x->getRHS()); return o; }
        if (auto* x = dyn_cast<UnaryOperator> (e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr (x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = expr (x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<AbstractConditionalOperator> (e)) { o["k"] = "cond"; o["c"] = expr (x->getCond()); o["a"] = expr (x->getTrueExpr()); o["b"] = expr (x->getFalseExpr()); return o; }
        if (auto* x = dyn_cast<ArraySubscriptExpr> (e)) { o["k"] = "idx"; o["b"] = expr (x->getBase()); o["i"] = expr (x->getIdx()); return o; }
        if (auto* x = dyn_cast<CastExpr> (e))
        {
            auto ck = x->getCastKind();
            switch (ck)
            {
                case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
                    if (! isa<ExplicitCastExpr> (e) || ck != CK_NoOp || x->getSubExpr()->getType().getCanonicalType() == e->getType().getCanonicalType() || true)
                        return expr (x->getSubExpr());
                default: break;
            }
            o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["exp"] = isa<ExplicitCastExpr> (e) || (isa<ImplicitCastExpr> (e) && cast<ImplicitCastExpr> (e)->isPartOfExplicitCast()); o["e"] = expr (x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<LambdaExpr> (e))
        {
            o["k"] = "lambda"; o["rid"] = id (x->getLambdaClass()); o["call"] = id (x->getCallOperator());
            Array caps; auto ii = x->capture_init_begin();
            for (auto& c : x->captures())
            {
                Object co; if (c.capturesThis()) co["this"] = true; else if (c.capturesVariable()) { co["d"] = id (c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
                co["ref"] = c.getCaptureKind() == LCK_ByRef; co["init"] = expr (*ii); ++ii; caps.push_back (std::move (co));
            }
            o["caps"] = std::move (caps);
            function (x->getCallOperator());
            recQueue.push_back (x->getLambdaClass());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr> (e)) { o["k"] = "throw"; o["e"] = expr (x->getSubExpr()); if (x->getSubExpr()) o["tt"] = type (x->getSubExpr()->getType()); return o; }
        if (auto* x = dyn_cast<InitListExpr> (e))
        {
            if (x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "init"; Array a; for (auto* y : x->inits()) a.push_back (expr (y)); o["a"] = std::move (a);
            if (auto* rd = e->getType()->getAsCXXRecordDecl()) { Array fs; for (auto* f : rd->fields()) { Object fo; fo["f"] = id (f); fo["n"] = f->getNameAsString(); fs.push_back (std::move (fo)); } o["fields"] = std::move (fs); o["rid"] = id (rd); recQueue.push_back (rd); }
            return o;
        }
        if (isa<ImplicitValueInitExpr> (e) || isa<CXXScalarValueInitExpr> (e)) { o["k"] = "zero"; return o; }
        if (isa<UnaryExprOrTypeTraitExpr> (e)) { o["k"] = "const"; return o; }
        if (isa<TypeTraitExpr> (e) || isa<CXXNoexceptExpr> (e) || isa<SizeOfPackExpr> (e)) { o["k"] = "const"; return o; }
        o["cls"] = e->getStmtClassName();
        Array sub; for (auto* s : e->children()) if (auto* se = dyn_cast_or_null<Expr> (s)) sub.push_back (expr (se)); o["sub"] = std::move (sub);
        return o;
    }

    static std::string sanitize (std::string s) { if (llvm::json::isUTF8 (s)) return s; return llvm::json::fixUTF8 (s); }

    Value declRef (Object o, const ValueDecl* d)
    {
        o["k"] = "ref"; o["d"] = id (d); o["n"] = d->getNameAsString();
        if (auto* ec = dyn_cast<EnumConstantDecl> (d)) { o["dk"] = "enum"; o["v"] = ec->getInitVal().getExtValue(); o["q"] = qname (ec); if (auto* ed = dyn_cast<EnumDecl> (ec->getDeclContext())) enumDecl (ed); return o; }
        if (auto* f = dyn_cast<FunctionDecl> (d)) { o["dk"] = "func"; fnRef (o, f); return o; }
        if (auto* p = dyn_cast<ParmVarDecl> (d)) { o["dk"] = "param"; (void) p; return o; }
        if (auto* v = dyn_cast<VarDecl> (d)) { o["dk"] = v->isLocalVarDecl() ? (v->isStaticLocal() ? "static" : "local") : "global"; if (! v->isLocalVarDecl()) o["q"] = qname (v); if (v->hasGlobalStorage()) global (v); return o; }
        o["dk"] = "other"; return o;
    }

    std::string fstr (const llvm::APFloat& f) { bool l; llvm::APFloat g = f; g.convert (llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &l); double d = g.convertToDouble(); char b[64]; snprintf (b, sizeof b, "%.17g", d); return b; }

    void constVal (Object& o, const Expr* e)
    {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        QualType t = e->getType();
        if (! (t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return;
        if (isa<IntegerLiteral> (e) || isa<FloatingLiteral> (e) || isa<CXXBoolLiteralExpr> (e)) return;
        if (e->isGLValue()) return;
        Expr::EvalResult r;
        if (! e->EvaluateAsRValue (r, C) || r.HasSideEffects) return;
        if (r.Val.isInt()) { llvm::SmallString<32> s; r.Val.getInt().toString (s, 10); o["cv"] = std::string (s.str()); }
        else if (r.Val.isFloat()) o["cv"] = fstr (r.Val.getFloat());
    }

    Object varDecl (const VarDecl* v)
    {
        Object o; o["id"] = id (v); o["n"] = v->getNameAsString(); o["t"] = type (v->getType()); o["l"] = lineOf (v->getLocation());
        if (v->hasInit()) o["init"] = expr (v->getInit());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        return o;
    }

    void global (const VarDecl* v)
    {
        v = v->getCanonicalDecl();
        if (! doneVar.insert (v).second) return;
        const VarDecl* def = v->getDefinition() ? v->getDefinition() : v;
        Object o; o["id"] = id (v); o["q"] = qname (v); o["n"] = v->getNameAsString(); o["t"] = type (v->getType()); o["file"] = norm (fileOf (v->getLocation())); o["line"] = lineOf (v->getLocation());
        o["own"] = inRoots (v->getLocation()); o["local"] = v->isStaticLocal(); o["tls"] = v->getTLSKind() != VarDecl::TLS_None; o["constexpr"] = def->isConstexpr(); o["member"] = v->isStaticDataMember();
        o["linkage"] = (int) v->getFormalLinkage(); o["inline"] = v->isInline();
        if (inRoots (v->getLocation()) && ! v->isStaticLocal() && def->hasInit() && ! def->getInit()->isTypeDependent()) o["init"] = expr (def->getInit());
        globals.push_back (std::move (o));
    }

    // ---------------------------------------------------------------- statements
    Value stmt (const Stmt* s)
    {
        if (! s) return nullptr;
        if (auto* e = dyn_cast<Expr> (s)) { Object o = node ("expr", e->getExprLoc()); o["e"] = expr (e); return o; }
        if (auto* x = dyn_cast<AttributedStmt> (s)) return stmt (x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt> (s)) return stmt (x->getSubStmt());
        Object o = node ("?", s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt> (s)) { o["k"] = "seq"; Array a; for (auto* y : x->body()) a.push_back (stmt (y)); o["b"] = std::move (a); return o; }
        if (auto* x = dyn_cast<DeclStmt> (s)) { o["k"] = "decl"; Array a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl> (d)) a.push_back (varDecl (v)); o["v"] = std::move (a); return o; }
        if (auto* x = dyn_cast<IfStmt> (s)) { o["k"] = "if"; if (x->getInit()) o["init"] = stmt (x->getInit()); if (auto* v = x->getConditionVariable()) o["var"] = varDecl (v); o["c"] = expr (x->getCond()); o["a"] = stmt (x->getThen()); o["b"] = stmt (x->getElse()); return o; }
        if (auto* x = dyn_cast<ForStmt> (s)) { o["k"] = "for"; o["init"] = stmt (x->getInit()); if (auto* v = x->getConditionVariable()) o["var"] = varDecl (v); o["c"] = expr (x->getCond()); o["inc"] = expr (x->getInc()); o["body"] = stmt (x->getBody()); return o; }
        if (auto* x = dyn_cast<WhileStmt> (s)) { o["k"] = "while"; if (auto* v = x->getConditionVariable()) o["var"] = varDecl (v); o["c"] = expr (x->getCond()); o["body"] = stmt (x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt> (s)) { o["k"] = "do"; o["c"] = expr (x->getCond()); o["body"] = stmt (x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt> (s)) { o["k"] = "rfor"; o["range"] = expr (x->getRangeInit()); o["rt"] = type (x->getRangeInit()->getType()); auto* lv = x->getLoopVariable(); Object v; v["id"] = id (lv); v["n"] = lv->getNameAsString(); v["t"] = type (lv->getType()); v["l"] = lineOf (lv->getLocation()); o["var"] = std::move (v); o["body"] = stmt (x->getBody()); return o; }
        if (auto* x = dyn_cast<SwitchStmt> (s)) { o["k"] = "switch"; if (x->getInit()) o["init"] = stmt (x->getInit()); if (auto* v = x->getConditionVariable()) o["var"] = varDecl (v); o["c"] = expr (x->getCond()); o["body"] = stmt (x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt> (s)) { o["k"] = "case"; o["v"] = expr (x->getLHS()); o["s"] = stmt (x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt> (s)) { o["k"] = "default"; o["s"] = stmt (x->getSubStmt()); return o; }
        if (isa<BreakStmt> (s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt> (s)) { o["k"] = "cont"; return o; }
        if (auto* x = dyn_cast<ReturnStmt> (s)) { o["k"] = "ret"; o["e"] = expr (x->getRetValue()); return o; }
        if (auto* x = dyn_cast<CXXTryStmt> (s))
        {
            o["k"] = "try"; o["body"] = stmt (x->getTryBlock()); Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* h = x->getHandler (i); Object c; c["l"] = lineOf (h->getBeginLoc()); if (h->getExceptionDecl()) { c["var"] = varDecl (h->getExceptionDecl()); } c["t"] = h->getExceptionDecl() ? type (h->getCaughtType()) : -1; c["body"] = stmt (h->getHandlerBlock()); a.push_back (std::move (c)); }
            o["catch"] = std::move (a); return o;
        }
        if (isa<NullStmt> (s)) { o["k"] = "nullstmt"; return o; }
        o["cls"] = s->getStmtClassName(); return o;
    }

    void function (const FunctionDecl* f)
    {
        if (f->isDependentContext()) return;
        const FunctionDecl* def = nullptr;
        if (! f->hasBody (def) || ! def) return;
        f = def;
        if (! doneFn.insert (f->getCanonicalDecl()).second) return;
        if (f->isInvalidDecl()) return;
        Object o; fnRef (o, f); o["id"] = id (f); o["file"] = norm (fileOf (f->getLocation())); o["line"] = lineOf (f->getLocation());
        o["col"] = (int) SM.getPresumedLoc (SM.getExpansionLoc (f->getLocation())).getColumn();
        o["implicit"] = f->isImplicit(); o["defaulted"] = f->isDefaulted();
        o["linkage"] = (int) f->getFormalLinkage(); o["inline"] = f->isInlined(); o["tmplspec"] = f->getTemplateSpecializationKind() != TSK_Undeclared; o["intmpl"] = f->isTemplateInstantiation();
        o["sclass"] = (int) f->getStorageClass(); o["constexpr"] = f->isConstexpr();
        Array ps; for (auto* p : f->parameters()) { Object x; x["id"] = id (p); x["n"] = p->getNameAsString(); x["t"] = type (p->getType()); if (p->hasDefaultArg() && ! p->hasUninstantiatedDefaultArg() && ! p->hasUnparsedDefaultArg()) x["def"] = expr (p->getDefaultArg()); ps.push_back (std::move (x)); }
        o["params"] = std::move (ps);
        if (auto* m = dyn_cast<CXXMethodDecl> (f)) { o["acc"] = (int) m->getAccess(); o["deleted"] = m->isDeleted(); Array ov; for (auto* om : m->overridden_methods()) ov.push_back (id (om)); o["over"] = std::move (ov); recQueue.push_back (m->getParent()); if (m->getParent()->isLambda()) o["lambda"] = true; }
        if (auto* c = dyn_cast<CXXConstructorDecl> (f))
        {
            o["kind"] = "ctor"; o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
            Array is;
            for (auto* i : c->inits())
            {
                Object x; x["l"] = lineOf (i->getSourceLocation()); x["written"] = i->isWritten();
                if (i->isBaseInitializer()) { if (auto* br = i->getBaseClass()->getAsCXXRecordDecl()) x["base"] = id (br); x["bq"] = QualType (i->getBaseClass(), 0).getAsString (PP); }
                else if (i->isDelegatingInitializer()) x["deleg"] = true;
                else if (i->getAnyMember()) { x["f"] = id (i->getAnyMember()); x["n"] = i->getAnyMember()->getNameAsString(); }
                x["indef"] = isa<CXXDefaultInitExpr> (i->getInit());
                x["e"] = expr (i->getInit()); is.push_back (std::move (x));
            }
            o["inits"] = std::move (is);
        }
        else if (isa<CXXDestructorDecl> (f)) o["kind"] = "dtor";
        else if (isa<CXXMethodDecl> (f)) o["kind"] = "method";
        else o["kind"] = "func";
        o["body"] = stmt (f->getBody());
        functions.push_back (std::move (o));
    }

    void flushRecords() { while (! recQueue.empty()) { auto q = std::move (recQueue); recQueue.clear(); for (auto* r : q) record (r); } }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Exporter& X; explicit Visitor (Exporter& x) : X (x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl (FunctionDecl* f) { if (X.inRoots (f->getLocation())) X.function (f); return true; }
    bool VisitCXXRecordDecl (CXXRecordDecl* r) { if (X.inRoots (r->getLocation()) && ! r->isDependentType()) X.recQueue.push_back (r); return true; }
    bool VisitEnumDecl (EnumDecl* e) { if (! e->isDependentContext()) X.enumDecl (e); return true; }
    bool VisitVarDecl (VarDecl* v) { if (v->hasGlobalStorage() && X.inRoots (v->getLocation()) && ! v->getDeclContext()->isDependentContext() && ! v->getType()->isDependentType()) X.global (v); return true; }
};

struct Consumer : ASTConsumer
{
    CompilerInstance& CI; explicit Consumer (CompilerInstance& ci) : CI (ci) {}
    void HandleTranslationUnit (ASTContext& C) override
    {
        Exporter X (C); Visitor V (X); V.TraverseDecl (C.getTranslationUnitDecl());
        for (int i = 0; i < 4; ++i) X.flushRecords();
        Object o; o["errors"] = (int) CI.getDiagnostics().getClient()->getNumErrors(); o["types"] = std::move (X.types); o["functions"] = std::move (X.functions); o["records"] = std::move (X.records); o["enums"] = std::move (X.enums); o["globals"] = std::move (X.globals);
        std::error_code ec; llvm::raw_fd_ostream os (outPath, ec); os << Value (std::move (o)); os << "\n";
    }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer> (CI); } };

int main (int argc, const char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: exporter ROOTS OUT -- args file\n"; return 2; }
    std::string r = argv[1]; size_t p = 0; while (p <= r.size()) { size_t q = r.find (',', p); if (q == std::string::npos) q = r.size(); if (q > p) roots.push_back (r.substr (p, q - p)); p = q + 1; }
    outPath = argv[2];
    std::vector<std::string> args { "clang++" }; for (int i = 4; i < argc; ++i) args.push_back (argv[i]);
    args.push_back ("-fsyntax-only"); args.push_back ("-resource-dir"); args.push_back ("/usr/lib/llvm-18/lib/clang/18");
    FileManager* FM = new FileManager (FileSystemOptions());
    tooling::ToolInvocation inv (args, std::make_unique<Action>(), FM);
    return inv.run() ? 0 : 1;
}
