// Mechanical extraction: dumps the (type-checked, template-instantiated) clang AST of every function
// defined under the given root as JSON.  Nothing is rewritten; constructs without an encoding become
// {"k":"Unsupported"} nodes, which the verifier reports as out of reach.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    std::map<const Type*, int> typeIds[2];
    json::Array types;
    std::map<const Decl*, int> declIds;
    std::map<const FunctionDecl*, std::string> fids;
    std::set<std::string> usedFids;
    json::Array functions;
    json::Array records;
    std::set<const Decl*> doneRec, doneFn;
    std::map<const VarDecl*, int> globals;
    json::Array globalArr;
    std::vector<const CXXRecordDecl*> recQueue;
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

    int did(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int n = declIds.size() + 1;
        declIds[d] = n;
        return n;
    }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        auto f = SM.getFilename(SM.getExpansionLoc(l)).str();
        llvm::SmallString<256> p(f);
        std::string s = p.str().str();
        // resolve "a/../b" is not needed: paths are absolute
        if (s.find("/_build/") != std::string::npos) return false;
        if (s.find("/external/") != std::string::npos) return false;
        return s.rfind(Root, 0) == 0;
    }
    std::string fid(const FunctionDecl* f) {
        f = f->getCanonicalDecl();
        auto it = fids.find(f);
        if (it != fids.end()) return it->second;
        std::string s;
        llvm::raw_string_ostream os(s);
        f->printQualifiedName(os);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            s.clear();
            if (auto* lf = m->getParent()->isLocalClass()) if (!m->getParent()->isLambda()) os << fid(lf) << "::";
            C.getTypeDeclType(m->getParent()).getCanonicalType().print(os, C.getPrintingPolicy());
            os << "::" << f->getNameAsString();
        }
        os << "(";
        for (auto* p : f->parameters()) os << p->getType().getCanonicalType().getAsString() << ",";
        os << ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) os << "const";
        os.flush();
        // lambdas / local classes may collide: make unique
        std::string base = s; int n = 1;
        while (usedFids.count(s)) s = base + "#" + std::to_string(++n);
        usedFids.insert(s);
        fids[f] = s;
        return s;
    }
    static std::string simpleName(const NamedDecl* d) {
        return d->getQualifiedNameAsString();
    }
    int ty(QualType q) {
        q = q.getCanonicalType();
        bool cst = q.isConstQualified();
        const Type* t = q.getTypePtr();
        auto& m = typeIds[cst];
        auto it = m.find(t);
        if (it != m.end()) return it->second;
        int id = types.size();
        m[t] = id;
        types.push_back(nullptr);
        json::Object o;
        if (cst) o["c"] = true;
        if (auto* b = dyn_cast<BuiltinType>(t)) {
            if (b->isFloatingPoint()) o["k"] = "real";
            else if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (b->isInteger()) { o["k"] = "int"; o["s"] = b->isSignedInteger(); o["w"] = (int)C.getTypeSize(t); }
            else o["k"] = "other";
            o["n"] = b->getName(C.getPrintingPolicy()).str();
        } else if (auto* e = dyn_cast<EnumType>(t)) {
            o["k"] = "int"; o["s"] = true; o["w"] = 32; o["n"] = simpleName(e->getDecl());
        } else if (auto* p = dyn_cast<PointerType>(t)) {
            o["k"] = "ptr"; o["to"] = ty(p->getPointeeType());
        } else if (auto* p = dyn_cast<LValueReferenceType>(t)) {
            o["k"] = "ref"; o["to"] = ty(p->getPointeeType());
        } else if (auto* p = dyn_cast<RValueReferenceType>(t)) {
            o["k"] = "ref"; o["rv"] = true; o["to"] = ty(p->getPointeeType());
        } else if (auto* r = dyn_cast<RecordType>(t)) {
            o["k"] = "rec";
            auto* rd = r->getDecl();
            std::string n = simpleName(rd);
            if (auto* lc = dyn_cast<CXXRecordDecl>(rd)) if (auto* lf = lc->isLocalClass()) n = fid(lf) + "::" + n;
            o["n"] = n;
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                bool eigenExpr = n.rfind("Eigen::", 0) == 0 && n != "Eigen::Matrix" && n != "Eigen::Array" &&
                                 n != "Eigen::Quaternion" && n != "Eigen::AngleAxis" && n != "Eigen::Rotation2D" &&
                                 n != "Eigen::DiagonalMatrix" && n != "Eigen::JacobiSVD" && n != "Eigen::Map" &&
                                 n != "Eigen::Block" && n != "Eigen::VectorBlock";
                if (!eigenExpr) {
                    json::Array a;
                    for (auto& arg : sp->getTemplateArgs().asArray()) {
                        if (arg.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"t", ty(arg.getAsType())}});
                        else if (arg.getKind() == TemplateArgument::Integral) a.push_back((int64_t)arg.getAsIntegral().getExtValue());
                        else a.push_back(nullptr);
                    }
                    o["a"] = std::move(a);
                }
            }
            if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
                if (cr->isLambda()) o["lambda"] = true;
                if (inRoot(cr->getLocation()) && cr->getDefinition()) { o["r"] = did(cr->getDefinition()); recQueue.push_back(cr->getDefinition()); }
            }
        } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "arr"; o["to"] = ty(a->getElementType()); o["len"] = (int64_t)a->getSize().getZExtValue();
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            o["k"] = "arr"; o["to"] = ty(a->getElementType());
            if (auto* v = dyn_cast<VariableArrayType>(a)) if (v->getSizeExpr()) { vlaSize[id] = v->getSizeExpr(); }
        } else {
            o["k"] = "other"; o["n"] = q.getAsString().substr(0, 200);
        }
        types[id] = std::move(o);
        return id;
    }
    std::map<int, const Expr*> vlaSize;

    void dumpRecord(const CXXRecordDecl* rd) {
        if (!doneRec.insert(rd).second) return;
        json::Object o;
        o["id"] = did(rd);
        o["n"] = simpleName(rd);
        o["t"] = ty(C.getTypeDeclType(rd));
        json::Array fs, bs;
        for (auto* f : rd->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"id", did(f)}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        if (rd->getDefinition()) for (auto& b : rd->bases()) bs.push_back(ty(b.getType()));
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bs);
        records.push_back(std::move(o));
    }

    json::Object node(const char* k, const Stmt* s) {
        json::Object o{{"k", k}};
        o["l"] = (int)SM.getExpansionLineNumber(s->getBeginLoc());
        return o;
    }
    json::Value callee(const FunctionDecl* f) {
        json::Object o;
        o["q"] = simpleName(f);
        o["n"] = f->getNameAsString();
        o["fid"] = fid(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = simpleName(m->getParent());
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
            if (m->getParent()->isLambda()) o["lambda"] = true;
        }
        const FunctionDecl* def = f;
        bool body = f->hasBody(def) ;
        if (body && inRoot(def->getLocation())) { o["repo"] = true; }
        else if (inRoot(f->getLocation())) o["repo"] = true;
        json::Array pt;
        for (auto* p : f->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto& arg : ta->asArray()) {
                if (arg.getKind() == TemplateArgument::Integral) a.push_back((int64_t)arg.getAsIntegral().getExtValue());
                else if (arg.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"t", ty(arg.getAsType())}});
                else a.push_back(nullptr);
            }
            o["ta"] = std::move(a);
        }
        return o;
    }
    json::Value varDecl(const VarDecl* v) {
        json::Object o{{"id", did(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}};
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto* vt = C.getAsVariableArrayType(v->getType())) if (vt->getSizeExpr()) o["vla"] = expr(vt->getSizeExpr());
        return o;
    }
    void needGlobal(const VarDecl* v) {
        v = v->getCanonicalDecl();
        if (!globals.emplace(v, 1).second) return;
        const VarDecl* def = nullptr;
        const Expr* init = v->getAnyInitializer(def);
        json::Object o{{"id", did(v)}, {"n", simpleName(v)}, {"t", ty(v->getType())}, {"const", v->getType().isConstQualified()}};
        if (init && inRoot(v->getLocation())) o["init"] = expr(init);
        globalArr.push_back(std::move(o));
    }
    json::Value args(const CallExpr* c) {
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(expr(x));
        return a;
    }
    json::Value lambda(const LambdaExpr* l) {
        auto o = node("Lambda", l);
        json::Array caps;
        auto initIt = l->capture_init_begin();
        for (auto& c : l->captures()) {
            json::Object co;
            if (c.capturesThis()) co["this"] = true;
            else if (c.capturesVariable()) {
                co["var"] = did(c.getCapturedVar());
                co["n"] = c.getCapturedVar()->getNameAsString();
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (*initIt && c.getCaptureKind() != LCK_ByRef) co["init"] = expr(*initIt);
                if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) { co["initcap"] = true; if (vd->getInit()) co["init"] = expr(vd->getInit()); }
            }
            caps.push_back(std::move(co));
            ++initIt;
        }
        o["caps"] = std::move(caps);
        auto* m = l->getCallOperator();
        o["fn"] = fid(m);
        json::Array ps;
        for (auto* p : m->parameters()) ps.push_back(json::Object{{"id", did(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["params"] = std::move(ps);
        o["generic"] = l->isGenericLambda();
        o["ret"] = ty(m->getReturnType());
        if (!l->isGenericLambda()) o["body"] = stmt(l->getBody());
        return o;
    }
    json::Value expr(const Expr* e) {
        if (!e) return nullptr;
        // transparent wrappers
        if (auto* p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
        if (auto* p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
        if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) return expr(p->getExpr());
        if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { auto o = node("StdInit", e); o["t"] = ty(e->getType()); o["e"] = expr(p->getSubExpr()); return o; }
        auto fin = [&](json::Object o) -> json::Value {
            o["t"] = ty(e->getType());
            if (e->isLValue()) o["lv"] = true;
            return o;
        };
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            auto o = node("Int", e);
            llvm::SmallString<40> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = s.str().str(); return fin(std::move(o));
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            auto o = node("Real", e);
            llvm::SmallString<64> s; x->getValue().toString(s, 0, 0, false);
            double d = x->getValue().convertToDouble();
            char buf[64]; snprintf(buf, sizeof buf, "%.17g", d);
            o["v"] = std::string(buf);
            // source spelling, to recover the decimal the author wrote
            o["src"] = std::string(s.str());
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = node("Bool", e); o["v"] = x->getValue(); return fin(std::move(o)); }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { auto o = node("Int", e); o["v"] = std::to_string(x->getValue()); return fin(std::move(o)); }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) { auto o = node("Str", e); o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : ""; return fin(std::move(o)); }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return fin(node("Null", e));
        if (isa<CXXThisExpr>(e)) return fin(node("This", e));
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                auto o = node("Int", e); llvm::SmallString<40> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["enum"] = simpleName(ec); return fin(std::move(o));
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) { auto o = node("FnRef", e); o["fn"] = callee(f); return fin(std::move(o)); }
            auto o = node("Var", e);
            o["id"] = did(d); o["n"] = d->getNameAsString();
            if (auto* v = dyn_cast<VarDecl>(d)) if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["g"] = true; o["q"] = simpleName(v); needGlobal(v); }
            if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto o = node("Member", e);
            o["n"] = x->getMemberDecl()->getNameAsString();
            o["arrow"] = x->isArrow();
            o["b"] = expr(x->getBase());
            if (auto* f = dyn_cast<FunctionDecl>(x->getMemberDecl())) o["fn"] = callee(f);
            if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["svar"] = did(v); needGlobal(v); }
            if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["fcls"] = simpleName(fd->getParent());
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            auto o = node(isa<CompoundAssignOperator>(e) ? "CAssign" : "Bin", e);
            o["op"] = x->getOpcodeStr().str();
            if (auto* ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = ty(ca->getComputationLHSType());
            o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            auto o = node("Un", e);
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = expr(x->getSubExpr());
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            auto o = node("Cond", e); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return fin(std::move(o));
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            auto o = node("Sub", e); o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto o = node("OpCall", e);
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee()) o["fn"] = callee(f);
            o["args"] = args(x);
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto o = node("MCall", e);
            if (auto* f = x->getMethodDecl()) o["fn"] = callee(f);
            o["obj"] = expr(x->getImplicitObjectArgument());
            bool arrow = false, qual = false;
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { arrow = me->isArrow(); qual = me->hasQualifier(); }
            o["arrow"] = arrow;
            if (qual) o["qual"] = true;   // statically bound
            o["args"] = args(x);
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            auto o = node("Call", e);
            if (auto* f = x->getDirectCallee()) o["fn"] = callee(f);
            else o["ce"] = expr(x->getCallee());
            o["args"] = args(x);
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { (void)x; auto o = node("Unsupported", e); o["cls"] = "InheritedCtor"; return fin(std::move(o)); }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto o = node("Construct", e);
            o["fn"] = callee(x->getConstructor());
            json::Array a;
            for (auto* y : x->arguments()) a.push_back(expr(y));
            o["args"] = std::move(a);
            o["copy"] = x->getConstructor()->isCopyOrMoveConstructor();
            o["list"] = x->isListInitialization();
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            auto o = node("Cast", e);
            o["ck"] = x->getCastKindName();
            o["e"] = expr(x->getSubExpr());
            return fin(std::move(o));
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            auto o = node("InitList", e);
            json::Array a;
            for (auto* y : x->inits()) a.push_back(expr(y));
            o["args"] = std::move(a);
            if (x->hasArrayFiller()) o["filler"] = expr(x->getArrayFiller());
            return fin(std::move(o));
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return fin(node("ZeroInit", e));
        if (auto* x = dyn_cast<LambdaExpr>(e)) { auto v = lambda(x); auto* oo = v.getAsObject(); (*oo)["t"] = ty(e->getType()); return v; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            auto o = node("New", e); o["of"] = ty(x->getAllocatedType()); if (x->getInitializer()) o["e"] = expr(x->getInitializer()); return fin(std::move(o));
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { auto o = node("Throw", e); o["e"] = expr(x->getSubExpr()); return fin(std::move(o)); }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) { auto o = node("Int", e); llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return fin(std::move(o)); }
        }
        auto o = node("Unsupported", e);
        o["cls"] = e->getStmtClassName();
        return fin(std::move(o));
    }
    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) { auto o = node("Expr", s); o["e"] = expr(e); return o; }
        if (auto* c = dyn_cast<CompoundStmt>(s)) {
            auto o = node("Block", s); json::Array a; for (auto* x : c->body()) a.push_back(stmt(x)); o["s"] = std::move(a); return o;
        }
        if (auto* d = dyn_cast<DeclStmt>(s)) {
            auto o = node("Decl", s); json::Array a;
            for (auto* x : d->decls()) {
                if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
                else if (isa<TypeDecl>(x) || isa<UsingDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<StaticAssertDecl>(x) || isa<NamespaceAliasDecl>(x)) continue;
                else a.push_back(json::Object{{"unsupported", x->getDeclKindName()}});
            }
            o["d"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            auto o = node("If", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse());
            if (x->isConstexpr()) o["constexpr"] = true;
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            auto o = node("For", s); if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["unsupported"] = true;
            if (x->getCond()) o["c"] = expr(x->getCond()); if (x->getInc()) o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) { auto o = node("While", s); if (x->getConditionVariable()) o["unsupported"] = true; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { auto o = node("Do", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            auto o = node("ForRange", s);
            auto* lv = x->getLoopVariable();
            o["var"] = json::Object{{"id", did(lv)}, {"n", lv->getNameAsString()}, {"t", ty(lv->getType())}};
            if (isa<DecompositionDecl>(lv)) o["unsupported"] = true;
            o["r"] = expr(x->getRangeInit());
            o["rt"] = ty(x->getRangeInit()->getType());
            o["b"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { auto o = node("Return", s); if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) return node("Break", s);
        if (isa<ContinueStmt>(s)) return node("Continue", s);
        if (isa<NullStmt>(s)) return node("Nop", s);
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            auto o = node("Try", s); o["b"] = stmt(x->getTryBlock()); json::Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* c = x->getHandler(i); json::Object ho;
                if (c->getExceptionDecl()) ho["t"] = ty(c->getExceptionDecl()->getType());
                ho["b"] = stmt(c->getHandlerBlock()); h.push_back(std::move(ho));
            }
            o["h"] = std::move(h); return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { auto o = node("Switch", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) { auto o = node("Case", s); o["v"] = expr(x->getLHS()); o["b"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { auto o = node("Default", s); o["b"] = stmt(x->getSubStmt()); return o; }
        auto o = node("Unsupported", s);
        o["cls"] = s->getStmtClassName();
        return o;
    }
    void dumpFunction(const FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) {
            return;
        }
        if (f->isDependentContext() || f->isDefaulted() || f->isDeleted()) return;
        if (!inRoot(f->getLocation())) return;
        if (!doneFn.insert(f).second) return;
        json::Object o;
        o["q"] = simpleName(f); o["n"] = f->getNameAsString(); o["fid"] = fid(f);
        o["file"] = SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
        o["line"] = (int)SM.getExpansionLineNumber(f->getBeginLoc());
        o["endline"] = (int)SM.getExpansionLineNumber(f->getEndLoc());
        o["ret"] = ty(f->getReturnType());
        json::Array ps;
        for (auto* p : f->parameters()) ps.push_back(json::Object{{"id", did(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = simpleName(m->getParent()); o["clst"] = ty(C.getTypeDeclType(m->getParent()));
            o["static"] = m->isStatic(); o["const"] = m->isConst(); o["virtual"] = m->isVirtual();
            dumpRecord(m->getParent());
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
            o["over"] = std::move(ov);
            if (m->getParent()->isLambda()) o["lambda"] = true;
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            json::Array in;
            for (auto* i : c->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                io["w"] = i->isWritten();
                io["e"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(f->getBody());
        functions.push_back(std::move(o));
    }
    void finish(llvm::raw_ostream& os) {
        // records discovered through types
        for (size_t i = 0; i < recQueue.size(); ++i) dumpRecord(recQueue[i]);
        json::Object o;
        o["functions"] = std::move(functions);
        o["records"] = std::move(records);
        o["types"] = std::move(types);
        o["globals"] = std::move(globalArr);
        os << json::Value(std::move(o)) << "\n";
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl* d) {
        // skip everything outside the root quickly
        if (d && isa<NamespaceDecl>(d) == false && !isa<TranslationUnitDecl>(d) && d->getLocation().isValid() &&
            !D.inRoot(d->getLocation()) && !isa<LinkageSpecDecl>(d))
            return true;
        return RecursiveASTVisitor::TraverseDecl(d);
    }
    bool VisitFunctionDecl(FunctionDecl* f) { D.dumpFunction(f); return true; }
};
static std::string OutPath;
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        D.finish(os);
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char** argv) {
    // dump ROOT OUT SOURCE -- flags...
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    Root = argv[1]; OutPath = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    clang::tooling::FixedCompilationDatabase DB(".", flags);
    clang::tooling::ClangTool T(DB, {src});
    return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
