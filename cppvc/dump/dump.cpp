// cppvc-dump: parses one translation unit with clang and writes the typed AST of every function reachable from
// the goal functions (namespace `goal`) as JSON.  It only serialises what clang's semantic analysis produced (instantiated
// templates, resolved overloads, inserted conversions); it rewrites nothing.  Bodies are written for functions whose
// source is under one of the --keep prefixes (/repo, /verif); other functions (the standard library) by name only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> g_keep;
static std::string g_out;
namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const Type *, int> tids;
  json::Array types;
  std::map<const Decl *, int> dids;
  std::map<const FunctionDecl *, int> fids;
  std::deque<const FunctionDecl *> fq;
  std::map<int, json::Object> funcs;
  std::map<const CXXRecordDecl *, int> rids;
  std::map<int, json::Object> recs;
  std::map<int, json::Object> globals;
  std::map<const VarDecl *, int> gq;
  PrintingPolicy PP;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int line(SourceLocation L) { return (int) SM.getExpansionLineNumber(L); }
  bool keep(const Decl *D) {
    std::string f = file(D->getLocation());
    for (auto &k : g_keep) if (f.compare(0, k.size(), k) == 0) return true;
    return false;
  }
  // standard-library templates whose real (libstdc++) bodies are short enough to be verified through instead of trusted
  bool stdBody(const FunctionDecl *F) {
    static const std::set<std::string> W = {"std::make_unique", "std::make_shared_never", "std::max", "std::min", "std::clamp", "std::exchange", "std::accumulate", "std::inner_product", "std::for_each", "std::all_of_never"};
    if (F->getNumParams() && F->getParamDecl(0)->getType().getAsString().find("initializer_list") != std::string::npos) return false;
    return W.count(qname(F)) > 0;
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = dids.find(D);
    if (it != dids.end()) return it->second;
    int n = dids.size() + 1;
    dids[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP; 
    D->printQualifiedName(os, P);
    os.flush();
    // drop inline namespaces of libstdc++ such as std::__cxx11
    for (const char *ns : {"std::__cxx11::", "std::_V2::", "std::filesystem::__cxx11::"}) {
      size_t p; std::string n(ns);
      while ((p = s.find(n)) != std::string::npos) s.replace(p, n.size(), n.find("filesystem") != std::string::npos ? "std::filesystem::" : "std::");
    }
    return s;
  }
  json::Array targs(const TemplateArgumentList &L) { json::Array a; for (auto &x : L.asArray()) targ(x, a); return a; }
  void targ(const TemplateArgument &x, json::Array &a) {
    switch (x.getKind()) {
      case TemplateArgument::Type: a.push_back(json::Object{{"t", ty(x.getAsType())}}); break;
      case TemplateArgument::Integral: a.push_back(json::Object{{"i", llvm::toString(x.getAsIntegral(), 10)}}); break;
      case TemplateArgument::Pack: { json::Array p; for (auto &y : x.pack_elements()) targ(y, p); a.push_back(json::Object{{"p", std::move(p)}}); break; }
      default: a.push_back(json::Object{{"o", 1}});
    }
  }
  int ty(QualType Q) {
    if (Q.isNull()) return -1;
    QualType CQ = Q.getCanonicalType();
    const Type *T = CQ.getTypePtr();
    auto it = tids.find(T);
    if (it != tids.end()) return it->second;
    int id = types.size();
    tids[T] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = CQ.getUnqualifiedType().getAsString(PP);
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isInteger()) { o["k"] = "int"; o["bits"] = (int) C.getTypeSize(T); o["signed"] = B->isSignedInteger(); }
      else if (B->isFloatingPoint()) { o["k"] = "flt"; o["bits"] = (int) C.getTypeSize(T); }
      else if (B->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
      else if (B->getKind() == BuiltinType::Void) o["k"] = "void";
      else o["k"] = "other";
    } else if (auto *P = dyn_cast<PointerType>(T)) { o["k"] = "ptr"; o["to"] = ty(P->getPointeeType()); o["cst"] = P->getPointeeType().isConstQualified(); }
    else if (auto *R = dyn_cast<ReferenceType>(T)) { o["k"] = "ref"; o["to"] = ty(R->getPointeeType()); o["rv"] = isa<RValueReferenceType>(R); o["cst"] = R->getPointeeType().isConstQualified(); }
    else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum"; auto *D = E->getDecl(); o["name"] = qname(D);
      QualType U = D->getIntegerType();
      if (!U.isNull()) o["u"] = ty(U);
      json::Array vals; for (auto *c : D->enumerators()) vals.push_back(json::Array{c->getNameAsString(), llvm::toString(c->getInitVal(), 10)});
      o["vals"] = std::move(vals);
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) { o["k"] = "arr"; o["n"] = (int64_t) A->getSize().getZExtValue(); o["to"] = ty(A->getElementType()); }
    else if (isa<FunctionProtoType>(T)) { o["k"] = "fn"; }
    else if (auto *R = dyn_cast<RecordType>(T)) {
      auto *D = dyn_cast<CXXRecordDecl>(R->getDecl());
      o["k"] = "rec";
      if (D) {
        o["name"] = qname(D);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) o["targs"] = targs(S->getTemplateArgs());
        types[id] = json::Value(json::Object(o));
        o["rec"] = rec(D);
      }
    } else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }
  int rec(const CXXRecordDecl *D) {
    if (D->getDefinition()) D = D->getDefinition();
    auto it = rids.find(D);
    if (it != rids.end()) return it->second;
    int id = rids.size() + 1;
    rids[D] = id;
    json::Object o;
    o["name"] = qname(D);
    o["id"] = id;
    o["t"] = ty(QualType(D->getTypeForDecl(), 0));
    bool kp = keep(D) || D->isLambda();
    o["keep"] = kp;
    o["def"] = D->hasDefinition();
    if (D->isLambda()) {
      o["lambda"] = true;
      json::Array caps;
      for (auto &c : D->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { co["d"] = did(c.getCapturedVar()); co["name"] = c.getCapturedVar()->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["init"] = c.getCapturedVar()->isInitCapture(); }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
    }
    if (D->hasDefinition()) {
      json::Array bases;
      for (auto &b : D->bases()) bases.push_back(ty(b.getType()));
      o["bases"] = std::move(bases);
      if (kp) {
        json::Array fs;
        for (auto *f : D->fields()) fs.push_back(json::Object{{"name", f->getNameAsString()}, {"t", ty(f->getType())}, {"mut", f->isMutable()}});
        o["fields"] = std::move(fs);
        json::Array vm;
        for (auto *m : D->methods()) {
          if (m->isVirtual() && !isa<CXXDestructorDecl>(m)) {
            json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(fid(b));
            vm.push_back(json::Object{{"fn", fid(m)}, {"over", std::move(ov)}});
          }
          if (m->isUserProvided() && (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()))
            o[m->isCopyAssignmentOperator() ? "copyassign" : "moveassign"] = fid(m);
        }
        o["virt"] = std::move(vm);
        for (auto *c : D->ctors()) if (c->isUserProvided() && !c->isDeleted()) { if (c->isCopyConstructor()) o["copyctor"] = fid(c); if (c->isMoveConstructor()) o["movector"] = fid(c); }
        if (auto *d = D->getDestructor()) if (d->isUserProvided()) o["dtor"] = fid(d);
        o["poly"] = D->isPolymorphic();
        o["triv"] = D->isTriviallyCopyable();
      }
    }
    recs[id] = std::move(o);
    return id;
  }
  int fid(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def) F = Def; else F = F->getCanonicalDecl();
    auto it = fids.find(F);
    if (it != fids.end()) return it->second;
    int id = fids.size() + 1;
    fids[F] = id;
    fq.push_back(F);
    return id;
  }
  void dumpFn(const FunctionDecl *F) {
    int id = fids[F];
    json::Object o;
    o["id"] = id; o["name"] = F->getNameAsString(); o["qname"] = qname(F);
    o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    o["keep"] = keep(F);
    o["ret"] = ty(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) o["targs"] = targs(*TA);
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(json::Object{{"d", did(p)}, {"name", p->getNameAsString()}, {"t", ty(p->getType())}});
    o["params"] = std::move(ps);
    o["overop"] = F->getOverloadedOperator() == OO_None ? "" : getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = rec(M->getParent());
      o["static"] = M->isStatic(); o["virtual"] = M->isVirtual(); o["pure"] = M->isPureVirtual(); o["const"] = M->isConst();
      if (M->isVirtual()) { json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fid(b)); o["over"] = std::move(ov); }
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(F)) o["conv"] = true;
      o["assign"] = M->isCopyAssignmentOperator() ? "copy" : M->isMoveAssignmentOperator() ? "move" : "";
      o["defaulted"] = M->isDefaulted();
      o["implicit"] = M->isImplicit();
      o["lambda"] = M->getParent()->isLambda();
    }
    bool kp = keep(F) || stdBody(F);
    if (kp && F->hasBody() && !F->isDependentContext()) {
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
        json::Array in;
        for (auto *I : K->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer()) io["f"] = I->getAnyMember()->getNameAsString();
          else if (I->isBaseInitializer()) io["b"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) io["dg"] = true;
          io["e"] = ex(I->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = st(F->getBody());
    }
    funcs[id] = std::move(o);
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto v = ex(E); return json::Object{{"k", "expr"}, {"e", std::move(v)}, {"l", line(S->getBeginLoc())}}; }
    json::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "blk"; json::Array a; for (auto *s : X->body()) a.push_back(st(s)); o["b"] = std::move(a); o["le"] = line(S->getEndLoc()); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; json::Array a; for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; if (X->getInit()) o["i"] = st(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["cx"] = X->isConstexpr();
      o["c"] = ex(X->getCond()); o["a"] = st(X->getThen()); o["b"] = st(X->getElse());
      if (X->isConstexpr()) { bool r = false; if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsBooleanCondition(r, C)) o["cxv"] = r; }
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["i"] = st(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = X->getCond() ? ex(X->getCond()) : json::Value(nullptr); o["inc"] = X->getInc() ? ex(X->getInc()) : json::Value(nullptr); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "frange"; o["i"] = st(X->getInit()); o["range"] = st(X->getRangeStmt()); o["begin"] = st(X->getBeginStmt()); o["end"] = st(X->getEndStmt());
      o["c"] = ex(X->getCond()); o["inc"] = ex(X->getInc()); o["lv"] = st(X->getLoopVarStmt()); o["b"] = st(X->getBody());
    }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = X->getRetValue() ? ex(X->getRetValue()) : json::Value(nullptr); }
    else if (isa<BreakStmt>(S)) o["k"] = "brk";
    else if (isa<ContinueStmt>(S)) o["k"] = "cont";
    else if (isa<NullStmt>(S)) o["k"] = "nop";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; if (X->getInit()) o["i"] = st(X->getInit()); o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["c"] = ex(X->getLHS()); o["b"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = st(X->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) { auto *H = X->getHandler(i); json::Object h; if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl()); h["b"] = st(H->getHandlerBlock()); hs.push_back(std::move(h)); }
      o["h"] = std::move(hs);
    }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    else { o["k"] = "unsup"; o["cls"] = S->getStmtClassName(); }
    return o;
  }
  json::Value var(const VarDecl *V) {
    json::Object o{{"d", did(V)}, {"name", V->getNameAsString()}, {"t", ty(V->getType())}};
    o["cst"] = V->getType().isConstQualified();
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["e"] = ex(V->getInit());
    o["l"] = line(V->getLocation());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs; for (auto *b : DD->bindings()) { json::Object bo{{"d", did(b)}, {"name", b->getNameAsString()}}; if (b->getHoldingVar()) bo["hv"] = var(b->getHoldingVar()); if (b->getBinding()) bo["e"] = ex(b->getBinding()); bs.push_back(std::move(bo)); }
      o["binds"] = std::move(bs);
    }
    return o;
  }
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    // strip wrappers that carry no semantics for the engine
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else break;
    }
    json::Object o;
    o["t"] = ty(E->getType());
    if (E->isLValue()) o["vc"] = "l"; else if (E->isXValue()) o["vc"] = "x";
    o["l"] = line(E->getExprLoc());
    auto args = [&](auto *X, unsigned from = 0) { json::Array a; for (unsigned i = from; i < X->getNumArgs(); i++) a.push_back(ex(X->getArg(i))); return a; };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = llvm::toString(X->getValue(), 10, false); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string(X->getValue()); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; llvm::APFloat f = X->getValue(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", f.convertToDouble()); o["v"] = std::string(b); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; o["v"] = json::fixUTF8(X->getBytes()); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) o["k"] = "null";
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; o["v"] = llvm::toString(ec->getInitVal(), 10); }
      else if (auto *f = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["fn"] = fid(f); }
      else {
        o["k"] = "ref"; o["d"] = did(D); o["name"] = D->getNameAsString();
        if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        if (auto *v = dyn_cast<VarDecl>(D)) if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["glob"] = true; global(v); }
      }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      o["k"] = "mem"; o["b"] = ex(X->getBase()); o["arrow"] = X->isArrow();
      auto *D = X->getMemberDecl();
      if (auto *f = dyn_cast<FunctionDecl>(D)) { o["fn"] = fid(f); }
      else if (auto *fd = dyn_cast<FieldDecl>(D)) { o["f"] = fd->getNameAsString(); o["own"] = rec(cast<CXXRecordDecl>(fd->getParent())); }
      else if (auto *v = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["d"] = did(v); o["glob"] = true; o["name"] = v->getNameAsString(); global(v); }
    }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      auto ck = X->getCastKind();
      if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) {
        if (ck != CK_NoOp || true) return ex(X->getSubExpr());
      }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = ex(X->getSubExpr());
      if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase || ck == CK_BaseToDerived) {
        json::Array p; for (auto *b : X->path()) p.push_back(ty(b->getType())); o["path"] = std::move(p);
      }
    }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "cas"; o["op"] = X->getOpcodeStr().str(); o["a"] = ex(X->getLHS()); o["b"] = ex(X->getRHS()); o["ct"] = ty(X->getComputationLHSType()); o["cr"] = ty(X->getComputationResultType()); }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = ex(X->getLHS()); o["b"] = ex(X->getRHS()); }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["e"] = ex(X->getSubExpr()); }
    else if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = ex(X->getCond()); o["a"] = ex(X->getTrueExpr()); o["b"] = ex(X->getFalseExpr()); }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall"; auto *M = X->getMethodDecl();
      if (M) { o["fn"] = fid(M); bool v = M->isVirtual();
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) v = false; o["arrow"] = ME->isArrow(); }
        o["virt"] = v; }
      o["obj"] = ex(X->getImplicitObjectArgument()); o["objptr"] = X->getImplicitObjectArgument()->getType()->isPointerType();
      o["args"] = args(X);
    }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "ocall"; o["op"] = getOperatorSpelling(X->getOperator()); o["na"] = (int) X->getNumArgs();
      if (auto *F = X->getDirectCallee()) { o["fn"] = fid(F); auto *M = dyn_cast<CXXMethodDecl>(F); o["mem"] = M && !M->isStatic(); }
      o["args"] = args(X);
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) o["fn"] = fid(F); else o["ce"] = ex(X->getCallee());
      o["args"] = args(X);
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) { o["k"] = "ctor"; o["fn"] = fid(X->getConstructor()); o["args"] = args(X); o["zi"] = X->requiresZeroInitialization(); o["ilist"] = X->isStdInitListInitialization(); }
    else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isTransparent() && X->getNumInits() == 1) return ex(X->getInit(0));
      o["k"] = "ilist"; json::Array a; for (auto *i : X->inits()) a.push_back(ex(i)); o["a"] = std::move(a); if (X->hasArrayFiller()) o["filler"] = ex(X->getArrayFiller());
    }
    else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "stdil"; o["e"] = ex(X->getSubExpr()); }
    else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"] = "mat"; o["e"] = ex(X->getSubExpr()); }
    else if (isa<CXXThisExpr>(E)) o["k"] = "this";
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["rec"] = rec(X->getLambdaClass()); 
      if (X->getCallOperator() && !X->isGenericLambda()) o["fn"] = fid(X->getCallOperator());
      json::Array a; for (auto it = X->capture_init_begin(); it != X->capture_init_end(); ++it) a.push_back(ex(*it)); o["ci"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["at"] = ty(X->getAllocatedType()); if (X->hasInitializer()) o["e"] = ex(X->getInitializer()); else if (X->getConstructExpr()) o["e"] = ex(X->getConstructExpr()); if (X->isArray()) o["arr"] = true; }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["e"] = ex(X->getArgument()); o["arr"] = X->isArrayForm(); }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = X->getSubExpr() ? ex(X->getSubExpr()) : json::Value(nullptr); }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = ex(X->getBase()); o["b"] = ex(X->getIdx()); }
    else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { o["k"] = "dinit"; o["e"] = ex(X->getExpr()); }
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) o["k"] = "zero";
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "inhctor"; o["fn"] = fid(X->getConstructor()); }
    else {
      Expr::EvalResult r;
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(r, C)) { o["k"] = "int"; o["v"] = llvm::toString(r.Val.getInt(), 10); }
      else { o["k"] = "unsup"; o["cls"] = E->getStmtClassName(); }
    }
    return o;
  }
  void global(const VarDecl *V) {
    int d = did(V);
    if (globals.count(d)) return;
    globals[d] = json::Object{};
    json::Object o{{"name", qname(V)}, {"t", ty(V->getType())}, {"cst", V->getType().isConstQualified()}};
    const VarDecl *Def = nullptr;
    const Expr *I = V->getAnyInitializer(Def);
    if (I && !I->isValueDependent()) {
      Expr::EvalResult r;
      if (V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(r, C)) o["iv"] = llvm::toString(r.Val.getInt(), 10);
      else if (V->getType()->isFloatingType() && I->EvaluateAsRValue(r, C) && r.Val.isFloat()) { llvm::APFloat f = r.Val.getFloat(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", f.convertToDouble()); o["fv"] = std::string(b); }
      else o["e"] = ex(I);
    }
    globals[d] = std::move(o);
  }
  void roots(const DeclContext *DC, bool ingoal) {
    for (auto *D : DC->decls()) {
      if (auto *N = dyn_cast<NamespaceDecl>(D)) { roots(N, ingoal || N->getName() == "goal"); }
      else if (auto *L = dyn_cast<LinkageSpecDecl>(D)) roots(L, ingoal);
      else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        auto *N = dyn_cast<NamespaceDecl>(F->getDeclContext());
        if ((ingoal || (N && N->getName() == "goal")) && !F->isTemplated() && F->isThisDeclarationADefinition()) fid(F);
      }
    }
  }
  void run() {
    roots(C.getTranslationUnitDecl(), false);
    while (!fq.empty()) { auto *F = fq.front(); fq.pop_front(); dumpFn(F); }
    json::Object out;
    out["types"] = std::move(types);
    json::Object fo; for (auto &p : funcs) fo[std::to_string(p.first)] = std::move(p.second); out["funcs"] = std::move(fo);
    json::Object ro; for (auto &p : recs) ro[std::to_string(p.first)] = std::move(p.second); out["recs"] = std::move(ro);
    json::Object go; for (auto &p : globals) go[std::to_string(p.first)] = std::move(p.second); out["globals"] = std::move(go);
    std::error_code ec; llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(out)) << "\n";
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Dumper d(C); d.run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
}
int main(int argc, char **argv) {
  // cppvc-dump OUT.json FILE.cpp --keep P ... -- clang flags
  g_out = argv[1]; std::string src = argv[2]; std::vector<std::string> flags; int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) if (std::string(argv[i]) == "--keep") g_keep.push_back(argv[++i]);
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
