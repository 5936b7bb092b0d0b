// AST exporter: parses one driver translation unit with Clang 18 and writes, as JSON, the typed
// syntax trees of every non-dependent function whose body lies in /repo (template instantiations
// included).  Nothing is rewritten: the trees are the ones the compiler generates code from.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include <cstdio>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using std::string;

static std::vector<string> gPrefixes;
static FILE* gOut;

static string esc(llvm::StringRef s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static string num(long long v) { return std::to_string(v); }

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::vector<string> types; std::map<const void*, int> typeIdx;
  std::map<const FunctionDecl*, int> fnIdx; std::vector<const FunctionDecl*> fns;
  std::map<const Decl*, int> varIdx; std::map<int, const VarDecl*> globals; std::deque<const VarDecl*> globalQ;
  std::map<const CXXRecordDecl*, int> recIdx; std::deque<const CXXRecordDecl*> recQ;
  std::map<string, string> recOut;
  int nvar = 0;
  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.SuppressInlineNamespace = true;
  }
  string qname(const NamedDecl* d) {
    string r = d->getNameAsString();
    if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) r = "(ctor)";
    if (isa<CXXDestructorDecl>(d)) r = "(dtor)";
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto* nd = dyn_cast<NamespaceDecl>(dc)) {
        if (!nd->isAnonymousNamespace() && !nd->isInlineNamespace()) r = nd->getNameAsString() + "::" + r;
      } else if (auto* rd = dyn_cast<RecordDecl>(dc)) {
        string n = rd->getNameAsString();
        if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) if (cr->isLambda()) n = "(lambda)";
        r = n + "::" + r;
      } else if (auto* fd = dyn_cast<FunctionDecl>(dc)) {
        r = fd->getNameAsString() + "::" + r;
      }
      dc = dc->getParent();
    }
    return r;
  }
  string fileOf(SourceLocation l) {
    l = SM.getFileLoc(l);
    return SM.getFilename(l).str();
  }
  unsigned lineOf(SourceLocation l) { return SM.getSpellingLineNumber(SM.getFileLoc(l)); }
  bool inRepo(const Decl* d) {
    string f = fileOf(d->getLocation());
    for (auto& p : gPrefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  string targs(llvm::ArrayRef<TemplateArgument> as) {
    string r = "[";
    bool first = true;
    std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument& a) {
      if (a.getKind() == TemplateArgument::Pack) { for (auto& b : a.pack_elements()) one(b); return; }
      if (!first) r += ","; first = false;
      switch (a.getKind()) {
        case TemplateArgument::Type: r += "{\"t\":" + num(T(a.getAsType())) + "}"; break;
        case TemplateArgument::Integral: r += "{\"i\":" + esc(llvm::toString(a.getAsIntegral(), 10)) + "}"; break;
        default: r += "{\"o\":1}";
      }
    };
    for (auto& a : as) one(a);
    return r + "]";
  }
  string recName(const CXXRecordDecl* r) {
    if (r->isLambda()) return "(lambda)#" + num(recId(r));
    return QualType(C.getTypeDeclType(r)).getCanonicalType().getAsString(PP);
  }
  int recId(const CXXRecordDecl* r) {
    r = r->getCanonicalDecl();
    auto it = recIdx.find(r);
    if (it != recIdx.end()) return it->second;
    int id = recIdx.size(); recIdx[r] = id; recQ.push_back(r); return id;
  }
  int T(QualType q) {
    q = q.getCanonicalType().getUnqualifiedType();
    const void* key = q.getAsOpaquePtr();
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int id = types.size(); typeIdx[key] = id; types.push_back("");
    string s;
    const Type* t = q.getTypePtr();
    if (q->isBooleanType()) s = "{\"k\":\"bool\"}";
    else if (auto* et = dyn_cast<EnumType>(t)) {
      QualType it2 = et->getDecl()->getIntegerType();
      s = "{\"k\":\"int\",\"w\":" + num(it2.isNull() ? 32 : C.getTypeSize(it2)) + ",\"s\":" + num(it2.isNull() ? 0 : it2->isSignedIntegerType()) + ",\"en\":" + esc(qname(et->getDecl())) + "}";
    } else if (q->isIntegerType()) {
      s = "{\"k\":\"int\",\"w\":" + num(C.getTypeSize(q)) + ",\"s\":" + num(q->isSignedIntegerType()) + ",\"n\":" + esc(q.getAsString(PP)) + "}";
    } else if (q->isRealFloatingType()) s = "{\"k\":\"flt\",\"w\":" + num(C.getTypeSize(q)) + "}";
    else if (q->isVoidType()) s = "{\"k\":\"void\"}";
    else if (q->isNullPtrType()) s = "{\"k\":\"nullptr\"}";
    else if (auto* pt = dyn_cast<PointerType>(t)) s = "{\"k\":\"ptr\",\"e\":" + num(T(pt->getPointeeType())) + "}";
    else if (auto* rt = dyn_cast<ReferenceType>(t)) s = "{\"k\":\"ref\",\"e\":" + num(T(rt->getPointeeType())) + ",\"c\":" + num(rt->getPointeeType().isConstQualified()) + ",\"r\":" + num(isa<RValueReferenceType>(rt)) + "}";
    else if (auto* at = dyn_cast<ConstantArrayType>(t)) s = "{\"k\":\"arr\",\"e\":" + num(T(at->getElementType())) + ",\"n\":" + num(at->getSize().getZExtValue()) + "}";
    else if (auto* vt = dyn_cast<VectorType>(t)) s = "{\"k\":\"vec\",\"w\":" + num(C.getTypeSize(q)) + "}";
    else if (auto* rt = dyn_cast<RecordType>(t)) {
      auto* rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
      if (rd) {
        string a = "[]";
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) a = targs(sp->getTemplateArgs().asArray());
        string own;
        if (rd->isLambda()) own = "(lambda)"; else own = qname(rd);
        s = "{\"k\":\"rec\",\"n\":" + esc(own) + ",\"c\":" + esc(recName(rd)) + ",\"a\":" + a + ",\"id\":" + num(recId(rd)) + "}";
      } else s = "{\"k\":\"rec\",\"n\":\"?\",\"c\":\"?\",\"a\":[]}";
    } else if (q->isFunctionType()) s = "{\"k\":\"fn\"}";
    else s = "{\"k\":\"other\",\"n\":" + esc(q.getAsString(PP)) + "}";
    types[id] = s;
    return id;
  }
  const FunctionDecl* canonFn(const FunctionDecl* f) { return f->getCanonicalDecl(); }
  int F(const FunctionDecl* f) {
    f = canonFn(f);
    auto it = fnIdx.find(f);
    if (it != fnIdx.end()) return it->second;
    int id = fns.size(); fnIdx[f] = id; fns.push_back(f); return id;
  }
  int V(const ValueDecl* d) {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    auto it = varIdx.find(d);
    if (it != varIdx.end()) return it->second;
    int id = nvar++; varIdx[d] = id;
    if (auto* vd = dyn_cast<VarDecl>(d)) if (vd->hasGlobalStorage()) { globals[id] = vd; globalQ.push_back(vd); }
    return id;
  }
  string tf(const Expr* e) { return ",\"t\":" + num(T(e->getType())) + (e->isGLValue() ? ",\"lv\":1" : ""); }
  string ln(const Stmt* e) { return ",\"l\":" + num(lineOf(e->getBeginLoc())); }
  string args(const CallExpr* c, unsigned from = 0) {
    string r = "[";
    for (unsigned i = from; i < c->getNumArgs(); i++) { if (i > from) r += ","; r += X(c->getArg(i)); }
    return r + "]";
  }
  string unsup(const Stmt* s) { return "{\"k\":\"unsup\",\"w\":" + esc(s->getStmtClassName()) + ln(s) + "}"; }
  bool constLeaf(const Expr* e) {
    // only fold expressions that are syntactically free of calls with bodies in the repo
    return true;
  }
  string X(const Expr* e) {
    if (!e) return "null";
    if (auto* x = dyn_cast<ParenExpr>(e)) return X(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return X(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return X(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return X(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return X(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return X(x->getExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return X(x->getSemanticForm());
    if (auto* x = dyn_cast<ConstantExpr>(e)) { if (!x->getType()->isIntegralOrEnumerationType()) return X(x->getSubExpr()); }
    if (auto* x = dyn_cast<ChooseExpr>(e)) return X(x->getChosenSubExpr());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return X(x->getResultExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return X(x->getSourceExpr());
    if (e->isPRValue() && (e->getType()->isIntegralOrEnumerationType()) && !e->isValueDependent() && !e->isTypeDependent()) {
      Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
        return "{\"k\":\"int\",\"v\":" + esc(llvm::toString(R.Val.getInt(), 10)) + tf(e) + "}";
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s); return "{\"k\":\"flt\",\"v\":" + esc(s) + tf(e) + "}"; }
    if (auto* x = dyn_cast<StringLiteral>(e)) return "{\"k\":\"str\",\"v\":" + (x->getCharByteWidth() == 1 ? esc(x->getString()) : string("\"?\"")) + tf(e) + "}";
    if (auto* x = dyn_cast<PredefinedExpr>(e)) return "{\"k\":\"str\",\"v\":\"\"" + tf(e) + "}";
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return "{\"k\":\"null\"" + tf(e) + "}";
    if (isa<CXXThisExpr>(e)) return "{\"k\":\"this\"" + tf(e) + "}";
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* bd = dyn_cast<BindingDecl>(d)) {
        if (auto* hv = bd->getHoldingVar()) return "{\"k\":\"var\",\"id\":" + num(V(hv)) + ",\"n\":" + esc(bd->getNameAsString()) + tf(e) + "}";
        return X(bd->getBinding());
      }
      if (auto* fd = dyn_cast<FunctionDecl>(d)) return "{\"k\":\"fn\",\"fn\":" + num(F(fd)) + tf(e) + "}";
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) return "{\"k\":\"int\",\"v\":" + esc(llvm::toString(ec->getInitVal(), 10)) + tf(e) + "}";
      if (isa<VarDecl>(d)) return "{\"k\":\"var\",\"id\":" + num(V(d)) + ",\"n\":" + esc(d->getNameAsString()) + (cast<VarDecl>(d)->hasGlobalStorage() ? ",\"g\":1" : "") + tf(e) + "}";
      return unsup(e);
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        string fname = fd->getNameAsString();
        if (fname.empty()) fname = "#" + num(fd->getFieldIndex());
        return "{\"k\":\"mem\",\"b\":" + X(x->getBase()) + ",\"f\":" + esc(fname) + ",\"ar\":" + num(x->isArrow()) + tf(e) + ln(e) + "}";
      }
      if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) return "{\"k\":\"var\",\"id\":" + num(V(vd)) + ",\"n\":" + esc(vd->getNameAsString()) + ",\"g\":1" + tf(e) + "}";
      if (auto* fd = dyn_cast<FunctionDecl>(x->getMemberDecl())) return "{\"k\":\"fn\",\"fn\":" + num(F(fd)) + tf(e) + "}";
      return unsup(e);
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl* fd = x->getDirectCallee();
      if (fd) {
        auto* md = dyn_cast<CXXMethodDecl>(fd);
        if (md && !md->isStatic())
          return "{\"k\":\"mcall\",\"fn\":" + num(F(fd)) + ",\"op\":1,\"o\":" + X(x->getArg(0)) + ",\"ar\":0,\"v\":" + num(md->isVirtual()) + ",\"as\":" + args(x, 1) + tf(e) + ln(e) + "}";
        return "{\"k\":\"call\",\"fn\":" + num(F(fd)) + ",\"as\":" + args(x) + tf(e) + ln(e) + "}";
      }
      return unsup(e);
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      if (auto* md = x->getMethodDecl()) {
        const Expr* cal = x->getCallee()->IgnoreParens();
        bool arrow = false, qual = false;
        if (auto* me = dyn_cast<MemberExpr>(cal)) { arrow = me->isArrow(); qual = me->hasQualifier(); }
        bool virt = md->isVirtual() && !qual;
        return "{\"k\":\"mcall\",\"fn\":" + num(F(md)) + ",\"o\":" + X(x->getImplicitObjectArgument()) + ",\"ar\":" + num(arrow) + ",\"v\":" + num(virt) + ",\"as\":" + args(x) + tf(e) + ln(e) + "}";
      }
      return unsup(e);
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) return "{\"k\":\"nop\"" + tf(e) + "}";
      if (auto* fd = x->getDirectCallee()) return "{\"k\":\"call\",\"fn\":" + num(F(fd)) + ",\"as\":" + args(const_cast<CallExpr*>(x)) + tf(e) + ln(e) + "}";
      return "{\"k\":\"icall\",\"c\":" + X(x->getCallee()) + ",\"as\":" + args(const_cast<CallExpr*>(x)) + tf(e) + ln(e) + "}";
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      string r = "{\"k\":\"ctor\",\"fn\":" + num(F(x->getConstructor())) + ",\"zi\":" + num(x->requiresZeroInitialization()) + ",\"il\":" + num(x->isStdInitListInitialization()) + ",\"as\":[";
      for (unsigned i = 0; i < x->getNumArgs(); i++) { if (i) r += ","; r += X(x->getArg(i)); }
      return r + "]" + tf(e) + ln(e) + "}";
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return "{\"k\":\"tmp\",\"e\":" + X(x->getSubExpr()) + tf(e) + "}";
    if (auto* x = dyn_cast<CastExpr>(e)) {
      if (x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_ConstructorConversion) return X(x->getSubExpr());
      string b;
      if (x->getCastKind() == CK_DerivedToBase || x->getCastKind() == CK_UncheckedDerivedToBase || x->getCastKind() == CK_BaseToDerived) {}
      return "{\"k\":\"cast\",\"ck\":" + esc(x->getCastKindName()) + ",\"e\":" + X(x->getSubExpr()) + tf(e) + ln(e) + "}";
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) return "{\"k\":\"un\",\"op\":" + esc(UnaryOperator::getOpcodeStr(x->getOpcode())) + ",\"post\":" + num(x->isPostfix()) + ",\"e\":" + X(x->getSubExpr()) + tf(e) + ln(e) + "}";
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) return "{\"k\":\"cas\",\"op\":" + esc(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode()))) + ",\"a\":" + X(x->getLHS()) + ",\"b\":" + X(x->getRHS()) + ",\"ct\":" + num(T(x->getComputationLHSType())) + ",\"crt\":" + num(T(x->getComputationResultType())) + tf(e) + ln(e) + "}";
    if (auto* x = dyn_cast<BinaryOperator>(e)) return "{\"k\":\"bin\",\"op\":" + esc(x->getOpcodeStr()) + ",\"a\":" + X(x->getLHS()) + ",\"b\":" + X(x->getRHS()) + tf(e) + ln(e) + "}";
    if (auto* x = dyn_cast<ConditionalOperator>(e)) return "{\"k\":\"cond\",\"c\":" + X(x->getCond()) + ",\"a\":" + X(x->getTrueExpr()) + ",\"b\":" + X(x->getFalseExpr()) + tf(e) + "}";
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) return "{\"k\":\"sub\",\"b\":" + X(x->getBase()) + ",\"i\":" + X(x->getIdx()) + tf(e) + ln(e) + "}";
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      string r = "{\"k\":\"ilist\",\"es\":[";
      for (unsigned i = 0; i < x->getNumInits(); i++) { if (i) r += ","; r += X(x->getInit(i)); }
      r += "]";
      if (x->hasArrayFiller()) r += ",\"fill\":" + X(x->getArrayFiller());
      return r + tf(e) + ln(e) + "}";
    }
    if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return X(x->getSubExpr());
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return "{\"k\":\"zero\"" + tf(e) + "}";
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) return "{\"k\":\"arrcopy\",\"e\":" + X(x->getCommonExpr()->getSourceExpr()) + tf(e) + "}";
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      string r = "{\"k\":\"new\",\"et\":" + num(T(x->getAllocatedType())) + ",\"arr\":" + (x->isArray() ? X(*x->getArraySize()) : string("null"));
      r += ",\"init\":" + (x->getInitializer() ? X(x->getInitializer()) : (x->getConstructExpr() ? X(x->getConstructExpr()) : string("null")));
      return r + tf(e) + "}";
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return "{\"k\":\"delete\",\"e\":" + X(x->getArgument()) + tf(e) + "}";
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) return "{\"k\":\"throw\",\"e\":" + X(x->getSubExpr()) + tf(e) + ln(e) + "}";
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      const CXXRecordDecl* rd = x->getLambdaClass();
      string r = "{\"k\":\"lambda\",\"rec\":" + num(recId(rd)) + ",\"caps\":[";
      bool first = true;
      auto ii = x->capture_init_begin();
      for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++ii) {
        if (!first) r += ","; first = false;
        if (it->capturesThis()) { r += "{\"this\":1,\"copy\":" + num(it->getCaptureKind() == LCK_StarThis) + "}"; continue; }
        if (!it->capturesVariable()) { r += "{\"vla\":1}"; continue; }
        auto* vd = it->getCapturedVar();
        r += "{\"id\":" + num(V(vd)) + ",\"ref\":" + num(it->getCaptureKind() == LCK_ByRef) + ",\"i\":" + X(*ii) + "}";
      }
      r += "],\"fns\":[";
      if (auto* ft = x->getLambdaClass()->getLambdaCallOperator() ? x->getDependentCallOperator() : nullptr) {
        bool f2 = true;
        for (auto* s : ft->specializations()) { if (!f2) r += ","; f2 = false; r += num(F(s)); }
      } else r += num(F(x->getCallOperator()));
      return r + "]" + tf(e) + ln(e) + "}";
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<StmtExpr>(e)) return "{\"k\":\"stmtexpr\",\"s\":" + S(x->getSubStmt()) + tf(e) + "}";
    if (auto* x = dyn_cast<ShuffleVectorExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<AtomicExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<CXXFoldExpr>(e)) return unsup(e);
    if (auto* x = dyn_cast<PackExpansionExpr>(e)) return unsup(e);
    return unsup(e);
  }
  string var(const VarDecl* v) {
    string r = "{\"id\":" + num(V(v)) + ",\"n\":" + esc(v->getNameAsString()) + ",\"t\":" + num(T(v->getType())) + ",\"st\":" + num(v->isStaticLocal()) + ",\"i\":";
    r += v->hasInit() ? X(v->getInit()) : string("null");
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      r += ",\"bind\":[";
      bool f = true;
      for (auto* b : dd->bindings()) if (auto* hv = b->getHoldingVar()) { if (!f) r += ","; f = false; r += var(hv); }
      r += "]";
    }
    return r + "}";
  }
  string S(const Stmt* s) {
    if (!s) return "null";
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      string r = "{\"k\":\"block\",\"ss\":[";
      bool f = true;
      for (auto* c : x->body()) { if (!f) r += ","; f = false; r += S(c); }
      return r + "]}";
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      string r = "{\"k\":\"decl\",\"vs\":[";
      bool f = true;
      for (auto* d : x->decls()) if (auto* vd = dyn_cast<VarDecl>(d)) { if (!f) r += ","; f = false; r += var(vd); }
      return r + "]" + ln(s) + "}";
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      string cv = "null";
      if (x->isConstexpr() && !x->getCond()->isValueDependent()) {
        Expr::EvalResult R;
        if (x->getCond()->EvaluateAsInt(R, C)) {
          const Stmt* taken = R.Val.getInt().getBoolValue() ? x->getThen() : x->getElse();
          return taken ? S(taken) : string("{\"k\":\"block\",\"ss\":[]}");
        }
      }
      return "{\"k\":\"if\",\"init\":" + S(x->getInit()) + ",\"cv\":" + (x->getConditionVariableDeclStmt() ? S(x->getConditionVariableDeclStmt()) : cv) + ",\"c\":" + X(x->getCond()) + ",\"a\":" + S(x->getThen()) + ",\"b\":" + S(x->getElse()) + ln(s) + "}";
    }
    if (auto* x = dyn_cast<ForStmt>(s)) return "{\"k\":\"for\",\"init\":" + S(x->getInit()) + ",\"c\":" + X(x->getCond()) + ",\"inc\":" + X(x->getInc()) + ",\"b\":" + S(x->getBody()) + ln(s) + "}";
    if (auto* x = dyn_cast<WhileStmt>(s)) return "{\"k\":\"while\",\"cv\":" + S(x->getConditionVariableDeclStmt()) + ",\"c\":" + X(x->getCond()) + ",\"b\":" + S(x->getBody()) + ln(s) + "}";
    if (auto* x = dyn_cast<DoStmt>(s)) return "{\"k\":\"do\",\"c\":" + X(x->getCond()) + ",\"b\":" + S(x->getBody()) + ln(s) + "}";
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      return "{\"k\":\"rfor\",\"init\":" + S(x->getInit()) + ",\"r\":" + X(x->getRangeInit()) + ",\"rs\":" + S(x->getRangeStmt()) + ",\"bs\":" + S(x->getBeginStmt()) + ",\"es\":" + S(x->getEndStmt()) + ",\"c\":" + X(x->getCond()) + ",\"inc\":" + X(x->getInc()) + ",\"v\":" + var(x->getLoopVariable()) + ",\"b\":" + S(x->getBody()) + ln(s) + "}";
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) return "{\"k\":\"ret\",\"e\":" + X(x->getRetValue()) + ln(s) + "}";
    if (isa<BreakStmt>(s)) return "{\"k\":\"break\"}";
    if (isa<ContinueStmt>(s)) return "{\"k\":\"continue\"}";
    if (isa<NullStmt>(s)) return "{\"k\":\"block\",\"ss\":[]}";
    if (auto* x = dyn_cast<SwitchStmt>(s)) return "{\"k\":\"switch\",\"init\":" + S(x->getInit()) + ",\"c\":" + X(x->getCond()) + ",\"b\":" + S(x->getBody()) + ln(s) + "}";
    if (auto* x = dyn_cast<CaseStmt>(s)) return "{\"k\":\"case\",\"v\":" + X(x->getLHS()) + ",\"s\":" + S(x->getSubStmt()) + "}";
    if (auto* x = dyn_cast<DefaultStmt>(s)) return "{\"k\":\"default\",\"s\":" + S(x->getSubStmt()) + "}";
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      string r = "{\"k\":\"try\",\"b\":" + S(x->getTryBlock()) + ",\"hs\":[";
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* h = x->getHandler(i);
        if (i) r += ",";
        r += "{\"t\":" + (h->getExceptionDecl() ? num(T(h->getCaughtType())) : string("null")) + ",\"v\":" + (h->getExceptionDecl() ? num(V(h->getExceptionDecl())) : string("null")) + ",\"b\":" + S(h->getHandlerBlock()) + "}";
      }
      return r + "]}";
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (auto* e = dyn_cast<Expr>(s)) return "{\"k\":\"expr\",\"e\":" + X(e) + ln(s) + "}";
    return unsup(s);
  }
  string fnJson(const FunctionDecl* f0, int id) {
    const FunctionDecl* f = f0;
    const FunctionDecl* def = nullptr;
    bool dep = f->isDependentContext();
    if (f->isDefined(def) && def) f = def;
    string r = "{\"id\":" + num(id) + ",\"q\":" + esc(qname(f)) + ",\"n\":" + esc(f->getNameAsString());
    r += ",\"ret\":" + num(T(f->getReturnType()));
    if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
      r += ",\"rec\":" + num(T(C.getTypeDeclType(md->getParent())));
      r += ",\"static\":" + num(md->isStatic()) + ",\"virt\":" + num(md->isVirtual()) + ",\"pure\":" + num(md->isPureVirtual()) + ",\"cst\":" + num(md->isConst());
      if (md->isVirtual()) {
        r += ",\"over\":[";
        bool first = true;
        for (auto* o : md->overridden_methods()) { if (!first) r += ","; first = false; r += num(F(o)); }
        r += "]";
      }
      if (md->isCopyAssignmentOperator()) r += ",\"sp\":\"copyassign\""; else if (md->isMoveAssignmentOperator()) r += ",\"sp\":\"moveassign\"";
      if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) {
        r += ",\"sp\":"; r += cd->isCopyConstructor() ? "\"copy\"" : cd->isMoveConstructor() ? "\"move\"" : cd->isDefaultConstructor() ? "\"def\"" : "\"ctor\"";
      }
      if (isa<CXXDestructorDecl>(md)) r += ",\"sp\":\"dtor\"";
      r += ",\"dflt\":" + num(md->isDefaulted()) + ",\"triv\":" + num(md->isTrivial());
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) r += ",\"ta\":" + targs(ta->asArray());
    r += ",\"ps\":[";
    for (unsigned i = 0; i < f->getNumParams(); i++) {
      auto* p = f->getParamDecl(i);
      if (i) r += ",";
      r += "{\"id\":" + num(V(p)) + ",\"n\":" + esc(p->getNameAsString()) + ",\"t\":" + num(T(p->getType())) + "}";
    }
    r += "]";
    r += ",\"file\":" + esc(fileOf(f->getLocation())) + ",\"line\":" + num(lineOf(f->getLocation()));
    bool want = inRepo(f) && !dep;
    bool isLambdaOp = false;
    if (def && want && f->doesThisDeclarationHaveABody()) {
      if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
        r += ",\"inits\":[";
        bool first = true;
        for (auto* in : cd->inits()) {
          if (!first) r += ","; first = false;
          if (in->isAnyMemberInitializer()) { string fn = in->getAnyMember()->getNameAsString(); if (fn.empty()) fn = "#" + num(in->getAnyMember()->getFieldIndex()); r += "{\"f\":" + esc(fn) + ",\"ft\":" + num(T(in->getAnyMember()->getType())) + ",\"e\":" + X(in->getInit()) + "}"; }
          else if (in->isBaseInitializer()) r += "{\"base\":" + num(T(QualType(in->getBaseClass(), 0))) + ",\"e\":" + X(in->getInit()) + "}";
          else r += "{\"deleg\":1,\"e\":" + X(in->getInit()) + "}";
        }
        r += "]";
      }
      r += ",\"body\":" + S(f->getBody());
      r += ",\"eline\":" + num(lineOf(f->getBody()->getEndLoc()));
    }
    return r + "}";
  }
  string recJson(const CXXRecordDecl* r0, int id) {
    const CXXRecordDecl* rd = r0->getDefinition();
    string s = "{\"id\":" + num(id) + ",\"c\":" + esc(recName(r0)) + ",\"q\":" + esc(qname(r0));
    bool own = inRepo(r0) || (r0->isLambda());
    s += ",\"own\":" + num(own);
    if (rd && !rd->isDependentType()) {
      s += ",\"abs\":" + num(rd->isAbstract()) + ",\"poly\":" + num(rd->isPolymorphic()) + ",\"union\":" + num(rd->isUnion());
      s += ",\"bases\":[";
      bool first = true;
      for (auto& b : rd->bases()) { if (!first) s += ","; first = false; s += num(T(b.getType())); }
      s += "]";
      bool simple = own || !StringRef(qname(r0)).starts_with("std::");
      if (simple) {
        s += ",\"fs\":["; first = true;
        for (auto* f : rd->fields()) {
          if (!first) s += ","; first = false;
          string fn = f->getNameAsString(); if (fn.empty()) fn = "#" + num(f->getFieldIndex());
          s += "{\"n\":" + esc(fn) + ",\"t\":" + num(T(f->getType())) + "}";
        }
        s += "]";
        if (own) {
          s += ",\"ms\":["; first = true;
          for (auto* m : rd->methods()) { if (!first) s += ","; first = false; s += num(F(m)); }
          s += "]";
        }
      }
    }
    return s + "}";
  }
};

struct Roots : RecursiveASTVisitor<Roots> {
  Exporter& E;
  explicit Roots(Exporter& e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (!f->isDefined()) return true;
    if (!E.inRepo(f)) return true;
    E.F(f);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter E(C);
    Roots R(E);
    R.TraverseDecl(C.getTranslationUnitDecl());
    fputs("{\"fns\":[\n", gOut);
    size_t i = 0; bool first = true;
    std::vector<string> gouts;
    auto drainFns = [&] {
      for (; i < E.fns.size(); i++) { string s = E.fnJson(E.fns[i], i); if (!first) fputs(",\n", gOut); first = false; fputs(s.c_str(), gOut); }
    };
    std::vector<string> recs; size_t g = 0;
    for (;;) {
      drainFns();
      bool more = false;
      while (!E.globalQ.empty()) {
        auto* v = E.globalQ.front(); E.globalQ.pop_front(); more = true;
        const VarDecl* def = nullptr; const Expr* init = v->getAnyInitializer(def);
        bool own = E.inRepo(v);
        string val;
        gouts.push_back("{\"id\":" + num(E.V(v)) + ",\"q\":" + esc(E.qname(v)) + ",\"t\":" + num(E.T(v->getType())) + ",\"i\":" + (init && !v->isStaticLocal() && own && !init->isValueDependent() ? E.X(init) : string("null")) + "}");
      }
      while (!E.recQ.empty()) { auto* r = E.recQ.front(); E.recQ.pop_front(); more = true; recs.push_back(E.recJson(r, E.recId(r))); }
      if (!more && i == E.fns.size()) break;
    }
    fputs("],\n\"globals\":[", gOut);
    for (size_t k = 0; k < gouts.size(); k++) { if (k) fputs(",\n", gOut); fputs(gouts[k].c_str(), gOut); }
    fputs("],\n\"recs\":[", gOut);
    for (size_t k = 0; k < recs.size(); k++) { if (k) fputs(",\n", gOut); fputs(recs[k].c_str(), gOut); }
    fputs("],\n\"types\":[", gOut);
    for (size_t k = 0; k < E.types.size(); k++) { if (k) fputs(",\n", gOut); fputs(E.types[k].c_str(), gOut); }
    fputs("]}\n", gOut);
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

// usage: exporter OUT.json SRC.cpp -prefix P ... -- clang flags
int main(int argc, char** argv) {
  string out = argv[1], src = argv[2];
  int k = 3;
  for (; k < argc && string(argv[k]) != "--"; k++) if (string(argv[k]) == "-prefix") gPrefixes.push_back(argv[++k]);
  std::vector<string> flags;
  for (k++; k < argc; k++) flags.push_back(argv[k]);
  gOut = fopen(out.c_str(), "w");
  if (!gOut) return 3;
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Factory f;
  int rc = tool.run(&f);
  fclose(gOut);
  return rc;
}
