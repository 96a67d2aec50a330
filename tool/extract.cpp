// IFEM fact extractor: dumps, for every function with a body in the analysed
// tree, a simplified type-resolved syntax tree plus the clang CFG, and for every
// record/enum/global its declaration facts, as one JSON object per TU.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;      // tree under analysis (with trailing '/')
static std::string gGen;       // generated-include dir (IFEM.h)
static std::string gOut;
static bool gHeaders = false;  // emit entities from headers too

namespace {

static int64_t ival(const llvm::APSInt& v)
{
  return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)-1;
}

class Ctx
{
public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  Array types, funs, globals;
  std::map<std::string,int> typeIdx;
  std::map<const void*,int> typePtrIdx;
  std::map<const Decl*,int> funIdx;
  std::map<std::string,int> funUsr;
  std::map<std::string,int> globUsr;
  std::map<std::string,int> fileIdx;
  std::vector<std::string> files;
  std::set<std::string> usedHeaders;

  Ctx(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string relFile(SourceLocation L)
  {
    if (L.isInvalid()) return "";
    SourceLocation E = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(E);
    if (f.empty()) return "";
    SmallString<256> p(f);
    if (f[0] == '/') {
      // normalise ../
      llvm::SmallString<256> q(f);
      llvm::sys::path::remove_dots(q,true);
      p = q;
    }
    std::string s(p.str());
    if (s.compare(0,gRoot.size(),gRoot) == 0)
      return s.substr(gRoot.size());
    return "<sys>" + s;
  }
  unsigned line(SourceLocation L)
  {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRepo(SourceLocation L)
  {
    std::string f = relFile(L);
    return !f.empty() && f[0] != '<';
  }
  bool inMain(SourceLocation L)
  {
    return L.isValid() && SM.isInMainFile(SM.getExpansionLoc(L));
  }
  bool wanted(SourceLocation L)
  {
    if (L.isInvalid()) return false;
    if (!inRepo(L)) return false;
    if (gHeaders) return true;
    return inMain(L);
  }

  static std::string usr(const Decl* D)
  {
    SmallString<128> b;
    if (index::generateUSRForDecl(D,b)) {
      if (auto ND = dyn_cast<NamedDecl>(D))
        return "?" + ND->getQualifiedNameAsString();
      return "?";
    }
    return std::string(b.str());
  }

  static std::string qname(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P(D->getASTContext().getLangOpts());
    P.SuppressUnwrittenScope = true;
    D->printQualifiedName(os,P);
    os.flush();
    return s;
  }

  int type(QualType T)
  {
    if (T.isNull()) return -1;
    QualType K = T.getCanonicalType();
    const void* key = K.getAsOpaquePtr();
    auto it = typePtrIdx.find(key);
    if (it != typePtrIdx.end()) return it->second;
    std::string s = K.getAsString(PP);
    int idx = types.size();
    typePtrIdx[key] = idx;
    types.push_back(nullptr);
    Object o;
    o["s"] = s;
    if (K.isConstQualified()) o["c"] = 1;
    const Type* t = K.getTypePtr();
    if (auto r = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref";
      int p = type(r->getPointeeType());
      o["p"] = p;
    }
    else if (auto p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      int pi = type(p->getPointeeType());
      o["p"] = pi;
    }
    else if (auto a = dyn_cast<ArrayType>(t)) {
      o["k"] = "arr";
      int pi = type(a->getElementType());
      o["p"] = pi;
      if (auto ca = dyn_cast<ConstantArrayType>(t))
        o["n"] = (int64_t)ca->getSize().getZExtValue();
    }
    else if (auto bt = dyn_cast<BuiltinType>(t)) {
      if (bt->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (bt->isInteger()) {
        o["k"] = "int";
        if (bt->isUnsignedInteger()) o["u"] = 1;
        o["b"] = (int64_t)C.getTypeSize(K);
      }
      else if (bt->isFloatingPoint()) o["k"] = "float";
      else if (bt->isVoidType()) o["k"] = "void";
      else if (bt->isDependentType()) o["k"] = "dep";
      else o["k"] = "other";
    }
    else if (auto et = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["r"] = qname(et->getDecl());
    }
    else if (auto rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      o["r"] = qname(rt->getDecl());
      if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl())) {
        Array ta;
        for (const TemplateArgument& A : sp->getTemplateArgs().asArray())
          if (A.getKind() == TemplateArgument::Type)
            ta.push_back(type(A.getAsType()));
        o["ta"] = std::move(ta);
      }
    }
    else if (auto in = dyn_cast<InjectedClassNameType>(t)) {
      o["k"] = "rec";
      o["r"] = qname(in->getDecl());
      o["dep"] = 1;
    }
    else if (t->isFunctionType()) o["k"] = "fn";
    else if (t->isMemberPointerType()) o["k"] = "mptr";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (auto ts = dyn_cast<TemplateSpecializationType>(t)) {
      o["k"] = "dep";
      if (auto td = ts->getTemplateName().getAsTemplateDecl())
        o["r"] = qname(td);
    }
    else if (t->isDependentType()) o["k"] = "dep";
    else o["k"] = "other";
    types[idx] = std::move(o);
    return idx;
  }

  int fun(const FunctionDecl* F)
  {
    const FunctionDecl* K = F->getCanonicalDecl();
    auto it = funIdx.find(K);
    if (it != funIdx.end()) return it->second;
    int idx = funs.size();
    funIdx[K] = idx;
    funs.push_back(nullptr);
    Object o;
    o["u"] = usr(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    const FunctionDecl* D = F;
    if (auto pat = F->getTemplateInstantiationPattern()) {
      D = pat;
      o["pat"] = usr(pat);
    }
    o["f"] = relFile(D->getLocation());
    o["l"] = (int64_t)line(D->getLocation());
    o["r"] = type(F->getReturnType());
    Array ps, pn;
    for (const ParmVarDecl* p : F->parameters()) {
      ps.push_back(type(p->getType()));
      pn.push_back(p->getNameAsString());
    }
    o["p"] = std::move(ps);
    o["pn"] = std::move(pn);
    Array dv;
    bool hasDv = false;
    for (const ParmVarDecl* p : D->getMostRecentDecl()->parameters()) {
      std::string v;
      if (p->hasDefaultArg()) {
        const Expr* e = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() :
          p->hasUnparsedDefaultArg() ? nullptr : p->getDefaultArg();
        v = "?";
        Expr::EvalResult r;
        if (e && e->IgnoreParenImpCasts()->getType()->isNullPtrType())
          v = "0";
        else if (e && !e->isValueDependent() && !e->isTypeDependent() && !p->getType()->isDependentType() &&
                 e->EvaluateAsRValue(r,C) && r.Val.isInt())
          v = llvm::toString(r.Val.getInt(),10);
        else if (e && !e->isValueDependent() && !e->isTypeDependent() && r.Val.isFloat()) {
          llvm::SmallString<32> b;
          r.Val.getFloat().toString(b);
          v = b.str().str();
        }
        else if (e) {
          v.clear();
          llvm::raw_string_ostream os(v);
          e->printPretty(os,nullptr,PP);
        }
        hasDv = true;
      }
      dv.push_back(v);
    }
    if (hasDv) o["dv"] = std::move(dv);
    if (F->isVariadic()) o["va"] = 1;
    if (F->isNoReturn()) o["nr"] = 1;
    if (F->isDeleted()) o["del"] = 1;
    if (F->isDefaulted()) o["def"] = 1;
    if (F->isImplicit()) o["imp"] = 1;
    if (auto M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = qname(M->getParent());
      if (M->isConst()) o["cst"] = 1;
      if (M->isStatic()) o["st"] = 1;
      if (M->isVirtual()) o["vi"] = 1;
      if (M->isPureVirtual()) o["pv"] = 1;
      if (M->getAccess() == AS_private) o["acc"] = "private";
      else if (M->getAccess() == AS_protected) o["acc"] = "protected";
      else o["acc"] = "public";
      Array ov;
      for (const CXXMethodDecl* b : M->overridden_methods())
        ov.push_back(usr(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) {
        auto CD = cast<CXXConstructorDecl>(M);
        o["kind"] = CD->isCopyConstructor() ? "cctor" :
          CD->isMoveConstructor() ? "mctor" : "ctor";
        if (CD->isExplicit()) o["exp"] = 1;
        if (CD->isConvertingConstructor(false)) o["conv"] = 1;
      }
      else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
      else if (M->isCopyAssignmentOperator()) o["kind"] = "cassign";
      else if (M->isMoveAssignmentOperator()) o["kind"] = "massign";
      else o["kind"] = "method";
    }
    else
      o["kind"] = "free";
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) o["acc"] = "static";
    if (F->isInAnonymousNamespace()) o["acc"] = "static";
    funs[idx] = std::move(o);
    return idx;
  }

  //! \brief The numbers of an array with constant initializer, in the order they are stored.
  static bool flatten(const APValue& v, Array& out)
  {
    if (v.isArray())
    {
      for (unsigned i = 0; i < v.getArraySize(); i++)
        if (i < v.getArrayInitializedElts() ? !flatten(v.getArrayInitializedElt(i),out)
                                            : !v.hasArrayFiller() || !flatten(v.getArrayFiller(),out))
          return false;
      return true;
    }
    if (v.isInt() && v.getInt().isRepresentableByInt64()) { out.push_back(v.getInt().getExtValue()); return true; }
    if (v.isFloat()) { out.push_back(v.getFloat().convertToDouble()); return true; }
    return false;
  }

  static bool constants(const VarDecl* V, Array& out)
  {
    QualType t = V->getType();
    while (auto a = dyn_cast<ConstantArrayType>(t->getUnqualifiedDesugaredType())) t = a->getElementType();
    if (!t->isArithmeticType() || t->isDependentType()) return false;
    const VarDecl* D = nullptr;
    const Expr* E = V->getAnyInitializer(D);
    if (!E || !D || E->isValueDependent()) return false;
    const APValue* v = D->evaluateValue();
    return v && flatten(*v,out);
  }

  int global(const VarDecl* V)
  {
    std::string u = usr(V->getCanonicalDecl());
    auto it = globUsr.find(u);
    if (it != globUsr.end()) return it->second;
    int idx = globals.size();
    globUsr[u] = idx;
    globals.push_back(nullptr);
    Object o;
    o["u"] = u;
    o["q"] = qname(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["f"] = relFile(V->getLocation());
    o["l"] = (int64_t)line(V->getLocation());
    if (V->isStaticLocal()) {
      o["sl"] = 1;
      if (auto F = dyn_cast<FunctionDecl>(V->getDeclContext()))
        o["fn"] = fun(F);
    }
    if (V->isStaticDataMember()) o["sm"] = 1;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (V->isConstexpr()) o["cx"] = 1;
    if (V->hasGlobalStorage()) o["gs"] = 1;
    Array cv;
    if (constants(V,cv)) o["cv"] = std::move(cv);
    globals[idx] = std::move(o);
    return idx;
  }
};

class FunDumper
{
  Ctx& X;
  int nextId = 0;
  llvm::DenseMap<const Stmt*,int> ids;
  llvm::DenseMap<const ValueDecl*,int> locals;
  llvm::DenseMap<const VarDecl*,int> vardeclId;
  Array localTab;
public:
  std::vector<const LambdaExpr*> lambdas;
  FunDumper(Ctx& x) : X(x) {}

  int local(const ValueDecl* V)
  {
    auto it = locals.find(V);
    if (it != locals.end()) return it->second;
    int i = localTab.size();
    locals[V] = i;
    Object o;
    o["n"] = V->getNameAsString();
    o["t"] = X.type(V->getType());
    o["l"] = (int64_t)X.line(V->getLocation());
    if (isa<ParmVarDecl>(V)) o["p"] = 1;
    if (auto VD = dyn_cast<VarDecl>(V))
      if (VD->isStaticLocal()) o["g"] = X.global(VD);
    localTab.push_back(std::move(o));
    return i;
  }

  Object node(const char* k, const Stmt* S)
  {
    Object o;
    o["k"] = k;
    int id = nextId++;
    o["i"] = id;
    if (S) {
      ids[S] = id;
      o["l"] = (int64_t)X.line(S->getBeginLoc());
      if (auto E = dyn_cast<Expr>(S)) o["t"] = X.type(E->getType());
      if (S->getBeginLoc().isMacroID()) {
        SourceLocation L = S->getBeginLoc();
        // outermost macro name
        std::string mn;
        while (L.isMacroID()) {
          mn = Lexer::getImmediateMacroName(L,X.SM,X.C.getLangOpts()).str();
          L = X.SM.getImmediateMacroCallerLoc(L);
        }
        o["mac"] = mn;
      }
    }
    return o;
  }

  void setId(const Stmt* S, Object& o)
  {
    if (auto i = o.getInteger("i")) ids[S] = (int)*i;
  }

  Value kids(std::initializer_list<const Stmt*> L)
  {
    Array a;
    for (const Stmt* s : L) if (s) a.push_back(stmt(s));
    return a;
  }

  Value stmt(const Stmt* S)
  {
    if (!S) return nullptr;
    if (auto E = dyn_cast<Expr>(S)) return expr(E);
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Object o = node("block",S);
      Array a;
      for (const Stmt* c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
      o["c"] = std::move(a);
      return o;
    }
    case Stmt::DeclStmtClass: {
      Object o = node("decl",S);
      Array a;
      for (const Decl* d : cast<DeclStmt>(S)->decls())
        if (auto v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["c"] = std::move(a);
      return o;
    }
    case Stmt::IfStmtClass: {
      auto s = cast<IfStmt>(S);
      Object o = node("if",S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (auto v = s->getConditionVariableDeclStmt()) o["cv"] = stmt(v);
      o["cond"] = stmt(s->getCond());
      o["then"] = stmt(s->getThen());
      if (s->getElse()) o["else"] = stmt(s->getElse());
      if (s->isConstexpr()) o["cx"] = 1;
      return o;
    }
    case Stmt::ForStmtClass: {
      auto s = cast<ForStmt>(S);
      Object o = node("for",S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (auto v = s->getConditionVariableDeclStmt()) o["cv"] = stmt(v);
      if (s->getCond()) o["cond"] = stmt(s->getCond());
      if (s->getInc()) o["inc"] = stmt(s->getInc());
      o["body"] = stmt(s->getBody());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto s = cast<WhileStmt>(S);
      Object o = node("while",S);
      if (auto v = s->getConditionVariableDeclStmt()) o["cv"] = stmt(v);
      o["cond"] = stmt(s->getCond());
      o["body"] = stmt(s->getBody());
      return o;
    }
    case Stmt::DoStmtClass: {
      auto s = cast<DoStmt>(S);
      Object o = node("do",S);
      o["body"] = stmt(s->getBody());
      o["cond"] = stmt(s->getCond());
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto s = cast<CXXForRangeStmt>(S);
      Object o = node("rfor",S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (auto r = s->getRangeStmt()) o["rs"] = stmt(r);
      if (s->getBeginStmt()) o["bs"] = stmt(s->getBeginStmt());
      if (s->getEndStmt()) o["es"] = stmt(s->getEndStmt());
      if (s->getCond()) o["cond"] = stmt(s->getCond());
      if (s->getInc()) o["inc"] = stmt(s->getInc());
      if (s->getLoopVarStmt()) o["lv"] = stmt(s->getLoopVarStmt());
      o["body"] = stmt(s->getBody());
      return o;
    }
    case Stmt::SwitchStmtClass: {
      auto s = cast<SwitchStmt>(S);
      Object o = node("switch",S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (auto v = s->getConditionVariableDeclStmt()) o["cv"] = stmt(v);
      o["cond"] = stmt(s->getCond());
      o["body"] = stmt(s->getBody());
      return o;
    }
    case Stmt::CaseStmtClass: {
      auto s = cast<CaseStmt>(S);
      Object o = node("case",S);
      o["lhs"] = stmt(s->getLHS());
      if (s->getRHS()) o["rhs"] = stmt(s->getRHS());
      o["body"] = stmt(s->getSubStmt());
      return o;
    }
    case Stmt::DefaultStmtClass: {
      Object o = node("default",S);
      o["body"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return o;
    }
    case Stmt::LabelStmtClass: {
      Object o = node("label",S);
      o["n"] = cast<LabelStmt>(S)->getName();
      o["body"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return o;
    }
    case Stmt::AttributedStmtClass:
      {
        Value v = stmt(cast<AttributedStmt>(S)->getSubStmt());
        if (auto ob = v.getAsObject()) setId(S,*ob);
        return v;
      }
    case Stmt::GotoStmtClass: return node("goto",S);
    case Stmt::BreakStmtClass: return node("break",S);
    case Stmt::ContinueStmtClass: return node("continue",S);
    case Stmt::NullStmtClass: return node("null",S);
    case Stmt::ReturnStmtClass: {
      Object o = node("return",S);
      if (auto e = cast<ReturnStmt>(S)->getRetValue()) o["c"] = kids({e});
      return o;
    }
    case Stmt::CXXTryStmtClass: {
      auto s = cast<CXXTryStmt>(S);
      Object o = node("try",S);
      Array a;
      a.push_back(stmt(s->getTryBlock()));
      for (unsigned i = 0; i < s->getNumHandlers(); i++)
        a.push_back(stmt(s->getHandler(i)));
      o["c"] = std::move(a);
      return o;
    }
    case Stmt::CXXCatchStmtClass: {
      auto s = cast<CXXCatchStmt>(S);
      Object o = node("catch",S);
      if (s->getExceptionDecl()) o["d"] = local(s->getExceptionDecl());
      o["c"] = kids({s->getHandlerBlock()});
      return o;
    }
    case Stmt::CapturedStmtClass:
      {
        Value v = stmt(cast<CapturedStmt>(S)->getCapturedStmt());
        if (auto ob = v.getAsObject()) setId(S,*ob);
        return v;
      }
    default:
      break;
    }
    if (auto s = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = node("omp",S);
      o["dk"] = llvm::omp::getOpenMPDirectiveName(s->getDirectiveKind()).str();
      Array cl;
      for (const OMPClause* c : s->clauses()) {
        Object co;
        co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (c->isImplicit()) co["imp"] = 1;
        Array vs;
        auto addVars = [&](auto range) {
          for (const Expr* e : range) {
            const Expr* ee = e->IgnoreParenImpCasts();
            if (auto dr = dyn_cast<DeclRefExpr>(ee)) {
              if (auto vd = dyn_cast<VarDecl>(dr->getDecl())) {
                if (vd->hasGlobalStorage()) { Object q; q["g"] = X.global(vd); vs.push_back(std::move(q)); }
                else { Object q; q["d"] = local(vd); vs.push_back(std::move(q)); }
              }
            }
            else if (auto me = dyn_cast<MemberExpr>(ee)) {
              Object q; q["m"] = me->getMemberDecl()->getNameAsString(); vs.push_back(std::move(q));
            }
          }
        };
        if (auto p = dyn_cast<OMPPrivateClause>(c)) addVars(p->varlists());
        else if (auto p = dyn_cast<OMPFirstprivateClause>(c)) addVars(p->varlists());
        else if (auto p = dyn_cast<OMPLastprivateClause>(c)) addVars(p->varlists());
        else if (auto p = dyn_cast<OMPSharedClause>(c)) addVars(p->varlists());
        else if (auto p = dyn_cast<OMPReductionClause>(c)) {
          addVars(p->varlists());
          co["op"] = p->getNameInfo().getAsString();
        }
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (s->hasAssociatedStmt() && s->getAssociatedStmt()) {
        const Stmt* r = s->isStandaloneDirective() ? nullptr : s->getRawStmt();
        if (r) o["c"] = kids({r});
      }
      return o;
    }
    Object o = node("stmt",S);
    o["cls"] = S->getStmtClassName();
    Array a;
    for (const Stmt* c : S->children()) if (c) a.push_back(stmt(c));
    o["c"] = std::move(a);
    return o;
  }

  Value vardecl(const VarDecl* v)
  {
    Object o;
    o["k"] = "vardecl";
    int id = nextId++;
    vardeclId[v] = id;
    o["i"] = id;
    o["l"] = (int64_t)X.line(v->getLocation());
    o["d"] = local(v);
    o["n"] = v->getNameAsString();
    o["t"] = X.type(v->getType());
    if (v->isStaticLocal()) o["g"] = X.global(v);
    if (v->getInit()) o["c"] = kids({v->getInit()});
    if (v->hasInit() && v->getInitStyle() == VarDecl::ListInit) o["li"] = 1;
    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto bd : dd->bindings()) b.push_back(local(bd));
      o["b"] = std::move(b);
    }
    return o;
  }

  static bool keepCast(CastKind k)
  {
    switch (k) {
    case CK_FloatingToIntegral:
    case CK_IntegralToFloating:
    case CK_IntegralCast:
    case CK_IntegralToBoolean:
    case CK_PointerToBoolean:
    case CK_FloatingToBoolean:
    case CK_LValueToRValue:
    case CK_BooleanToSignedIntegral:
    case CK_FloatingCast:
      return true;
    default: return false;
    }
  }

  void callee(Object& o, const FunctionDecl* F)
  {
    o["u"] = X.fun(F);
    o["n"] = F->getNameAsString();
  }

  Value args(const Expr* const* b, unsigned n)
  {
    Array a;
    for (unsigned i = 0; i < n; i++) a.push_back(expr(b[i]));
    return a;
  }

  Value expr(const Expr* E)
  {
    if (!E) return nullptr;
    // strip wrappers
    switch (E->getStmtClass()) {
    case Stmt::ImplicitCastExprClass: {
      auto ic = cast<ImplicitCastExpr>(E);
      Value v = expr(ic->getSubExpr());
      if (auto ob = v.getAsObject()) {
        setId(E,*ob);
        if (ic->getCastKind() == CK_LValueToRValue) (*ob)["rv"] = 1;
        else if (keepCast(ic->getCastKind())) {
          if (!ob->get("ic")) (*ob)["ic"] = Array();
          ob->getArray("ic")->push_back(ic->getCastKindName());
          (*ob)["it"] = X.type(ic->getType());
        }
      }
      return v;
    }
#define STRIP(K,get) case Stmt::K##Class: { Value v = expr(cast<K>(E)->get); if (auto ob = v.getAsObject()) setId(E,*ob); return v; }
    STRIP(ParenExpr,getSubExpr())
    STRIP(ExprWithCleanups,getSubExpr())
    STRIP(MaterializeTemporaryExpr,getSubExpr())
    STRIP(CXXBindTemporaryExpr,getSubExpr())
    STRIP(ConstantExpr,getSubExpr())
    STRIP(SubstNonTypeTemplateParmExpr,getReplacement())
    STRIP(CXXRewrittenBinaryOperator,getSemanticForm())
#undef STRIP
    default: break;
    }
    switch (E->getStmtClass()) {
    case Stmt::CXXDefaultArgExprClass: {
      Object o = node("defarg",E);
      Expr::EvalResult R;
      const Expr* in = cast<CXXDefaultArgExpr>(E)->getExpr();
      if (in && !in->isValueDependent() && in->getType()->isIntegralOrEnumerationType() &&
          in->EvaluateAsInt(R,X.C))
        o["v"] = ival(R.Val.getInt());
      return o;
    }
    case Stmt::CXXDefaultInitExprClass: return node("definit",E);
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: return node("zinit",E);
    case Stmt::IntegerLiteralClass: {
      Object o = node("int",E);
      o["v"] = cast<IntegerLiteral>(E)->getValue().getLimitedValue();
      return o;
    }
    case Stmt::FloatingLiteralClass: {
      Object o = node("float",E);
      llvm::SmallString<32> s;
      cast<FloatingLiteral>(E)->getValue().toString(s,20);
      o["v"] = s.str().str();
      return o;
    }
    case Stmt::CharacterLiteralClass: {
      Object o = node("char",E);
      o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
      return o;
    }
    case Stmt::StringLiteralClass: {
      Object o = node("str",E);
      auto s = cast<StringLiteral>(E);
      std::string b = s->getCharByteWidth() == 1 ? s->getString().str() : "";
      if (!llvm::json::isUTF8(b)) b = llvm::json::fixUTF8(b);
      o["v"] = b;
      return o;
    }
    case Stmt::PredefinedExprClass: return node("str",E);
    case Stmt::CXXBoolLiteralExprClass: {
      Object o = node("bool",E);
      o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
      return o;
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return node("null_p",E);
    case Stmt::CXXThisExprClass: return node("this",E);
    case Stmt::DeclRefExprClass: {
      const ValueDecl* D = cast<DeclRefExpr>(E)->getDecl();
      if (auto F = dyn_cast<FunctionDecl>(D)) {
        Object o = node("fn",E);
        callee(o,F);
        return o;
      }
      if (auto ec = dyn_cast<EnumConstantDecl>(D)) {
        Object o = node("enum",E);
        o["n"] = X.qname(ec);
        o["v"] = ival(ec->getInitVal());
        return o;
      }
      if (auto V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          Object o = node("gvar",E);
          o["g"] = X.global(V);
          o["n"] = X.qname(V);
          return o;
        }
        Object o = node("var",E);
        o["d"] = local(V);
        o["n"] = V->getNameAsString();
        if (cast<DeclRefExpr>(E)->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
        return o;
      }
      if (auto B = dyn_cast<BindingDecl>(D)) {
        Object o = node("var",E);
        o["d"] = local(B);
        o["n"] = B->getNameAsString();
        return o;
      }
      Object o = node("ref",E);
      o["n"] = D->getNameAsString();
      return o;
    }
    case Stmt::MemberExprClass: {
      auto m = cast<MemberExpr>(E);
      const ValueDecl* D = m->getMemberDecl();
      if (auto V = dyn_cast<VarDecl>(D)) {
        Object o = node("gvar",E);
        o["g"] = X.global(V);
        o["n"] = X.qname(V);
        return o;
      }
      Object o = node("mem",E);
      o["n"] = D->getNameAsString();
      if (auto fd = dyn_cast<FieldDecl>(D)) o["r"] = X.qname(fd->getParent());
      else if (auto md = dyn_cast<CXXMethodDecl>(D)) {
        o["fnm"] = X.fun(md);
        if (m->hasQualifier()) o["nv"] = 1;
      }
      if (m->isArrow()) o["ar"] = 1;
      o["c"] = kids({m->getBase()});
      return o;
    }
    case Stmt::CXXDependentScopeMemberExprClass: {
      auto m = cast<CXXDependentScopeMemberExpr>(E);
      Object o = node("mem",E);
      o["dep"] = 1;
      o["n"] = m->getMember().getAsString();
      if (m->isArrow()) o["ar"] = 1;
      if (!m->isImplicitAccess()) o["c"] = kids({m->getBase()});
      return o;
    }
    case Stmt::UnresolvedMemberExprClass: {
      auto m = cast<UnresolvedMemberExpr>(E);
      Object o = node("mem",E);
      o["dep"] = 1;
      o["n"] = m->getMemberName().getAsString();
      if (m->isArrow()) o["ar"] = 1;
      if (!m->isImplicitAccess()) o["c"] = kids({m->getBase()});
      else o["imp"] = 1;
      if (m->getQualifier()) o["nv"] = 1;
      return o;
    }
    case Stmt::UnresolvedLookupExprClass: {
      Object o = node("ref",E);
      o["dep"] = 1;
      o["n"] = cast<UnresolvedLookupExpr>(E)->getName().getAsString();
      return o;
    }
    case Stmt::DependentScopeDeclRefExprClass: {
      Object o = node("ref",E);
      o["dep"] = 1;
      o["n"] = cast<DependentScopeDeclRefExpr>(E)->getDeclName().getAsString();
      if (auto q = cast<DependentScopeDeclRefExpr>(E)->getQualifier()) {
        std::string s; llvm::raw_string_ostream os(s); q->print(os,X.PP); os.flush();
        o["qual"] = s;
      }
      return o;
    }
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::CXXMemberCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto c = cast<CallExpr>(E);
      Object o = node("call",E);
      const FunctionDecl* F = c->getDirectCallee();
      if (auto oc = dyn_cast<CXXOperatorCallExpr>(E))
        o["op"] = getOperatorSpelling(oc->getOperator());
      unsigned first = 0;
      if (F) {
        callee(o,F);
        if (auto mc = dyn_cast<CXXMemberCallExpr>(E)) {
          auto me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens());
          if (mc->getImplicitObjectArgument()) o["o"] = expr(mc->getImplicitObjectArgument());
          if (me) {
            ids[me] = (int)*o.getInteger("i");
            if (me->hasQualifier()) o["nv"] = 1;
            if (me->isArrow()) o["ar"] = 1;
          }
        }
        else if (auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
          // method call with type-dependent arguments
          if (auto M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
            o["o"] = expr(me->getBase());
            ids[me] = (int)*o.getInteger("i");
            if (me->hasQualifier()) o["nv"] = 1;
            if (me->isArrow()) o["ar"] = 1;
          }
        }
        else if (isa<CXXOperatorCallExpr>(E)) {
          if (auto M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
            o["o"] = expr(c->getArg(0));
            first = 1;
          }
        }
      }
      else {
        const Expr* ce = c->getCallee()->IgnoreParenImpCasts();
        o["f"] = expr(c->getCallee());
        if (auto dm = dyn_cast<CXXDependentScopeMemberExpr>(ce)) o["n"] = dm->getMember().getAsString();
        else if (auto um = dyn_cast<UnresolvedMemberExpr>(ce)) o["n"] = um->getMemberName().getAsString();
        else if (auto ul = dyn_cast<UnresolvedLookupExpr>(ce)) o["n"] = ul->getName().getAsString();
        else if (auto me = dyn_cast<MemberExpr>(ce)) o["n"] = me->getMemberDecl()->getNameAsString();
        else if (auto dr = dyn_cast<DeclRefExpr>(ce)) o["n"] = dr->getDecl()->getNameAsString();
        o["ind"] = 1;
      }
      Array a;
      for (unsigned i = first; i < c->getNumArgs(); i++) a.push_back(expr(c->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto c = cast<CXXConstructExpr>(E);
      Object o = node("ctor",E);
      callee(o,c->getConstructor());
      if (c->isElidable()) o["el"] = 1;
      if (c->requiresZeroInitialization()) o["zi"] = 1;
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = 1;
      o["a"] = args(c->getArgs(),c->getNumArgs());
      return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      Object o = node("ctor",E);
      callee(o,cast<CXXInheritedCtorInitExpr>(E)->getConstructor());
      o["a"] = Array();
      return o;
    }
    case Stmt::CXXUnresolvedConstructExprClass: {
      auto c = cast<CXXUnresolvedConstructExpr>(E);
      Object o = node("ctor",E);
      o["dep"] = 1;
      Array a;
      for (unsigned i = 0; i < c->getNumArgs(); i++) a.push_back(expr(c->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXNewExprClass: {
      auto c = cast<CXXNewExpr>(E);
      Object o = node("new",E);
      if (c->isArray()) {
        o["arr"] = 1;
        if (auto sz = c->getArraySize()) if (*sz) o["size"] = expr(*sz);
      }
      o["at"] = X.type(c->getAllocatedType());
      if (c->getNumPlacementArgs()) {
        Array p;
        for (unsigned i = 0; i < c->getNumPlacementArgs(); i++) p.push_back(expr(c->getPlacementArg(i)));
        o["pl"] = std::move(p);
      }
      if (c->getInitializer()) o["c"] = kids({c->getInitializer()});
      return o;
    }
    case Stmt::CXXDeleteExprClass: {
      auto c = cast<CXXDeleteExpr>(E);
      Object o = node("delete",E);
      if (c->isArrayForm()) o["arr"] = 1;
      o["c"] = kids({c->getArgument()});
      return o;
    }
    case Stmt::BinaryOperatorClass: {
      auto b = cast<BinaryOperator>(E);
      Object o = node(b->isAssignmentOp() ? "assign" : "bin",E);
      o["op"] = b->getOpcodeStr().str();
      o["c"] = kids({b->getLHS(),b->getRHS()});
      return o;
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto b = cast<CompoundAssignOperator>(E);
      Object o = node("assign",E);
      o["op"] = b->getOpcodeStr().str();
      o["c"] = kids({b->getLHS(),b->getRHS()});
      return o;
    }
    case Stmt::UnaryOperatorClass: {
      auto u = cast<UnaryOperator>(E);
      Object o = node("un",E);
      std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      if (u->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["c"] = kids({u->getSubExpr()});
      return o;
    }
    case Stmt::ConditionalOperatorClass: {
      auto c = cast<ConditionalOperator>(E);
      Object o = node("cond",E);
      o["c"] = kids({c->getCond(),c->getTrueExpr(),c->getFalseExpr()});
      return o;
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto c = cast<BinaryConditionalOperator>(E);
      Object o = node("cond",E);
      o["elvis"] = 1;
      o["c"] = kids({c->getCommon(),c->getFalseExpr()});
      return o;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto a = cast<ArraySubscriptExpr>(E);
      Object o = node("idx",E);
      o["c"] = kids({a->getBase(),a->getIdx()});
      return o;
    }
    case Stmt::InitListExprClass: {
      auto il = cast<InitListExpr>(E);
      Object o = node("ilist",E);
      const InitListExpr* sem = il->isSemanticForm() ? il : il->getSemanticForm();
      if (!sem) sem = il;
      ids[sem] = (int)*o.getInteger("i");
      if (auto syn = il->getSyntacticForm()) ids[syn] = (int)*o.getInteger("i");
      Array a;
      for (const Expr* e : sem->inits()) a.push_back(expr(e));
      o["c"] = std::move(a);
      return o;
    }
    case Stmt::CXXStdInitializerListExprClass: {
      Object o = node("ilist",E);
      o["c"] = kids({cast<CXXStdInitializerListExpr>(E)->getSubExpr()});
      return o;
    }
    case Stmt::LambdaExprClass: {
      auto l = cast<LambdaExpr>(E);
      Object o = node("lambda",E);
      lambdas.push_back(l);
      if (auto m = l->getCallOperator()) o["fu"] = X.fun(m);
      Array caps;
      for (const LambdaCapture& c : l->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = 1;
        else if (c.capturesVariable()) {
          auto v = c.getCapturedVar();
          if (auto vd = dyn_cast<VarDecl>(v); vd && vd->hasGlobalStorage()) continue;
          co["d"] = local(v);
          co["n"] = v->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["cap"] = std::move(caps);
      Array in;
      for (const Expr* e : l->capture_inits()) if (e) in.push_back(expr(e));
      o["ci"] = std::move(in);
      return o;
    }
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: {
      auto c = cast<ExplicitCastExpr>(E);
      Object o = node("cast",E);
      const char* w = "c";
      if (isa<CXXStaticCastExpr>(E)) w = "static";
      else if (isa<CXXDynamicCastExpr>(E)) w = "dynamic";
      else if (isa<CXXConstCastExpr>(E)) w = "const";
      else if (isa<CXXReinterpretCastExpr>(E)) w = "reinterpret";
      else if (isa<CXXFunctionalCastExpr>(E)) w = "func";
      o["w"] = w;
      o["ck"] = c->getCastKindName();
      o["c"] = kids({c->getSubExpr()});
      return o;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      Object o = node("sizeof",E);
      auto s = cast<UnaryExprOrTypeTraitExpr>(E);
      o["at"] = X.type(s->getTypeOfArgument());
      if (!E->isValueDependent()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R,X.C)) o["v"] = ival(R.Val.getInt());
      }
      return o;
    }
    case Stmt::CXXThrowExprClass: {
      Object o = node("throw",E);
      if (auto s = cast<CXXThrowExpr>(E)->getSubExpr()) o["c"] = kids({s});
      return o;
    }
    case Stmt::OpaqueValueExprClass: {
      Object o = node("opaque",E);
      return o;
    }
    default: break;
    }
    Object o = node("expr",E);
    o["cls"] = E->getStmtClassName();
    Array a;
    for (const Stmt* c : E->children()) if (c) a.push_back(stmt(c));
    o["c"] = std::move(a);
    return o;
  }

  Value elem(const CFGElement& e)
  {
    if (auto s = e.getAs<CFGStmt>()) {
      const Stmt* S = s->getStmt();
      auto it = ids.find(S);
      if (it != ids.end()) {
        if (auto ds = dyn_cast<DeclStmt>(S))
          if (ds->isSingleDecl())
            if (auto v = dyn_cast<VarDecl>(ds->getSingleDecl())) {
              auto iv = vardeclId.find(v);
              if (iv != vardeclId.end()) return iv->second;
            }
        return it->second;
      }
      if (auto ds = dyn_cast<DeclStmt>(S))
        if (ds->isSingleDecl())
          if (auto v = dyn_cast<VarDecl>(ds->getSingleDecl())) {
            auto iv = vardeclId.find(v);
            if (iv != vardeclId.end()) return iv->second;
          }
      return nullptr;
    }
    if (auto in = e.getAs<CFGInitializer>()) {
      Object o;
      const CXXCtorInitializer* I = in->getInitializer();
      if (I->isAnyMemberInitializer()) o["fld"] = I->getAnyMember()->getNameAsString();
      else o["base"] = 1;
      if (I->getInit()) {
        auto it = ids.find(I->getInit());
        if (it != ids.end()) o["e"] = it->second;
      }
      return o;
    }
    if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
      Object o;
      o["dtor"] = local(d->getVarDecl());
      return o;
    }
    return nullptr;
  }

  int idOf(const Stmt* S)
  {
    if (!S) return -1;
    auto it = ids.find(S);
    return it == ids.end() ? -1 : it->second;
  }

  Value cfg(const Decl* D, Stmt* body)
  {
    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddInitializers = true;
    bo.AddImplicitDtors = true;
    bo.AddEHEdges = false;
    bo.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> g = CFG::buildCFG(D,body,&X.C,bo);
    if (!g) return nullptr;
    Array blocks;
    for (const CFGBlock* b : *g) {
      Object o;
      o["b"] = (int64_t)b->getBlockID();
      Array el;
      for (const CFGElement& e : *b) {
        Value v = elem(e);
        if (v.kind() != Value::Null) el.push_back(std::move(v));
      }
      o["e"] = std::move(el);
      if (const Stmt* t = b->getTerminatorStmt()) {
        o["t"] = idOf(t);
        o["tc"] = idOf(b->getTerminatorCondition(false));
        o["tk"] = t->getStmtClassName();
      }
      if (const Stmt* l = b->getLabel()) o["lab"] = idOf(l);
      if (const Stmt* lt = b->getLoopTarget()) o["lt"] = idOf(lt);
      if (b->hasNoReturnElement()) o["nr"] = 1;
      Array sc;
      for (auto s : b->succs()) {
        if (s.getReachableBlock()) sc.push_back((int64_t)s.getReachableBlock()->getBlockID());
        else if (s.getPossiblyUnreachableBlock()) sc.push_back(nullptr);
        else sc.push_back(nullptr);
      }
      o["s"] = std::move(sc);
      blocks.push_back(std::move(o));
    }
    Object r;
    r["entry"] = (int64_t)g->getEntry().getBlockID();
    r["exit"] = (int64_t)g->getExit().getBlockID();
    r["blocks"] = std::move(blocks);
    return r;
  }

  Value function(const FunctionDecl* F)
  {
    Object o;
    o["fn"] = X.fun(F);
    o["file"] = X.relFile(F->getLocation());
    o["l"] = (int64_t)X.line(F->getBeginLoc());
    o["el"] = (int64_t)X.line(F->getEndLoc());
    if (F->isDependentContext()) o["dep"] = 1;
    if (F->isTemplateInstantiation()) o["ti"] = 1;
    Array ps;
    for (const ParmVarDecl* p : F->parameters()) {
      Object po;
      po["d"] = local(p);
      po["n"] = p->getNameAsString();
      po["t"] = X.type(p->getType());
      if (p->hasDefaultArg()) po["da"] = 1;
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (auto cd = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (const CXXCtorInitializer* I : cd->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) {
          io["fld"] = I->getAnyMember()->getNameAsString();
        }
        else if (I->isBaseInitializer()) {
          io["base"] = X.type(QualType(I->getBaseClass(),0));
        }
        else if (I->isDelegatingInitializer()) io["dlg"] = 1;
        if (I->isWritten()) io["w"] = 1;
        if (I->isInClassMemberInitializer()) io["ici"] = 1;
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    Stmt* body = F->getBody();
    o["body"] = stmt(body);
    o["cfg"] = cfg(F,body);
    o["loc"] = std::move(localTab);
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
  Ctx& X;
public:
  Array functions, records, enums, gdefs;
  std::set<const Decl*> done;
  std::set<std::string> doneUsr;

  Visitor(Ctx& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  void dumpLambdas(FunDumper& d, int parent)
  {
    for (const LambdaExpr* l : d.lambdas) {
      FunDumper ld(X);
      const CXXMethodDecl* m = l->getCallOperator();
      if (!m || !m->getBody()) continue;
      Value v = ld.function(m);
      auto o = v.getAsObject();
      (*o)["lam"] = 1;
      (*o)["parent"] = parent;
      functions.push_back(std::move(v));
      dumpLambdas(ld,parent);
    }
  }

  bool VisitFunctionDecl(FunctionDecl* F)
  {
    if (!F->isThisDeclarationADefinition()) return true;
    if (!F->getBody() || F->isDefaulted() || F->isImplicit()) return true;
    if (!X.wanted(F->getLocation())) return true;
    if (auto M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!done.insert(F).second) return true;
    FunDumper d(X);
    Value v = d.function(F);
    functions.push_back(std::move(v));
    dumpLambdas(d,X.fun(F));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* R)
  {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!X.wanted(R->getLocation())) return true;
    if (!done.insert(R).second) return true;
    Object o;
    o["q"] = X.qname(R);
    o["u"] = X.usr(R);
    o["f"] = X.relFile(R->getLocation());
    o["l"] = (int64_t)X.line(R->getLocation());
    if (R->isDependentContext()) o["dep"] = 1;
    if (R->isUnion()) o["union"] = 1;
    if (R->isLocalClass()) o["local"] = 1;
    Array bs;
    for (const CXXBaseSpecifier& b : R->bases()) {
      Object bo;
      bo["t"] = X.type(b.getType());
      if (auto br = b.getType()->getAsCXXRecordDecl()) bo["q"] = X.qname(br);
      if (b.isVirtual()) bo["v"] = 1;
      bs.push_back(std::move(bo));
    }
    o["bases"] = std::move(bs);
    Array fs;
    for (const FieldDecl* f : R->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = X.type(f->getType());
      fo["l"] = (int64_t)X.line(f->getLocation());
      if (f->hasInClassInitializer()) fo["init"] = 1;
      if (f->isMutable()) fo["mut"] = 1;
      fo["acc"] = f->getAccess() == AS_private ? "private" : f->getAccess() == AS_protected ? "protected" : "public";
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (const CXXMethodDecl* m : R->methods()) {
      ms.push_back(X.fun(m));
    }
    for (const Decl* d : R->decls())
      if (auto ft = dyn_cast<FunctionTemplateDecl>(d))
        ms.push_back(X.fun(ft->getTemplatedDecl()));
    o["methods"] = std::move(ms);
    if (auto d = R->getDestructor()) {
      if (d->isVirtual()) o["vdtor"] = 1;
      if (d->isUserProvided()) o["udtor"] = 1;
    }
    if (R->isPolymorphic()) o["poly"] = 1;
    if (!R->isDependentContext()) {
      if (R->isAbstract()) o["abs"] = 1;
      auto flag = [&](const char* k, bool v) { if (v) o[k] = 1; };
      flag("cc_del",!R->hasSimpleCopyConstructor() && R->defaultedCopyConstructorIsDeleted());
      flag("agg",R->isAggregate());
      flag("pod",R->isPOD());
    }
    records.push_back(std::move(o));
    return true;
  }

  bool VisitEnumDecl(EnumDecl* E)
  {
    if (!E->isThisDeclarationADefinition()) return true;
    if (!X.wanted(E->getLocation())) return true;
    if (!done.insert(E).second) return true;
    Object o;
    o["q"] = X.qname(E);
    o["f"] = X.relFile(E->getLocation());
    o["l"] = (int64_t)X.line(E->getLocation());
    Array cs;
    for (const EnumConstantDecl* c : E->enumerators()) {
      Object co;
      co["n"] = X.qname(c);
      co["v"] = ival(c->getInitVal());
      cs.push_back(std::move(co));
    }
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl* V)
  {
    if (!V->hasGlobalStorage()) return true;
    if (!X.wanted(V->getLocation())) return true;
    int g = X.global(V);
    if (V->isThisDeclarationADefinition() && !V->isStaticLocal()) {
      Object o;
      o["g"] = g;
      if (V->getInit() && !V->getInit()->isValueDependent()) {
        FunDumper d(X);
        o["init"] = d.expr(V->getInit());
        // lambdas in globals are ignored
      }
      if (!doneUsr.insert(X.usr(V)).second) return true;
      gdefs.push_back(std::move(o));
    }
    return true;
  }
};

class Consumer : public ASTConsumer
{
  std::string file;
  CompilerInstance& CI;
public:
  Consumer(StringRef f, CompilerInstance& ci) : file(f.str()), CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override
  {
    Ctx X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["tu"] = file;
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    Array hs;
    for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it) {
      std::string s = it->first.getName().str();
      llvm::SmallString<256> q(s);
      llvm::sys::path::remove_dots(q,true);
      s = q.str().str();
      if (s.compare(0,gRoot.size(),gRoot) == 0) hs.push_back(s.substr(gRoot.size()));
    }
    o["deps"] = std::move(hs);
    o["functions"] = std::move(V.functions);
    o["records"] = std::move(V.records);
    o["enums"] = std::move(V.enums);
    o["gdefs"] = std::move(V.gdefs);
    o["types"] = std::move(X.types);
    o["funs"] = std::move(X.funs);
    o["globals"] = std::move(X.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut,ec);
    os << Value(std::move(o));
    os << "\n";
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override
  { return std::make_unique<Consumer>(f,CI); }
};

class Factory : public tooling::FrontendActionFactory
{
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

}

// usage: extract ROOT/ OUT.json [-H] FILE -- compiler args
int main(int argc, char** argv)
{
  gRoot = argv[1];
  if (gRoot.back() != '/') gRoot += '/';
  gOut = argv[2];
  int i = 3;
  if (std::string(argv[i]) == "-H") { gHeaders = true; i++; }
  std::string file = argv[i++];
  std::vector<std::string> args;
  if (i < argc && std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",args);
  tooling::ClangTool T(db,{file});
  Factory F;
  return T.run(&F);
}
