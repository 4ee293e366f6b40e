// AST extractor: parses one translation unit with clang and writes a compact JSON description of every
// function body and record that is located under one of the given path prefixes (templates: instantiations only).
// usage: extract OUT.json PREFIX[,PREFIX...] -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::string OutPath;
static std::vector<std::string> Prefixes;

struct Dumper
{
  ASTContext & C;
  SourceManager & SM;
  std::map<const void *, int> TypeIds;
  std::map<std::string, int> TypeStr;
  J::Array Types;
  std::map<const Decl *, int> DeclIds;
  std::map<std::string, std::string> FileCache;
  Dumper(ASTContext & c) : C(c), SM(c.getSourceManager()) {}

  int did(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = DeclIds.find(d);
    if(it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[d] = n;
    return n;
  }
  std::string fileOf(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  bool inScope(SourceLocation l)
  {
    std::string f = fileOf(l);
    for(auto & p : Prefixes)
      if(f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

  // qualified name without template arguments and without inline/anonymous namespaces
  std::string qname(const NamedDecl * d)
  {
    std::string n;
    if(auto * cd = dyn_cast<CXXConstructorDecl>(d)) n = cd->getParent()->getNameAsString();
    else if(isa<CXXConversionDecl>(d)) n = "operator_conv";
    else n = d->getNameAsString();
    const DeclContext * dc = d->getDeclContext();
    while(dc && !dc->isTranslationUnit())
    {
      if(auto * ns = dyn_cast<NamespaceDecl>(dc))
      {
        if(!ns->isAnonymousNamespace() && !ns->isInline()) n = ns->getNameAsString() + "::" + n;
      }
      else if(auto * rd = dyn_cast<RecordDecl>(dc))
        n = rd->getNameAsString() + "::" + n;
      else if(auto * fd = dyn_cast<FunctionDecl>(dc))
        n = fd->getNameAsString() + "()::" + n;
      dc = dc->getParent();
    }
    return n;
  }
  J::Value targ(const TemplateArgument & a)
  {
    switch(a.getKind())
    {
      case TemplateArgument::Type: return J::Object{{"t", type(a.getAsType())}};
      case TemplateArgument::Integral:
      {
        llvm::SmallString<32> s;
        a.getAsIntegral().toString(s, 10);
        return J::Object{{"i", std::string(s.str())}};
      }
      case TemplateArgument::Pack:
      {
        J::Array r;
        for(auto & p : a.pack_elements()) r.push_back(targ(p));
        return J::Object{{"p", std::move(r)}};
      }
      default: return J::Object{{"x", 1}};
    }
  }
  int addType(J::Object o)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    os << J::Value(J::Object(o));
    os.flush();
    auto it = TypeStr.find(s);
    if(it != TypeStr.end()) return it->second;
    int n = Types.size();
    Types.push_back(std::move(o));
    TypeStr[s] = n;
    return n;
  }
  int type(QualType q)
  {
    q = q.getCanonicalType();
    auto it = TypeIds.find(q.getAsOpaquePtr());
    if(it != TypeIds.end()) return it->second;
    int r;
    bool cst = q.isConstQualified();
    const Type * t = q.getTypePtr();
    if(t->isReferenceType())
    {
      QualType p = t->getPointeeType();
      r = addType(J::Object{{"k", "ref"}, {"to", type(p.getUnqualifiedType())}, {"const", p.isConstQualified()}, {"rv", t->isRValueReferenceType()}});
    }
    else if(t->isPointerType())
    {
      QualType p = t->getPointeeType();
      r = addType(J::Object{{"k", "ptr"}, {"to", p->isFunctionType() ? -1 : type(p.getUnqualifiedType())}, {"const", p.isConstQualified()}});
    }
    else if(t->isBooleanType()) r = addType(J::Object{{"k", "bool"}});
    else if(t->isEnumeralType()) r = addType(J::Object{{"k", "enum"}, {"n", qname(t->castAs<EnumType>()->getDecl())}});
    else if(t->isIntegerType())
      r = addType(J::Object{{"k", "int"}, {"u", t->isUnsignedIntegerType()}, {"w", (int)C.getTypeSize(q)}});
    else if(t->isRealFloatingType()) r = addType(J::Object{{"k", "float"}, {"w", (int)C.getTypeSize(q)}});
    else if(t->isVoidType()) r = addType(J::Object{{"k", "void"}});
    else if(auto * rt = t->getAs<RecordType>())
    {
      auto * rd = rt->getDecl();
      J::Object o{{"k", "rec"}, {"n", qname(rd)}, {"lambda", false}};
      if(auto * cr = dyn_cast<CXXRecordDecl>(rd))
        if(cr->isLambda()) { o["lambda"] = true; o["n"] = "lambda"; o["lid"] = did(cr); }
      // template arguments of the record and (outermost-last) of enclosing class specialisations
      J::Array as;
      if(auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
        for(auto & a : sp->getTemplateArgs().asArray()) as.push_back(targ(a));
      else
      {
        for(const DeclContext * dc = rd->getDeclContext(); dc; dc = dc->getParent())
          if(auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(dc))
          {
            for(auto & a : sp->getTemplateArgs().asArray()) as.push_back(targ(a));
            break;
          }
      }
      o["a"] = std::move(as);
      r = addType(std::move(o));
    }
    else if(auto * at = C.getAsConstantArrayType(q))
      r = addType(J::Object{{"k", "carr"}, {"to", type(at->getElementType())}, {"n", (int64_t)at->getSize().getZExtValue()}});
    else
      r = addType(J::Object{{"k", "other"}, {"n", q.getAsString()}});
    (void)cst;
    TypeIds[q.getAsOpaquePtr()] = r;
    return r;
  }

  J::Object node(const char * k, const Expr * e)
  {
    return J::Object{{"k", k}, {"t", type(e->getType())}, {"l", line(e->getExprLoc())}};
  }
  J::Value fnref(const FunctionDecl * f)
  {
    J::Object o{{"q", qname(f)}};
    const FunctionDecl * def = nullptr;
    if(f->hasBody(def) && def && (inScope(def->getLocation()))) o["fn"] = did(f);
    J::Array ta;
    if(auto * as = f->getTemplateSpecializationArgs())
      for(auto & a : as->asArray()) ta.push_back(targ(a));
    if(!ta.empty()) o["ta"] = std::move(ta);
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      o["virt"] = m->isVirtual();
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      o["cls"] = type(QualType(m->getParent()->getTypeForDecl(), 0));
    }
    J::Array ps;
    for(auto * p : f->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    return J::Value(std::move(o));
  }
  J::Array args(llvm::ArrayRef<const Expr *> as)
  {
    J::Array r;
    for(auto * a : as)
    {
      if(auto * d = dyn_cast<CXXDefaultArgExpr>(a)) r.push_back(expr(d->getExpr()));
      else r.push_back(expr(a));
    }
    return r;
  }
  template<class T> J::Array callArgs(const T * c, unsigned from = 0)
  {
    std::vector<const Expr *> v;
    for(unsigned i = from; i < c->getNumArgs(); i++) v.push_back(c->getArg(i));
    return args(v);
  }
  J::Value unknown(const Expr * e, const char * why)
  {
    auto o = node("unk", e);
    o["c"] = e->getStmtClassName();
    o["why"] = why;
    J::Array subs;
    for(auto * s : e->children())
      if(s)
        if(auto * x = dyn_cast<Expr>(s)) subs.push_back(expr(x));
    o["subs"] = std::move(subs);
    return J::Value(std::move(o));
  }

  J::Value expr(const Expr * e)
  {
    if(!e) return nullptr;
    // strip
    for(;;)
    {
      if(auto * x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if(auto * x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if(auto * x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if(auto * x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if(auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if(auto * x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else break;
    }
    // integer constants that are not plain literals (template arguments, enum values, size constants)
    if(!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)
       && !isa<CXXBoolLiteralExpr>(e))
    {
      Expr::EvalResult r;
      if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
      {
        auto o = node("int", e);
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = std::string(s.str());
        return J::Value(std::move(o));
      }
    }
    if(auto * x = dyn_cast<IntegerLiteral>(e))
    {
      auto o = node("int", e);
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<FloatingLiteral>(e))
    {
      auto o = node("flt", e);
      llvm::SmallString<40> s;
      x->getValue().toString(s, 0, 0);
      o["v"] = std::string(s.str());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      auto o = node("bool", e);
      o["v"] = x->getValue();
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<clang::StringLiteral>(e))
    {
      auto o = node("str", e);
      o["v"] = x->isOrdinary() ? x->getString().str() : std::string();
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CharacterLiteral>(e))
    {
      auto o = node("chr", e);
      o["v"] = (int64_t)x->getValue();
      return J::Value(std::move(o));
    }
    if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return J::Value(node("null", e));
    if(isa<CXXThisExpr>(e)) return J::Value(node("this", e));
    if(auto * x = dyn_cast<ImplicitCastExpr>(e)) return cast(x);
    if(auto * x = dyn_cast<ExplicitCastExpr>(e)) return cast(x);
    if(auto * x = dyn_cast<DeclRefExpr>(e))
    {
      auto o = node("ref", e);
      const ValueDecl * d = x->getDecl();
      o["n"] = d->getNameAsString();
      o["id"] = did(d);
      if(auto * f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["f"] = fnref(f); }
      else if(auto * v = dyn_cast<VarDecl>(d))
      {
        o["dk"] = v->isLocalVarDeclOrParm() ? "local" : "global";
        if(!v->isLocalVarDeclOrParm()) o["q"] = qname(v);
        if(v->isLocalVarDecl() && v->isStaticLocal()) o["dk"] = "static";
        if((v->isUsableInConstantExpressions(C) || (!isa<ParmVarDecl>(v) && v->getType().isConstQualified() && v->getAnyInitializer()))
           && e->getType()->isRealFloatingType())
        {
          // constexpr floating constants: exact value
          llvm::APFloat f(0.0);
          if(e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects) || (v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent() && v->getAnyInitializer()->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)))
          {
            llvm::SmallString<40> s;
            f.toString(s, 0, 0);
            o["cv"] = std::string(s.str());
          }
        }
        else if(v->isUsableInConstantExpressions(C) && e->getType()->isIntegralOrEnumerationType() && !v->getType()->isReferenceType())
        {
          Expr::EvalResult r;
          if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
          {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["civ"] = std::string(s.str());
          }
        }
      }
      else if(isa<EnumConstantDecl>(d)) o["dk"] = "enumc";
      else if(isa<BindingDecl>(d)) o["dk"] = "binding";
      else o["dk"] = "other";
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<MemberExpr>(e))
    {
      auto o = node("mem", e);
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["o"] = expr(x->getBase());
      o["arrow"] = x->isArrow();
      if(auto * m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) o["f"] = fnref(m);
      else if(auto * v = dyn_cast<VarDecl>(x->getMemberDecl()))
      {
        (void)v;
        o["static"] = true;
      }
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      auto o = node("op", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      if(auto * f = x->getDirectCallee()) o["f"] = fnref(f);
      o["args"] = callArgs(x);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXMemberCallExpr>(e))
    {
      auto o = node("mcall", e);
      if(auto * m = x->getMethodDecl()) o["f"] = fnref(m);
      const Expr * callee = x->getCallee()->IgnoreParens();
      if(auto * me = dyn_cast<MemberExpr>(callee))
      {
        o["o"] = expr(me->getBase());
        o["arrow"] = me->isArrow();
        o["qual"] = me->hasQualifier();
      }
      else o["o"] = expr(callee);
      o["args"] = callArgs(x);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CallExpr>(e))
    {
      if(auto * f = x->getDirectCallee())
      {
        // floating constants such as numeric_limits<double>::max()
        if(e->getType()->isRealFloatingType() && f->isConstexpr() && x->getNumArgs() == 0)
        {
          llvm::APFloat v(0.0);
          if(e->EvaluateAsFloat(v, C, Expr::SE_NoSideEffects))
          {
            auto o = node("flt", e);
            llvm::SmallString<40> s;
            v.toString(s, 0, 0);
            o["v"] = std::string(s.str());
            return J::Value(std::move(o));
          }
        }
        auto o = node("call", e);
        o["f"] = fnref(f);
        o["args"] = callArgs(x);
        return J::Value(std::move(o));
      }
      auto o = node("icall", e);
      o["o"] = expr(x->getCallee());
      o["args"] = callArgs(x);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXConstructExpr>(e))
    {
      auto o = node("ctor", e);
      o["f"] = fnref(x->getConstructor());
      o["args"] = callArgs(x);
      o["copy"] = x->getConstructor()->isCopyOrMoveConstructor();
      o["list"] = x->isListInitialization();
      o["dflt"] = x->getConstructor()->isDefaultConstructor();
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXScalarValueInitExpr>(e)) return J::Value(node("zinit", x));
    if(auto * x = dyn_cast<ImplicitValueInitExpr>(e)) return J::Value(node("zinit", x));
    if(auto * x = dyn_cast<InitListExpr>(e))
    {
      auto o = node("ilist", e);
      J::Array as;
      for(auto * i : x->inits()) as.push_back(expr(i));
      o["args"] = std::move(as);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CompoundAssignOperator>(e))
    {
      auto o = node("cassign", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationResultType());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<BinaryOperator>(e))
    {
      auto o = node(x->isAssignmentOp() ? "assign" : "bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<UnaryOperator>(e))
    {
      auto o = node("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["a"] = expr(x->getSubExpr());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<ConditionalOperator>(e))
    {
      auto o = node("cond", e);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<ArraySubscriptExpr>(e))
    {
      auto o = node("sub", e);
      o["a"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXNewExpr>(e))
    {
      auto o = node("new", e);
      o["at"] = type(x->getAllocatedType());
      o["init"] = expr(x->getInitializer());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXThrowExpr>(e))
    {
      auto o = node("throw", e);
      o["a"] = expr(x->getSubExpr());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<LambdaExpr>(e))
    {
      auto o = node("lambda", e);
      J::Array caps;
      for(auto & c : x->captures())
      {
        J::Object co;
        if(c.capturesThis()) { co["this"] = true; }
        else if(c.capturesVariable())
        {
          auto * v = c.getCapturedVar();
          co["n"] = v->getNameAsString();
          co["id"] = did(v);
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if(auto * vd = dyn_cast<VarDecl>(v))
            if(vd->isInitCapture()) co["init"] = expr(vd->getInit());
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      CXXMethodDecl * m = x->getCallOperator();
      if(x->isGenericLambda())
      {
        // every instantiation of the generic call operator
        J::Array insts;
        if(auto * ft = x->getLambdaClass()->getLambdaCallOperator()->getDescribedFunctionTemplate())
          for(auto * s : ft->specializations()) if(s->getBody()) insts.push_back(function(s));
        o["insts"] = std::move(insts);
        o["generic"] = true;
      }
      else
        o["fnbody"] = function(m);
      o["lid"] = did(x->getLambdaClass());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) return unknown(x, "sizeof");
    return unknown(e, "kind");
  }
  J::Value cast(const CastExpr * x)
  {
    auto k = x->getCastKind();
    switch(k)
    {
      case CK_FloatingToIntegral:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
      case CK_IntegralToFloating:
      case CK_FloatingCast:
      {
        auto o = node("cast", x);
        o["ck"] = x->getCastKindName();
        o["a"] = expr(x->getSubExpr());
        return J::Value(std::move(o));
      }
      case CK_IntegralCast:
      {
        auto o = node("cast", x);
        o["ck"] = x->getCastKindName();
        o["a"] = expr(x->getSubExpr());
        return J::Value(std::move(o));
      }
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
        return expr(x->getSubExpr());
      case CK_ToVoid:
      {
        auto o = node("cast", x);
        o["ck"] = "ToVoid";
        o["a"] = expr(x->getSubExpr());
        return J::Value(std::move(o));
      }
      default: return expr(x->getSubExpr());
    }
  }
  J::Value var(const VarDecl * v)
  {
    J::Object o{{"n", v->getNameAsString()}, {"id", did(v)}, {"t", type(v->getType())}, {"l", line(v->getLocation())}};
    if(v->getInit()) o["init"] = expr(v->getInit());
    if(v->isStaticLocal()) o["static"] = true;
    if(v->getType().isConstQualified()) o["cst"] = true;
    if(auto * dd = dyn_cast<DecompositionDecl>(v))
    {
      J::Array bs;
      for(auto * b : dd->bindings()) bs.push_back(J::Object{{"n", b->getNameAsString()}, {"id", did(b)}, {"e", expr(b->getBinding())}});
      o["bind"] = std::move(bs);
    }
    return J::Value(std::move(o));
  }
  J::Object snode(const char * k, const Stmt * s) { return J::Object{{"k", k}, {"l", line(s->getBeginLoc())}}; }
  J::Value stmt(const Stmt * s)
  {
    if(!s) return nullptr;
    if(auto * x = dyn_cast<CompoundStmt>(s))
    {
      auto o = snode("block", s);
      J::Array b;
      for(auto * c : x->body()) b.push_back(stmt(c));
      o["b"] = std::move(b);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<DeclStmt>(s))
    {
      auto o = snode("decl", s);
      J::Array vs;
      for(auto * d : x->decls())
        if(auto * v = dyn_cast<VarDecl>(d)) vs.push_back(var(v));
      o["v"] = std::move(vs);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<IfStmt>(s))
    {
      if(x->isConstexpr())
      {
        if(auto c = x->getNondiscardedCase(C)) return *c ? stmt(*c) : J::Value(snode("null", s));
      }
      auto o = snode("if", s);
      if(x->getInit()) o["init"] = stmt(x->getInit());
      if(x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      if(x->getElse()) o["b"] = stmt(x->getElse());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<ForStmt>(s))
    {
      auto o = snode("for", s);
      if(x->getInit()) o["init"] = stmt(x->getInit());
      if(x->getCond()) o["c"] = expr(x->getCond());
      if(x->getInc()) o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<WhileStmt>(s))
    {
      auto o = snode("while", s);
      if(x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<DoStmt>(s))
    {
      auto o = snode("do", s);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXForRangeStmt>(s))
    {
      auto o = snode("rfor", s);
      if(x->getInit()) o["init"] = stmt(x->getInit());
      o["r"] = expr(x->getRangeInit());
      o["v"] = var(x->getLoopVariable());
      o["b"] = stmt(x->getBody());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<ReturnStmt>(s))
    {
      auto o = snode("ret", s);
      if(x->getRetValue()) o["e"] = expr(x->getRetValue());
      return J::Value(std::move(o));
    }
    if(isa<BreakStmt>(s)) return J::Value(snode("break", s));
    if(isa<ContinueStmt>(s)) return J::Value(snode("cont", s));
    if(isa<NullStmt>(s)) return J::Value(snode("null", s));
    if(auto * x = dyn_cast<SwitchStmt>(s))
    {
      auto o = snode("switch", s);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CaseStmt>(s))
    {
      auto o = snode("case", s);
      o["v"] = expr(x->getLHS());
      o["b"] = stmt(x->getSubStmt());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<DefaultStmt>(s))
    {
      auto o = snode("default", s);
      o["b"] = stmt(x->getSubStmt());
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<CXXTryStmt>(s))
    {
      auto o = snode("try", s);
      o["b"] = stmt(x->getTryBlock());
      J::Array hs;
      for(unsigned i = 0; i < x->getNumHandlers(); i++) hs.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(hs);
      return J::Value(std::move(o));
    }
    if(auto * x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if(auto * x = dyn_cast<Expr>(s))
    {
      auto o = snode("expr", s);
      o["e"] = expr(x);
      return J::Value(std::move(o));
    }
    auto o = snode("unk", s);
    o["c"] = s->getStmtClassName();
    return J::Value(std::move(o));
  }
  J::Value function(const FunctionDecl * f)
  {
    J::Object o{{"q", qname(f)}, {"id", did(f)}, {"file", fileOf(f->getLocation())}, {"line", line(f->getLocation())}};
    o["end"] = line(f->getEndLoc());
    J::Array ps;
    for(auto * p : f->parameters())
      ps.push_back(J::Object{{"n", p->getNameAsString()}, {"id", did(p)}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    o["ret"] = type(f->getReturnType());
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = type(QualType(m->getParent()->getTypeForDecl(), 0));
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      o["static"] = m->isStatic();
      o["access"] = (int)m->getAccess();
    }
    J::Array ta;
    if(auto * as = f->getTemplateSpecializationArgs())
      for(auto & a : as->asArray()) ta.push_back(targ(a));
    if(!ta.empty()) o["ta"] = std::move(ta);
    if(auto * c = dyn_cast<CXXConstructorDecl>(f))
    {
      o["ctor"] = true;
      o["implicit"] = c->isImplicit() || c->isDefaulted();
      J::Array is;
      for(auto * i : c->inits())
      {
        J::Object io;
        if(i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getNameAsString();
        else if(i->isBaseInitializer()) io["base"] = true;
        else io["deleg"] = true;
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if(f->doesThisDeclarationHaveABody() && !f->isDefaulted()) o["body"] = stmt(f->getBody());
    return J::Value(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
  Dumper & D;
  J::Array Fns, Recs;
  std::set<const Decl *> Seen;
  Visitor(Dumper & d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl * f)
  {
    if(!f->isThisDeclarationADefinition() || f->isDependentContext() || f->isDeleted()) return true;
    if(!D.inScope(f->getLocation())) return true;
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
      if(m->getParent()->isLambda()) return true;
    if(!Seen.insert(f->getCanonicalDecl()).second) return true;
    if(!f->hasBody() && !isa<CXXConstructorDecl>(f)) return true;
    Fns.push_back(D.function(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * r)
  {
    if(!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    const CXXRecordDecl * pat = r->getTemplateInstantiationPattern();
    if(!D.inScope(pat ? pat->getLocation() : r->getLocation())) return true;
    if(!Seen.insert(r).second) return true;
    J::Object o{{"q", D.qname(r)}, {"t", D.type(QualType(r->getTypeForDecl(), 0))}, {"file", D.fileOf(r->getLocation())}, {"line", D.line(r->getLocation())}};
    J::Array fs, bs, ms;
    for(auto * f : r->fields())
    {
      J::Object fo{{"n", f->getNameAsString()}, {"t", D.type(f->getType())}, {"l", D.line(f->getLocation())}, {"access", (int)f->getAccess()}};
      if(f->hasInClassInitializer())
      {
        if(auto * e = f->getInClassInitializer()) fo["init"] = D.expr(e);
      }
      fs.push_back(std::move(fo));
    }
    for(auto & b : r->bases()) bs.push_back(D.type(b.getType()));
    for(auto * m : r->methods())
      if(!m->isImplicit())
        ms.push_back(J::Object{{"n", m->getNameAsString()}, {"const", m->isConst()}, {"virt", m->isVirtual()}, {"pure", m->isPureVirtual()},
                               {"access", (int)m->getAccess()}, {"ret", D.type(m->getReturnType())}, {"id", D.did(m)}, {"static", m->isStatic()}});
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    Recs.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext & C) override
  {
    if(C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    J::Object root;
    root["functions"] = std::move(V.Fns);
    root["records"] = std::move(V.Recs);
    root["types"] = std::move(D.Types);
    os << J::Value(std::move(root));
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char ** argv)
{
  if(argc < 5) return 2;
  OutPath = argv[1];
  std::string p = argv[2], cur;
  for(char c : p + ",")
    if(c == ',') { if(!cur.empty()) Prefixes.push_back(cur); cur.clear(); }
    else cur += c;
  std::vector<std::string> cmd{"clang++"};
  for(int i = 4; i < argc; i++) cmd.push_back(argv[i]);
  llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), fm.get());
  return inv.run() ? 0 : 1;
}
