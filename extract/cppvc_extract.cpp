// cppvc_extract: dumps the fully instantiated bodies of every function reachable from the driver's
// vc_root* functions (stopping at namespace std and compiler built-ins) as a JSON program.
// It performs no simplification beyond: dropping parentheses / cleanup wrappers / implicit no-op casts,
// folding integral constant expressions that the compiler itself can evaluate (which selects `if constexpr`).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string OutFile;

namespace {
class Dumper {
  ASTContext& C;
  SourceManager& SM;
  std::map<const Type*, int> typeIds;
  json::Array types;
  std::map<const Decl*, int> declIds;
  std::map<const FunctionDecl*, int> fnIds;
  std::vector<const FunctionDecl*> fnList;
  std::deque<const FunctionDecl*> work;
  std::deque<const CXXRecordDecl*> later;  // library-callable members of these classes are emitted too
  std::set<const FunctionDecl*> queued;
public:
  json::Array functions;
  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = (int)declIds.size() + 1;
    declIds[d] = id;
    return id;
  }
  std::string qname(const NamedDecl* d) {
    if (auto* m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) return "lambda::" + m->getNameAsString();
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy pp(C.getLangOpts());
    pp.SuppressUnwrittenScope = true;
    pp.SuppressInlineNamespace = true;
    pp.SuppressTemplateArgsInCXXConstructors = true;
    d->printQualifiedName(os, pp);
    os.flush();
    return s;
  }
  std::string loc(SourceLocation l) {
    if (l.isInvalid()) return "";
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    size_t i = f.find("/include/graph/");
    if (i != std::string::npos) f = f.substr(i + 15);
    else { i = f.rfind('/'); if (i != std::string::npos) f = f.substr(i + 1); }
    return f + ":" + std::to_string(p.getLine());
  }
  static bool inStd(const Decl* d) {
    const DeclContext* dc = d->getDeclContext();
    const NamespaceDecl* top = nullptr;
    for (; dc; dc = dc->getParent())
      if (auto* n = dyn_cast<NamespaceDecl>(dc)) top = n;
    if (!top) {
      return false;
    }
    StringRef n = top->getName();
    return n == "std" || n == "__gnu_cxx" || n == "tl" || n == "__cxxabiv1" || n.starts_with("__");
  }
  bool isLib(const FunctionDecl* f) {
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) {
        // a lambda is "ours" when it is written outside system headers
        return SM.isInSystemHeader(SM.getExpansionLoc(f->getLocation()));
      }
    if (inStd(f)) return true;
    if (!isa<CXXMethodDecl>(f) && f->getDeclContext()->getRedeclContext()->isTranslationUnit() &&
        SM.isInSystemHeader(SM.getExpansionLoc(f->getLocation())))
      return true;
    return false;
  }
  int fnId(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def)) f = def;
    else f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    int id = (int)fnList.size();
    fnIds[f] = id;
    fnList.push_back(f);
    if (!isLib(f)) work.push_back(f);
    return id;
  }
  int typeId(QualType q) {
    q = q.getCanonicalType().getUnqualifiedType();
    const Type* t = q.getTypePtr();
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[t] = id;
    types.push_back(nullptr);
    json::Object o;
    std::string s;
    PrintingPolicy pp(C.getLangOpts());
    pp.SuppressTagKeyword = true;
    s = QualType(t, 0).getAsString(pp);
    if (s.size() > 600) s = s.substr(0, 600);
    o["s"] = s;
    if (auto* r = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(t);
      o["to"] = typeId(r->getPointeeType());
      o["const"] = r->getPointeeType().isConstQualified();
    } else if (auto* p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = typeId(p->getPointeeType());
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (t->isEnumeralType()) {
      auto* ed = t->castAs<EnumType>()->getDecl();
      o["k"] = "enum";
      o["name"] = qname(ed);
      if (!ed->getIntegerType().isNull()) {
        o["w"] = (int64_t)C.getTypeSize(t);
        o["signed"] = ed->getIntegerType()->isSignedIntegerType();
      }
      json::Array vals;
      for (auto* e : ed->enumerators()) vals.push_back(json::Array{e->getNameAsString(), (int64_t)e->getInitVal().getExtValue()});
      o["vals"] = std::move(vals);
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(t);
      o["signed"] = t->isSignedIntegerType();
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSize(t);
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["n"] = (int64_t)a->getSize().getZExtValue();
      o["to"] = typeId(a->getElementType());
    } else if (auto* rt = dyn_cast<RecordType>(t)) {
      auto* rd = rt->getDecl();
      o["k"] = "rec";
      auto* cd = dyn_cast<CXXRecordDecl>(rd);
      if (cd && cd->getDefinition()) { cd = cd->getDefinition(); rd = cd; }
      if (cd && cd->isLambda()) {
        o["name"] = "lambda";
        o["id"] = declId(cd);
        o["loc"] = loc(cd->getLocation());
        json::Array ops;
        if (auto* ft = cd->getDependentLambdaCallOperator()) {
          for (auto* sp : ft->specializations()) if (sp->hasBody()) ops.push_back(fnId(sp));
        } else if (auto* m = cd->getLambdaCallOperator()) ops.push_back(fnId(m));
        o["ops"] = std::move(ops);
      } else o["name"] = qname(rd);
      o["std"] = inStd(rd);
      json::Array args;
      auto addArg = [&](auto&& self, const TemplateArgument& ta) -> void {
        switch (ta.getKind()) {
        case TemplateArgument::Type: args.push_back(json::Object{{"t", typeId(ta.getAsType())}}); break;
        case TemplateArgument::Integral: args.push_back(json::Object{{"v", llvm::toString(ta.getAsIntegral(), 10)}}); break;
        case TemplateArgument::Pack: for (auto& x : ta.pack_elements()) self(self, x); break;
        case TemplateArgument::Template: args.push_back(json::Object{{"tt", ta.getAsTemplate().getAsTemplateDecl() ? ta.getAsTemplate().getAsTemplateDecl()->getNameAsString() : ""}}); break;
        default: args.push_back(json::Object{}); break;
        }
      };
      if (auto* sp = dyn_cast_or_null<ClassTemplateSpecializationDecl>(cd))
        for (auto& ta : sp->getTemplateArgs().asArray()) addArg(addArg, ta);
      o["args"] = std::move(args);
      json::Array fields, bases;
      if (rd->getDefinition()) {
        if (!inStd(rd) || (cd && (rd->getName() == "pair"))) {
          for (auto* f : rd->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", typeId(f->getType())}, {"id", declId(f)}};
            fields.push_back(std::move(fo));
          }
          if (cd)
            for (auto& b : cd->bases()) bases.push_back(typeId(b.getType()));
        }
        if (cd && !cd->isDependentType()) { o["aggr"] = cd->isAggregate(); o["empty"] = cd->isEmpty(); }
      } else o["incomplete"] = true;
      o["fields"] = std::move(fields);
      o["bases"] = std::move(bases);
      if (cd && cd->getDefinition() && !inStd(rd) && !cd->isLambda() && !cd->isDependentType()) later.push_back(cd);
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }

  const Expr* strip(const Expr* e) {
    while (true) {
      if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
      else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        auto ck = p->getCastKind();
        if (ck == CK_NoOp || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) e = p->getSubExpr();
        else return e;
      } else if (auto* p = dyn_cast<CXXFunctionalCastExpr>(e)) {
        auto ck = p->getCastKind();
        if (ck == CK_NoOp || ck == CK_ConstructorConversion) e = p->getSubExpr(); else return e;
      } else if (auto* p = dyn_cast<ExplicitCastExpr>(e)) {
        auto ck = p->getCastKind();
        if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) e = p->getSubExpr(); else return e;
      } else return e;
    }
  }
  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto* e : r) a.push_back(expr(e));
    return a;
  }
  json::Value expr(const Expr* e0) {
    if (!e0) return nullptr;
    bool tmp = false;
    { const Expr* x = e0; while (true) { if (auto* m = dyn_cast<MaterializeTemporaryExpr>(x)) { tmp = true; break; } if (auto* p = dyn_cast<ExprWithCleanups>(x)) x = p->getSubExpr(); else if (auto* p = dyn_cast<ParenExpr>(x)) x = p->getSubExpr(); else if (auto* p = dyn_cast<ImplicitCastExpr>(x); p && p->getCastKind()==CK_NoOp) x = p->getSubExpr(); else break; } }
    const Expr* e = strip(e0);
    json::Object o;
    o["t"] = typeId(e->getType());
    o["l"] = loc(e->getBeginLoc());
    if (e->isLValue()) o["lv"] = 1; else if (e->isXValue()) o["lv"] = 2;
    if (tmp) o["tmp"] = 1;
    if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue()) {
      QualType q = e->getType();
      if (q->isIntegralOrEnumerationType()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
          o["k"] = "const";
          o["v"] = llvm::toString(r.Val.getInt(), 10);
          return std::move(o);
        }
      } else if (q->isRealFloatingType()) {
        llvm::APFloat f(0.0);
        if (e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)) {
          o["k"] = "fconst";
          llvm::SmallString<64> s;
          f.toString(s, 40);
          o["v"] = std::string(s.str());
          return std::move(o);
        }
      }
    }
    if (auto* r = dyn_cast<DeclRefExpr>(e)) {
      auto* d = r->getDecl();
      o["k"] = "ref";
      o["id"] = declId(d);
      o["n"] = d->getNameAsString();
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["fn"] = fnId(f); o["q"] = qname(f); }
      else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["q"] = qname(v);
        if (v->hasGlobalStorage()) o["glob"] = true;
        o["vt"] = typeId(v->getType());
      }
      else if (isa<BindingDecl>(d)) o["bind"] = true;
    } else if (auto* m = dyn_cast<MemberExpr>(e)) {
      o["k"] = "member";
      o["n"] = m->getMemberDecl()->getNameAsString();
      o["arrow"] = m->isArrow();
      o["base"] = expr(m->getBase());
      if (isa<VarDecl>(m->getMemberDecl())) o["static"] = true;
      if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) { o["fn"] = fnId(f); o["q"] = qname(f); }
    } else if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto* md = mc->getMethodDecl()) { o["fn"] = fnId(md); o["q"] = qname(md); }
      o["m"] = true;
      if (auto* ob = mc->getImplicitObjectArgument()) { o["obj"] = expr(ob); if (ob->getType()->isPointerType()) o["arrow"] = true; }
      o["args"] = exprs(mc->arguments());
    } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(oc->getOperator());
      if (auto* fd = oc->getDirectCallee()) {
        o["fn"] = fnId(fd);
        o["q"] = qname(fd);
        auto* md = dyn_cast<CXXMethodDecl>(fd);
        if (md && md->isInstance()) {
          o["m"] = true;
          o["obj"] = expr(oc->getArg(0));
          json::Array a;
          for (unsigned i = 1; i < oc->getNumArgs(); ++i) a.push_back(expr(oc->getArg(i)));
          o["args"] = std::move(a);
          return std::move(o);
        }
        if (md && md->isStatic()) { // static operator()
          json::Array a;
          for (unsigned i = 1; i < oc->getNumArgs(); ++i) a.push_back(expr(oc->getArg(i)));
          o["args"] = std::move(a);
          return std::move(o);
        }
      }
      o["args"] = exprs(oc->arguments());
    } else if (auto* c = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* fd = c->getDirectCallee()) {
        o["fn"] = fnId(fd);
        o["q"] = qname(fd);
        if (fd->getTemplateSpecializationArgs()) {
          json::Array ta;
          for (auto& a : fd->getTemplateSpecializationArgs()->asArray()) {
            if (a.getKind() == TemplateArgument::Type) ta.push_back(json::Object{{"t", typeId(a.getAsType())}});
            else if (a.getKind() == TemplateArgument::Integral) ta.push_back(json::Object{{"v", llvm::toString(a.getAsIntegral(), 10)}});
            else ta.push_back(json::Object{});
          }
          o["ta"] = std::move(ta);
          std::string nm = fd->getQualifiedNameAsString();
          if ((nm == "std::make_shared" || nm == "std::make_unique") && fd->getTemplateSpecializationArgs()->get(0).getKind() == TemplateArgument::Type)
            if (auto* rd = fd->getTemplateSpecializationArgs()->get(0).getAsType()->getAsCXXRecordDecl()) {
              // the constructors the library may call on our behalf
              json::Array cs;
              auto add = [&](const FunctionDecl* f) {
                auto* cd = dyn_cast<CXXConstructorDecl>(f);
                if (cd && cd->hasBody() && !cd->isDependentContext() && !cd->isCopyOrMoveConstructor()) cs.push_back(fnId(cd));
              };
              if (rd->getDefinition())
                for (auto* d : rd->getDefinition()->decls()) {
                  if (auto* f = dyn_cast<FunctionDecl>(d)) add(f);
                  else if (auto* ft = dyn_cast<FunctionTemplateDecl>(d))
                    for (auto* sp : ft->specializations()) add(sp);
                }
              o["ctors"] = std::move(cs);
            }
        }
      } else o["callee"] = expr(c->getCallee());
      o["args"] = exprs(c->arguments());
    } else if (auto* c = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "construct";
      o["fn"] = fnId(c->getConstructor());
      auto* cd = c->getConstructor();
      if (cd->isCopyOrMoveConstructor()) o["copy"] = cd->isMoveConstructor() ? "move" : "copy";
      if (cd->isDefaultConstructor() && c->getNumArgs() == 0) o["default"] = true;
      if (cd->isTrivial()) o["trivial"] = true;
      if (cd->isImplicit() || cd->isDefaulted()) o["implicit"] = true;
      if (c->isListInitialization()) o["list"] = true;
      if (c->isStdInitListInitialization()) o["stdlist"] = true;
      if (c->requiresZeroInitialization()) o["zero"] = true;
      json::Array a;
      for (auto* x : c->arguments()) a.push_back(expr(x));
      o["args"] = std::move(a);
    } else if (auto* ic = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "unsupported"; o["what"] = "CXXInheritedCtorInitExpr";
    } else if (auto* c = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = c->getCastKindName();
      if (isa<ExplicitCastExpr>(c)) o["x"] = true;
      o["e"] = expr(c->getSubExpr());
    } else if (auto* u = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      o["post"] = u->isPostfix();
      o["e"] = expr(u->getSubExpr());
    } else if (auto* b = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "assignop";
      o["op"] = BinaryOperator::getOpcodeStr(b->getOpcode()).str();
      o["ct"] = typeId(b->getComputationResultType());
      o["a"] = expr(b->getLHS());
      o["b"] = expr(b->getRHS());
    } else if (auto* b = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = b->getOpcodeStr().str();
      o["a"] = expr(b->getLHS());
      o["b"] = expr(b->getRHS());
    } else if (auto* c = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(c->getCond());
      o["a"] = expr(c->getTrueExpr());
      o["b"] = expr(c->getFalseExpr());
    } else if (auto* l = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      json::Array caps;
      auto ii = l->capture_init_begin();
      auto fi = l->getLambdaClass()->field_begin();
      for (auto& cap : l->captures()) {
        json::Object co;
        if (cap.capturesThis()) co["this"] = true;
        else if (cap.capturesVariable()) {
          co["id"] = declId(cap.getCapturedVar());
          co["n"] = cap.getCapturedVar()->getNameAsString();
          co["ref"] = cap.getCaptureKind() == LCK_ByRef;
          if (cap.getCapturedVar()->isInitCapture()) co["initcap"] = true;
        }
        co["init"] = expr(*ii);
        caps.push_back(std::move(co));
        ++ii; ++fi;
      }
      o["caps"] = std::move(caps);
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto* il = dyn_cast<InitListExpr>(e)) {
      o["k"] = "initlist";
      json::Array a;
      for (auto* x : il->inits()) a.push_back(expr(x));
      o["els"] = std::move(a);
      if (il->hasArrayFiller()) o["filler"] = true;
    } else if (auto* pl = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "initlist";
      json::Array a;
      for (auto* x : pl->getInitExprs()) a.push_back(expr(x));
      o["els"] = std::move(a);
    } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto* s = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      o["v"] = s->isOrdinary() ? s->getString().str() : "";
    } else if (auto* s = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str"; o["v"] = "";
    } else if (auto* f = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "fconst";
      llvm::SmallString<64> st; f->getValue().toString(st, 40); o["v"] = std::string(st.str());
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
    } else if (auto* t = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = expr(t->getSubExpr());
    } else if (auto* a = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index";
      o["a"] = expr(a->getBase());
      o["b"] = expr(a->getIdx());
    } else if (auto* n = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["of"] = typeId(n->getAllocatedType());
      o["init"] = n->getConstructExpr() ? expr(n->getConstructExpr()) : json::Value(nullptr);
      json::Array pa;
      for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pa.push_back(expr(n->getPlacementArg(i)));
      o["place"] = std::move(pa);
    } else if (auto* d = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(d->getArgument());
    } else if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      o["k"] = "pseudodtor";
      o["e"] = expr(pd->getBase());
    } else if (auto* ai = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arraycopy";
      o["e"] = expr(ai->getCommonExpr()->getSourceExpr());
    } else if (auto* ov = dyn_cast<OpaqueValueExpr>(e)) {
      if (ov->getSourceExpr()) return expr(ov->getSourceExpr());
      o["k"] = "unsupported"; o["what"] = "OpaqueValueExpr";
    } else {
      o["k"] = "unsupported";
      o["what"] = e->getStmtClassName();
    }
    return std::move(o);
  }
  json::Value varDecl(const VarDecl* v) {
    json::Object o;
    o["k"] = "var";
    o["id"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    o["l"] = loc(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getInit()) {
      o["init"] = expr(v->getInit());
    }
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      o["k"] = "decomp";
      json::Array bs;
      int i = 0;
      for (auto* b : dd->bindings()) {
        json::Object bo{{"id", declId(b)}, {"n", b->getNameAsString()}, {"i", i++}, {"t", typeId(b->getType())}};
        if (auto* hv = b->getHoldingVar()) { bo["hid"] = declId(hv); if (hv->getInit()) bo["hold"] = expr(hv->getInit()); bo["ht"] = typeId(hv->getType()); }
        else if (b->getBinding()) bo["expr"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["binds"] = std::move(bs);
    }
    return std::move(o);
  }
  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", loc(s->getBeginLoc())}};
    json::Object o;
    o["l"] = loc(s->getBeginLoc());
    if (auto* c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto* x : c->body()) a.push_back(stmt(x));
      o["b"] = std::move(a);
    } else if (auto* d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
      o["vars"] = std::move(a);
    } else if (auto* i = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      o["cx"] = i->isConstexpr();
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["cvar"] = varDecl(i->getConditionVariable());
      o["c"] = expr(i->getCond());
      bool dropThen = false, dropElse = false;
      if (i->isConstexpr() && !i->getCond()->isValueDependent()) {
        Expr::EvalResult r;
        if (i->getCond()->EvaluateAsInt(r, C)) {
          if (r.Val.getInt().getBoolValue()) dropElse = true; else dropThen = true;
          o["c"] = json::Object{{"k", "const"}, {"v", r.Val.getInt().getBoolValue() ? "1" : "0"}, {"t", typeId(C.BoolTy)}};
        }
      }
      o["a"] = dropThen ? json::Value(nullptr) : stmt(i->getThen());
      o["b"] = dropElse ? json::Value(nullptr) : stmt(i->getElse());
    } else if (auto* f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmt(f->getInit());
      if (f->getConditionVariable()) o["cvar"] = varDecl(f->getConditionVariable());
      o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr);
      o["b"] = stmt(f->getBody());
    } else if (auto* w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (w->getConditionVariable()) o["cvar"] = varDecl(w->getConditionVariable());
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
    } else if (auto* w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
    } else if (auto* r = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      o["range"] = expr(r->getRangeInit());
      o["var"] = varDecl(r->getLoopVariable());
      o["begin"] = stmt(r->getBeginStmt());
      o["end"] = stmt(r->getEndStmt());
      o["rdecl"] = stmt(r->getRangeStmt());
      o["cond"] = expr(r->getCond());
      o["inc"] = expr(r->getInc());
      o["b"] = stmt(r->getBody());
    } else if (auto* r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = r->getRetValue() ? expr(r->getRetValue()) : json::Value(nullptr);
    } else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (isa<NullStmt>(s)) o["k"] = "null";
    else if (auto* sw = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = expr(sw->getCond());
      o["b"] = stmt(sw->getBody());
    } else if (auto* cs = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(cs->getLHS());
      o["b"] = stmt(cs->getSubStmt());
    } else if (auto* ds = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["b"] = stmt(ds->getSubStmt());
    } else if (auto* as = dyn_cast<AttributedStmt>(s)) {
      return stmt(as->getSubStmt());
    } else if (auto* t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(t->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto* h = t->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) { ho["var"] = varDecl(h->getExceptionDecl()); }
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else {
      o["k"] = "unsupported";
      o["what"] = s->getStmtClassName();
    }
    return std::move(o);
  }
  json::Object fnHead(const FunctionDecl* f) {
    json::Object o;
    o["id"] = fnIds[f];
    o["q"] = qname(f);
    o["l"] = loc(f->getLocation());
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", typeId(p->getType())}};
      if (isa<CXXConstructorDecl>(f) && !isLib(f) && p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["ret"] = typeId(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = typeId(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
      o["const"] = m->isConst();
      if (isa<CXXConstructorDecl>(f)) o["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
      else o["kind"] = "method";
      o["defaulted"] = f->isDefaulted();
      if (m->getParent()->isLambda()) {
        // captured variables: decl id -> closure field
        llvm::DenseMap<const ValueDecl*, FieldDecl*> caps;
        FieldDecl* thisCap = nullptr;
        m->getParent()->getCaptureFields(caps, thisCap);
        json::Array ca;
        for (auto& kv : caps) ca.push_back(json::Object{{"id", declId(kv.first)}, {"n", kv.first->getNameAsString()}});
        o["caps"] = std::move(ca);
        o["lam"] = declId(m->getParent());
      }
    } else o["kind"] = "function";
    o["deleted"] = f->isDeleted();
    if (f->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto& a : f->getTemplateSpecializationArgs()->asArray()) {
        if (a.getKind() == TemplateArgument::Type) ta.push_back(json::Object{{"t", typeId(a.getAsType())}});
        else if (a.getKind() == TemplateArgument::Integral) ta.push_back(json::Object{{"v", llvm::toString(a.getAsIntegral(), 10)}});
        else ta.push_back(json::Object{});
      }
      o["ta"] = std::move(ta);
    }
    return o;
  }
  void run(std::vector<const FunctionDecl*>& roots) {
    for (auto* r : roots) fnId(r);
    std::map<int, json::Object> out;
    while (!work.empty() || !later.empty()) {
      if (work.empty()) {
        auto* rd = later.front()->getDefinition();
        later.pop_front();
        for (auto* m : rd->methods()) {
          static const std::set<std::string> names{"begin", "end", "cbegin", "cend", "size", "empty", "base", "operator*", "operator++", "operator--",
                                                   "operator==", "operator-", "operator+", "operator+=", "operator-=", "operator[]", "operator->",
                                                   "operator<=>", "operator()"};
          if (m->hasBody() && !m->isDependentContext() && !m->isDeleted() && names.count(m->getNameAsString())) fnId(m);
        }
        continue;
      }
      auto* f = work.front();
      work.pop_front();
      json::Object o = fnHead(f);
      if (f->hasBody() && !f->isDependentContext()) {
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
          json::Array in;
          for (auto* i : cd->inits()) {
            json::Object io;
            if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
            else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
            else if (i->isDelegatingInitializer()) io["deleg"] = true;
            io["e"] = expr(i->getInit());
            in.push_back(std::move(io));
          }
          o["inits"] = std::move(in);
        }
        o["body"] = stmt(f->getBody());
      }
      out[fnIds[f]] = std::move(o);
    }
    for (size_t i = 0; i < fnList.size(); ++i) {
      if (out.count((int)i)) functions.push_back(std::move(out[(int)i]));
      else { auto h = fnHead(fnList[i]); functions.push_back(std::move(h)); }
    }
  }
  json::Array takeTypes() { return std::move(types); }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::vector<const FunctionDecl*> roots;
    struct V : RecursiveASTVisitor<V> {
      std::vector<const FunctionDecl*>& r;
      V(std::vector<const FunctionDecl*>& x) : r(x) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->getDeclName().isIdentifier() && f->getName().starts_with("vc_root") && f->doesThisDeclarationHaveABody() &&
            !f->isDependentContext())
          r.push_back(f);
        return true;
      }
    } v(roots);
    for (auto* d : C.getTranslationUnitDecl()->decls()) {
      // only the driver's own declarations can be roots
      if (C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(d->getLocation()))) v.TraverseDecl(d);
    }
    Dumper D(C);
    D.run(roots);
    json::Object top;
    top["functions"] = std::move(D.functions);
    top["types"] = D.takeTypes();
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << json::Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char** argv) {
  // usage: cppvc_extract OUT.json SOURCE.cpp -- flags...
  if (argc < 4) return 2;
  OutFile = argv[1];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  clang::tooling::ClangTool tool(db, {std::string(argv[2])});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
