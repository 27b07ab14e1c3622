// Fact extractor: dumps the type-checked program (resolved expression trees,
// classes, enums, globals) of the analysed repository as one JSON object per TU.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;   // repository root, with trailing slash
static std::string g_out;    // output file

static std::string Fix(const std::string &s) { return llvm::json::fixUTF8(s); }

class Dumper {
 public:
  explicit Dumper(ASTContext &c)
      : ctx(c), sm(c.getSourceManager()), pol(c.getLangOpts()) {
    pol.SuppressTagKeyword = true;
    pol.Bool = true;
    pol.FullyQualifiedName = true;
    pol.PrintCanonicalTypes = true;
  }
  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pol;
  std::map<std::string, int> type_idx;
  std::vector<std::string> types;
  std::map<const Decl *, int> local_ids;
  int next_local = 0;

  int TypeIdx(QualType t) {
    if (t.isNull()) return Intern("?");
    return Intern(Fix(t.getCanonicalType().getAsString(pol)));
  }
  int Intern(const std::string &s) {
    auto it = type_idx.find(s);
    if (it != type_idx.end()) return it->second;
    int n = (int)types.size();
    types.push_back(s);
    type_idx[s] = n;
    return n;
  }
  std::string File(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l, false);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    llvm::SmallString<256> buf(f);
    llvm::sys::path::remove_dots(buf, true);
    return std::string(buf);
  }
  bool InRepo(SourceLocation l, std::string *rel = nullptr) {
    std::string f = File(l);
    if (f.compare(0, g_root.size(), g_root) != 0) return false;
    std::string r = f.substr(g_root.size());
    if (r.compare(0, 6, "_build") == 0) return false;
    if (rel) *rel = r;
    return true;
  }
  int Line(SourceLocation l) {
    return l.isInvalid() ? 0 : (int)sm.getExpansionLineNumber(l);
  }
  std::string QName(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol);
    return Fix(os.str());
  }
  std::string FuncId(const FunctionDecl *fd) {
    std::string s = QName(fd);
    if (auto *ta = fd->getTemplateSpecializationArgs()) {
      s += "<";
      bool first = true;
      for (auto &a : ta->asArray()) {
        if (!first) s += ",";
        first = false;
        std::string t;
        llvm::raw_string_ostream os(t);
        a.print(pol, os, true);
        s += os.str();
      }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < fd->getNumParams(); ++i) {
      if (i) s += ",";
      s += fd->getParamDecl(i)->getType().getCanonicalType().getAsString(pol);
    }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(fd))
      if (m->isConst()) s += "const";
    if (fd->getFormalLinkage() == Linkage::Internal ||
        fd->isInAnonymousNamespace()) {
      std::string rel;
      const FunctionDecl *def = fd;
      if (InRepo(def->getLocation(), &rel)) s += "@" + rel;
    }
    return Fix(s);
  }
  int LocalId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = local_ids.find(d);
    if (it != local_ids.end()) return it->second;
    int n = ++next_local;
    local_ids[d] = n;
    return n;
  }
  std::string GlobalId(const VarDecl *v) {
    std::string s = QName(v);
    if (v->getFormalLinkage() == Linkage::Internal || v->isInAnonymousNamespace() || v->isStaticLocal()) {
      std::string rel;
      if (InRepo(v->getLocation(), &rel)) s += "@" + rel;
    }
    return Fix(s);
  }

  // -------- expressions -------
  void Meta(Object &o, const Stmt *s) {
    o["l"] = Line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) o["t"] = TypeIdx(e->getType());
  }
  void ConstVal(Object &o, const Expr *e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (!t->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
      auto v = r.Val.getInt();
      if (v.isUnsigned()) o["cv"] = (uint64_t)v.getZExtValue();
      else o["cv"] = (int64_t)v.getSExtValue();
    }
  }
  Value VarRef(const ValueDecl *d) {
    Object o;
    o["k"] = "Ref";
    o["n"] = Fix(d->getNameAsString());
    if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["id"] = QName(ec);
      auto v = ec->getInitVal();
      if (v.isUnsigned()) o["cv"] = (uint64_t)v.getZExtValue();
      else o["cv"] = (int64_t)v.getSExtValue();
    } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "func";
      o["id"] = FuncId(fd);
      o["n"] = QName(fd);
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v)) {
        o["dk"] = "parm";
        o["id"] = LocalId(v);
      } else if (v->isLocalVarDecl() && !v->isStaticLocal()) {
        o["dk"] = "var";
        o["id"] = LocalId(v);
      } else {
        o["dk"] = v->isStaticDataMember() ? "smember" : "global";
        o["id"] = GlobalId(v);
      }
    } else if (auto *b = dyn_cast<BindingDecl>(d)) {
      o["dk"] = "var";
      o["id"] = LocalId(b);
      o["binding"] = true;
    } else if (auto *f = dyn_cast<FieldDecl>(d)) {
      o["dk"] = "field";
      o["id"] = QName(f);
    } else {
      o["dk"] = "other";
      o["id"] = QName(d);
    }
    return std::move(o);
  }
  const Expr *Skip(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
          case CK_FloatingCast: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          case CK_PointerToBoolean: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
          case CK_BitCast:
            return e;
          default: e = x->getSubExpr();
        }
      } else break;
    }
    return e;
  }
  Value Callee(const CallExpr *c, Object &o) {
    const FunctionDecl *fd = c->getDirectCallee();
    if (fd) {
      o["f"] = FuncId(fd);
      o["n"] = QName(fd);
      if (fd->getReturnType()->isReferenceType()) o["rr"] = true;
    }
    return nullptr;
  }
  Array Args(const CallExpr *c) {
    Array a;
    for (auto *x : c->arguments()) a.push_back(E(x));
    return a;
  }
  Value E(const Expr *e0) {
    if (!e0) return nullptr;
    const Expr *e = Skip(e0);
    if (!e) return nullptr;
    Object o;
    Meta(o, e);
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      o["cv"] = x->getType()->isSignedIntegerType()
                    ? Value((int64_t)x->getValue().getSExtValue())
                    : Value((uint64_t)x->getValue().getZExtValue());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Int"; o["cv"] = (int64_t)x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["cv"] = (int64_t)x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; o["v"] = x->getValueAsApproximateDouble(); return std::move(o); }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      o["v"] = x->getCharByteWidth() == 1 ? Fix(x->getString().str()) : std::string("<wide>");
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "NullPtr"; return std::move(o); }
    if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return std::move(o); }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      Value r = VarRef(x->getDecl());
      Object &ro = *r.getAsObject();
      Meta(ro, e);
      if (!ro.get("cv")) ConstVal(ro, e);
      return r;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "Member";
        if (f->isBitField() && !f->getBitWidth()->isValueDependent()) o["bw"] = (int64_t)f->getBitWidthValue(ctx);
        if (f->getParent()->isUnion()) o["un"] = true;
        o["n"] = Fix(f->getNameAsString());
        o["id"] = QName(f);
        o["b"] = E(x->getBase());
        return std::move(o);
      }
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Value r = VarRef(v);
        Meta(*r.getAsObject(), e);
        ConstVal(*r.getAsObject(), e);
        return r;
      }
      if (auto *ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) return VarRef(ec);
      o["k"] = "MemFn";
      o["n"] = Fix(x->getMemberDecl()->getNameAsString());
      o["b"] = E(x->getBase());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(x->getOperator());
      Callee(x, o);
      o["a"] = Args(x);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      Callee(x, o);
      o["o"] = E(x->getImplicitObjectArgument());
      o["a"] = Args(x);
      if (auto *m = x->getMethodDecl()) {
        bool virt = m->isVirtual();
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if (me->hasQualifier()) virt = false;
        if (virt) o["virt"] = true;
        if (m->isConst()) o["mc"] = true;
      }
      return std::move(o);
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      Callee(x, o);
      if (!x->getDirectCallee()) o["fe"] = E(x->getCallee());
      o["a"] = Args(x);
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      // elide copy/move of a temporary
      if (x->isElidable() && x->getNumArgs() == 1) return E(x->getArg(0));
      o["k"] = "Ctor";
      o["c"] = QName(x->getConstructor()->getParent());
      o["f"] = FuncId(x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      Array a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      o["nt"] = TypeIdx(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["size"] = E(*x->getArraySize());
      if (x->hasInitializer()) o["init"] = E(x->getInitializer());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = E(x->getArgument()); return std::move(o); }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["e"] = E(x->getSubExpr());
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "Bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Index";
      o["b"] = E(x->getBase());
      o["i"] = E(x->getIdx());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      // explicit (or value-changing implicit) casts
      if (isa<CXXFunctionalCastExpr>(x) || isa<CStyleCastExpr>(x) || isa<CXXStaticCastExpr>(x) || isa<ImplicitCastExpr>(x)) {
        auto ck = x->getCastKind();
        if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion)
          return E(x->getSubExpr());
        if (ck == CK_NoOp && isa<ImplicitCastExpr>(x)) return E(x->getSubExpr());
      }
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      if (!isa<ImplicitCastExpr>(x)) o["x"] = x->getStmtClassName();
      o["e"] = E(x->getSubExpr());
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *il = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["k"] = "Init";
      Array a;
      for (auto *y : il->inits()) a.push_back(E(y));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "Init";
      Array a;
      for (auto *y : x->getInitExprs()) a.push_back(E(y));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      Array ps;
      const CXXMethodDecl *m = x->getCallOperator();
      const Stmt *lambda_body = x->getBody();
      // generic lambda: analyse the code of an instantiation, not the template
      if (auto *ft = m->getDescribedFunctionTemplate()) {
        for (auto *sp : ft->specializations()) {
          if (sp->getBody()) {
            if (auto *sm = dyn_cast<CXXMethodDecl>(sp)) {
              m = sm;
              lambda_body = sp->getBody();
              break;
            }
          }
        }
      }
      for (auto *p : m->parameters()) ps.push_back(Param(p));
      o["p"] = std::move(ps);
      Array caps;
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["n"] = "this";
        else if (c.capturesVariable()) {
          co["n"] = Fix(c.getCapturedVar()->getNameAsString());
          co["id"] = LocalId(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["cap"] = std::move(caps);
      o["ret"] = TypeIdx(m->getReturnType());
      o["b"] = S(lambda_body);
      return std::move(o);
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "Sizeof";
      if (x->isArgumentType()) o["at"] = TypeIdx(x->getArgumentType());
      else { o["at"] = TypeIdx(x->getArgumentExpr()->getType()); o["e"] = E(x->getArgumentExpr()); }
      ConstVal(o, e);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      if (x->getSubExpr()) o["e"] = E(x->getSubExpr());
      return std::move(o);
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "ZeroInit"; ConstVal(o, e); return std::move(o); }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; if (x->isTypeOperand()) o["at"] = TypeIdx(x->getTypeOperandSourceInfo()->getType()); return std::move(o); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); }
    // generic
    o["k"] = "Other";
    o["sc"] = e->getStmtClassName();
    ConstVal(o, e);
    Array a;
    for (auto *ch : e->children())
      if (ch) {
        if (auto *ce = dyn_cast<Expr>(ch)) a.push_back(E(ce));
        else a.push_back(S(ch));
      }
    o["a"] = std::move(a);
    return std::move(o);
  }
  Value Param(const ParmVarDecl *p) {
    Object o;
    o["n"] = Fix(p->getNameAsString());
    o["id"] = LocalId(p);
    o["t"] = TypeIdx(p->getType());
    return std::move(o);
  }
  Value Var(const VarDecl *v) {
    Object o;
    o["k"] = "Var";
    o["l"] = Line(v->getLocation());
    o["n"] = Fix(v->getNameAsString());
    if (v->isLocalVarDecl() && !v->isStaticLocal()) o["id"] = LocalId(v);
    else o["id"] = GlobalId(v);
    o["t"] = TypeIdx(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto *b : dd->bindings()) {
        Object bo;
        bo["n"] = Fix(b->getNameAsString());
        bo["id"] = LocalId(b);
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return std::move(o);
  }
  Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return E(e);
    Object o;
    o["l"] = Line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto *y : x->body()) a.push_back(S(y));
      o["s"] = std::move(a);
      o["le"] = Line(x->getEndLoc());
      return std::move(o);
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(Var(v));
      o["d"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->getInit()) o["i"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvd"] = S(x->getConditionVariableDeclStmt());
      if (x->isConstexpr()) {
        if (auto nd = x->getNondiscardedCase(ctx)) {
          return *nd ? S(*nd) : Value(Object{{"k", "Null"}, {"l", Line(s->getBeginLoc())}});
        }
      }
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      if (x->getElse()) o["b"] = S(x->getElse());
      return std::move(o);
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      if (x->getInit()) o["i"] = S(x->getInit());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["n"] = E(x->getInc());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (x->getConditionVariableDeclStmt()) o["cvd"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "ForRange";
      o["v"] = Var(x->getLoopVariable());
      o["r"] = E(x->getRangeInit());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (x->getInit()) o["i"] = S(x->getInit());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["e"] = E(x->getLHS());
      if (x->getLHS() && !x->getLHS()->isValueDependent()) {
        auto v = x->getLHS()->EvaluateKnownConstInt(ctx);
        o["cv"] = v.isUnsigned() ? Value((uint64_t)v.getZExtValue()) : Value((int64_t)v.getSExtValue());
      }
      if (x->getRHS()) o["hi"] = E(x->getRHS());
      o["s"] = S(x->getSubStmt());
      return std::move(o);
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = S(x->getSubStmt()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["k"] = "Break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["k"] = "Null"; return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = E(x->getRetValue()); return std::move(o); }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["b"] = S(x->getTryBlock());
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *c = x->getHandler(i);
        Object ho;
        ho["l"] = Line(c->getBeginLoc());
        if (c->getExceptionDecl()) { ho["v"] = Var(c->getExceptionDecl()); ho["t"] = TypeIdx(c->getCaughtType()); }
        ho["b"] = S(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return std::move(o);
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["s"] = S(x->getSubStmt()); return std::move(o); }
    o["k"] = "OtherStmt";
    o["sc"] = s->getStmtClassName();
    Array a;
    for (auto *ch : s->children()) if (ch) a.push_back(S(ch));
    o["a"] = std::move(a);
    return std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(ASTContext &c) : d(c), ctx(c) {}
  Dumper d;
  ASTContext &ctx;
  Array funcs, classes, enums, globals, decls;
  std::set<std::string> seen, seen_c, seen_d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (fd->isDependentContext()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(fd))
      if (m->getParent()->isLambda()) return true;
    std::string rel;
    if (!d.InRepo(fd->getLocation(), &rel)) return true;
    std::string id = d.FuncId(fd);
    if (seen_d.insert(id).second) {
      Object o;
      o["id"] = id;
      o["n"] = d.QName(fd);
      o["file"] = rel;
      o["line"] = d.Line(fd->getLocation());
      o["ret"] = d.TypeIdx(fd->getReturnType());
      Array ps;
      for (auto *p : fd->parameters()) ps.push_back(d.Param(p));
      o["p"] = std::move(ps);
      if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
        o["cls"] = d.QName(m->getParent());
        if (m->isVirtual()) o["virt"] = true;
        if (m->isPureVirtual()) o["pure"] = true;
        if (m->isConst()) o["const"] = true;
        if (m->isStatic()) o["static"] = true;
        o["acc"] = (int)m->getAccess();
        Array ov;
        for (auto *b : m->overridden_methods()) ov.push_back(d.FuncId(b));
        if (!ov.empty()) o["ov"] = std::move(ov);
        if (m->isDefaulted()) o["defaulted"] = true;
        if (m->isDeleted()) o["deleted"] = true;
      }
      auto *fpt = fd->getType()->getAs<FunctionProtoType>();
      if (fpt && isNoexceptExceptionSpec(fpt->getExceptionSpecType()) && fpt->canThrow() == CT_Cannot) o["noexcept"] = true;
      if (fd->getFormalLinkage() == Linkage::Internal || fd->isInAnonymousNamespace()) o["internal"] = true;
      if (fd->isExternC()) o["extc"] = true;
      decls.push_back(std::move(o));
    }
    if (!fd->doesThisDeclarationHaveABody()) return true;
    if (fd->isDefaulted()) return true;
    if (!seen.insert(id).second) return true;
    Object o;
    o["id"] = id;
    o["n"] = d.QName(fd);
    o["file"] = rel;
    o["line"] = d.Line(fd->getLocation());
    o["ret"] = d.TypeIdx(fd->getReturnType());
    if (isa<CXXConstructorDecl>(fd)) o["kind"] = "ctor";
    else if (isa<CXXDestructorDecl>(fd)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(fd)) o["kind"] = "conv";
    else if (isa<CXXMethodDecl>(fd)) o["kind"] = "method";
    else o["kind"] = "func";
    if (auto *m = dyn_cast<CXXMethodDecl>(fd)) o["cls"] = d.QName(m->getParent());
    if (fd->getTemplateSpecializationArgs()) {
      Array ta;
      for (auto &a : fd->getTemplateSpecializationArgs()->asArray())
        if (a.getKind() == TemplateArgument::Type) ta.push_back(d.TypeIdx(a.getAsType()));
      o["ta"] = std::move(ta);
      if (fd->getTemplateInstantiationPattern()) o["tpl"] = true;
    }
    Array ps;
    for (auto *p : fd->parameters()) ps.push_back(d.Param(p));
    o["p"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(fd)) {
      Array in;
      for (auto *i : c->inits()) {
        Object io;
        io["l"] = d.Line(i->getSourceLocation());
        if (i->isAnyMemberInitializer()) { io["m"] = d.QName(i->getAnyMember()); io["n"] = Fix(i->getAnyMember()->getNameAsString()); }
        else if (i->isBaseInitializer()) io["base"] = d.TypeIdx(QualType(i->getBaseClass(), 0));
        else io["deleg"] = true;
        io["w"] = i->isWritten();
        io["e"] = d.E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = d.S(fd->getBody());
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda()) return true;
    std::string rel;
    if (!d.InRepo(rd->getLocation(), &rel)) return true;
    std::string name = d.QName(rd);
    if (!seen_c.insert(name).second) return true;
    Object o;
    o["n"] = name;
    o["file"] = rel;
    o["line"] = d.Line(rd->getLocation());
    Array bs;
    for (auto &b : rd->bases()) bs.push_back(d.types[d.TypeIdx(b.getType())]);
    o["bases"] = std::move(bs);
    if (rd->isAbstract()) o["abstract"] = true;
    Array fs;
    for (auto *f : rd->fields()) {
      Object fo;
      fo["n"] = Fix(f->getNameAsString());
      fo["id"] = d.QName(f);
      fo["t"] = d.TypeIdx(f->getType());
      fo["l"] = d.Line(f->getLocation());
      if (f->isMutable()) fo["mut"] = true;
      if (!f->getType()->isDependentType() && !f->getType()->isIncompleteType() && !f->getType()->isReferenceType())
        fo["sz"] = (int64_t)ctx.getTypeSizeInChars(f->getType()).getQuantity();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = d.E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    classes.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ed) {
    if (!ed->isThisDeclarationADefinition() || ed->isDependentContext()) return true;
    std::string rel;
    if (!d.InRepo(ed->getLocation(), &rel)) return true;
    Object o;
    o["n"] = d.QName(ed);
    o["file"] = rel;
    o["line"] = d.Line(ed->getLocation());
    Array cs;
    for (auto *c : ed->enumerators()) {
      auto v = c->getInitVal();
      cs.push_back(Array{Fix(c->getNameAsString()), v.isUnsigned() ? Value((uint64_t)v.getZExtValue()) : Value((int64_t)v.getSExtValue())});
    }
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (isa<ParmVarDecl>(v)) return true;
    if (v->isLocalVarDecl() && !v->isStaticLocal()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    std::string rel;
    if (!d.InRepo(v->getLocation(), &rel)) return true;
    if (!v->isThisDeclarationADefinition() && !v->isStaticDataMember()) return true;
    Value x = d.Var(v);
    (*x.getAsObject())["file"] = rel;
    (*x.getAsObject())["id"] = d.GlobalId(v);
    globals.push_back(std::move(x));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Visitor v(ctx);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    Object o;
    o["funcs"] = std::move(v.funcs);
    o["decls"] = std::move(v.decls);
    o["classes"] = std::move(v.classes);
    o["enums"] = std::move(v.enums);
    o["globals"] = std::move(v.globals);
    o["errors"] = (int)ctx.getDiagnostics().hasErrorOccurred();
    Array ts;
    for (auto &t : v.d.types) ts.push_back(t);
    o["types"] = std::move(ts);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  // extract ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 2; }
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  class F : public tooling::FrontendActionFactory {
   public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } f;
  return tool.run(&f);
}
