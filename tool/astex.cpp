// astex: export the type-resolved, template-instantiated AST of the functions that live under a
// given source prefix, as JSON.  It is the front end of every check in /verif: all rules are
// decided on this resolved program, never on text.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_prefixes;
static std::string g_out;

struct Exporter : RecursiveASTVisitor<Exporter>
{
  ASTContext & ctx;
  SourceManager & sm;
  PrintingPolicy pp;
  std::map<const void *, int> ids;
  std::map<const void *, int> type_ids;
  Array types, funcs, records, globals;
  std::set<const FunctionDecl *> done;
  std::set<const VarDecl *> globals_done;
  std::set<const CXXRecordDecl *> records_done;
  std::map<std::string, int> files;
  Array file_list;

  explicit Exporter(ASTContext & c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
  {
    pp.SuppressTagKeyword = true;
    pp.PrintCanonicalTypes = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const void * p)
  {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n  = (int)ids.size() + 1;
    ids[p] = n;
    return n;
  }
  int did(const Decl * d) { return d ? id(d->getCanonicalDecl()) : 0; }

  std::string fileOf(SourceLocation l)
  {
    l = sm.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    return sm.getFilename(l).str();
  }
  bool inScope(SourceLocation l)
  {
    std::string f = fileOf(l);
    for (auto & p : g_prefixes)
      if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int fileId(const std::string & f)
  {
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int n    = (int)files.size();
    files[f] = n;
    file_list.push_back(f);
    return n;
  }
  void loc(Object & o, SourceLocation l)
  {
    l = sm.getExpansionLoc(l);
    if (l.isInvalid()) return;
    o["f"] = fileId(sm.getFilename(l).str());
    o["l"] = (int64_t)sm.getExpansionLineNumber(l);
  }

  // --- types -------------------------------------------------------------------------------
  static bool enumConst(const CXXRecordDecl * rd, StringRef name, int64_t & out, int depth = 0)
  {
    if (!rd || depth > 4) return false;
    rd = rd->getDefinition();
    if (!rd) return false;
    for (auto * d : rd->decls()) {
      if (auto * ed = dyn_cast<EnumDecl>(d))
        for (auto * ec : ed->enumerators())
          if (ec->getName() == name && !rd->isDependentType()) {
            out = ec->getInitVal().getExtValue();
            return true;
          }
    }
    for (auto & b : rd->bases())
      if (enumConst(b.getType()->getAsCXXRecordDecl(), name, out, depth + 1)) return true;
    return false;
  }
  static void baseNames(const CXXRecordDecl * rd, std::set<std::string> & out, int depth = 0)
  {
    if (!rd || depth > 12) return;
    if (!rd->hasDefinition()) return;
    rd = rd->getDefinition();
    out.insert(rd->getNameAsString());
    for (auto & b : rd->bases()) baseNames(b.getType()->getAsCXXRecordDecl(), out, depth + 1);
  }
  int type(QualType t)
  {
    if (t.isNull()) return -1;
    QualType ct = ctx.getCanonicalType(t);
    void * key  = ct.getAsOpaquePtr();
    auto it     = type_ids.find(key);
    if (it != type_ids.end()) return it->second;
    int n         = (int)types.size();
    type_ids[key] = n;
    types.push_back(nullptr);
    Object o;
    bool ref = ct->isReferenceType();
    QualType nt = ct.getNonReferenceType();
    o["s"]      = nt.getUnqualifiedType().getAsString(pp);
    if (ref) o["ref"] = ct->isRValueReferenceType() ? "rr" : "lr";
    if (nt.isConstQualified()) o["const"] = true;
    if (nt->isBooleanType()) o["k"] = "bool";
    else if (nt->isEnumeralType()) {
      o["k"] = "enum";
      if (auto * et = nt->getAs<EnumType>()) {
        llvm::json::Object ev;
        for (auto * c : et->getDecl()->enumerators()) ev[c->getName()] = (int64_t)c->getInitVal().extOrTrunc(64).getZExtValue();
        o["ev"] = std::move(ev);
        o["name"] = et->getDecl()->getName().str();
      }
    }
    else if (nt->isIntegerType()) {
      o["k"] = nt->isUnsignedIntegerType() ? "uint" : "int";
      o["bits"] = (int64_t)ctx.getTypeSize(nt);
    }
    else if (nt->isRealFloatingType()) {
      o["k"] = "float";
      o["bits"] = (int64_t)ctx.getTypeSize(nt);
    }
    else if (nt->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = type(nt->getPointeeType());
    }
    else if (auto * rd = nt->getAsCXXRecordDecl()) {
      o["k"]   = "rec";
      o["rec"] = did(rd);
      o["name"] = rd->getNameAsString();
      o["qn"]  = rd->getQualifiedNameAsString();
      if (auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        Array ta;
        auto add = [&](const TemplateArgument & a, auto && self) -> void {
          if (a.getKind() == TemplateArgument::Type) {
            Object x;
            x["t"] = type(a.getAsType());
            ta.push_back(std::move(x));
          } else if (a.getKind() == TemplateArgument::Integral) {
            Object x;
            x["v"] = (int64_t)a.getAsIntegral().extOrTrunc(64).getZExtValue();
            ta.push_back(std::move(x));
          } else if (a.getKind() == TemplateArgument::Pack) {
            for (auto & e : a.pack_elements()) self(e, self);
          } else {
            Object x;
            x["?"] = true;
            ta.push_back(std::move(x));
          }
        };
        for (auto & a : sp->getTemplateArgs().asArray()) add(a, add);
        o["ta"] = std::move(ta);
      }
      std::set<std::string> bn;
      baseNames(rd, bn);
      if (bn.count("EigenBase") || bn.count("DenseBase") || bn.count("SparseMatrixBase") || bn.count("DiagonalBase")) {
        const char * e = "eig";
        if (bn.count("SparseMatrixBase")) e = "sparse";
        else if (bn.count("DiagonalBase")) e = "diag";
        else if (bn.count("ArrayBase")) e = "array";
        else if (bn.count("MatrixBase") || bn.count("DenseBase")) e = "dense";
        o["eig"] = e;
        int64_t v;
        if (enumConst(rd, "RowsAtCompileTime", v)) o["rows"] = v;
        if (enumConst(rd, "ColsAtCompileTime", v)) o["cols"] = v;
        if (enumConst(rd, "IsRowMajor", v)) o["rm"] = v;
      }
      if (rd->isLambda()) {
        o["lambda"] = did(rd->getLambdaCallOperator());
      }
      Array bs;
      for (auto & s : bn) bs.push_back(s);
      if (bn.size() < 12) o["bases"] = std::move(bs);
      if (inScope(rd->getLocation())) exportRecord(rd);
    }
    types[n] = std::move(o);
    return n;
  }

  // --- records -----------------------------------------------------------------------------
  void exportRecord(const CXXRecordDecl * rd)
  {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentType() || rd->isLambda()) return;
    if (!records_done.insert(rd).second) return;
    Object o;
    o["id"]   = did(rd);
    o["name"] = rd->getNameAsString();
    o["qn"]   = rd->getQualifiedNameAsString();
    o["ty"]   = type(ctx.getRecordType(rd));
    {
      SourceLocation l = rd->getLocation();
      if (auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) l = sp->getSpecializedTemplate()->getLocation();
      loc(o, l);
    }
    Array fs;
    for (auto * f : rd->fields()) {
      Object fo;
      fo["id"]   = did(f);
      fo["name"] = f->getNameAsString();
      fo["t"]    = type(f->getType());
      fo["mut"]  = f->isMutable();
      fo["access"] = (int)f->getAccess();
      loc(fo, f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) {
        fo["init"] = expr(f->getInClassInitializer());
      }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto * m : rd->methods()) {
      Object mo;
      mo["id"] = did(m);
      mo["name"] = m->getNameAsString();
      mo["const"] = m->isConst();
      mo["static"] = m->isStatic();
      mo["access"] = (int)m->getAccess();
      mo["defaulted"] = m->isDefaulted();
      mo["deleted"] = m->isDeleted();
      mo["user"] = m->isUserProvided();
      mo["copyasg"] = m->isCopyAssignmentOperator();
      mo["moveasg"] = m->isMoveAssignmentOperator();
      if (auto * c = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        mo["copyctor"] = c->isCopyConstructor();
        mo["movector"] = c->isMoveConstructor();
        mo["defctor"] = c->isDefaultConstructor();
      }
      loc(mo, m->getLocation());
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    Array bs;
    for (auto & b : rd->bases()) bs.push_back(type(b.getType()));
    o["bases"] = std::move(bs);
    for (auto * d : rd->decls())
      if (auto * v = dyn_cast<VarDecl>(d)) exportGlobal(v);
    records.push_back(std::move(o));
  }

  void exportGlobal(const VarDecl * v)
  {
    if (!v->hasGlobalStorage()) return;
    if (v->getType()->isDependentType()) return;
    if (!inScope(v->getLocation())) return;
    v = v->getDefinition() ? v->getDefinition() : v;
    if (v->getDeclContext()->isDependentContext()) return;
    if (!globals_done.insert(v).second) return;
    Object o;
    o["id"]    = did(v);
    o["name"]  = v->getNameAsString();
    o["qn"]    = v->getQualifiedNameAsString();
    o["t"]     = type(v->getType());
    o["constexpr"] = v->isConstexpr();
    o["const"] = v->getType().isConstQualified();
    o["tls"]   = v->getTLSKind() != VarDecl::TLS_None;
    o["local"] = v->isStaticLocal();
    if (auto * fd = dyn_cast<FunctionDecl>(v->getDeclContext())) o["fn"] = did(fd);
    loc(o, v->getLocation());
    if (v->hasInit()) o["init"] = expr(v->getInit());
    globals.push_back(std::move(o));
  }

  // --- expressions ---------------------------------------------------------------------------
  Value exprOrNull(const Expr * e) { return e ? expr(e) : Value(nullptr); }

  Object callee(const FunctionDecl * fd)
  {
    Object o;
    o["id"]   = did(fd);
    o["name"] = fd->getNameAsString();
    o["qn"]   = fd->getQualifiedNameAsString();
    if (auto * md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = md->getParent()->getNameAsString();
      o["static"] = md->isStatic();
      o["cm"] = md->isConst();
    }
    if (auto * ta = fd->getTemplateSpecializationArgs()) {
      Array a;
      for (auto & x : ta->asArray()) {
        if (x.getKind() == TemplateArgument::Integral) a.push_back((int64_t)x.getAsIntegral().extOrTrunc(64).getZExtValue());
        else if (x.getKind() == TemplateArgument::Type) { Object to; to["t"] = type(x.getAsType()); a.push_back(std::move(to)); }
        else a.push_back(nullptr);
      }
      o["targs"] = std::move(a);
    }
    Array pts;
    for (auto * p : fd->parameters()) pts.push_back(type(p->getType()));
    o["pt"] = std::move(pts);
    // make sure the body is exported when in scope
    const FunctionDecl * def = nullptr;
    if (fd->hasBody(def) && def && inScope(def->getLocation())) exportFunction(def);
    return o;
  }

  Value expr(const Expr * e)
  {
    if (!e) return nullptr;
    // strip wrappers
    while (true) {
      if (auto * x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto * x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto * x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto * x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if (auto * x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) break; e = x->getSourceExpr(); }
      else if (auto * x = dyn_cast<ImplicitCastExpr>(e)) {
        // keep value-changing arithmetic conversions visible, drop the rest
        auto ck = x->getCastKind();
        if (ck == CK_IntegralCast || ck == CK_IntegralToFloating || ck == CK_FloatingToIntegral
            || ck == CK_FloatingCast || ck == CK_IntegralToBoolean || ck == CK_FloatingToBoolean
            || ck == CK_PointerToBoolean) {
          Object o;
          loc(o, e->getBeginLoc());
          o["k"]  = "Cast";
          o["ck"] = x->getCastKindName();
          o["imp"] = true;
          o["t"]  = type(e->getType());
          addConst(o, e);
          o["e"]  = expr(x->getSubExpr());
          return o;
        }
        e = x->getSubExpr();
      } else break;
    }
    Object o;
    loc(o, e->getBeginLoc());
    o["t"] = type(e->getType());
    addConst(o, e);

    if (auto * x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
    } else if (auto * x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
    } else if (auto * x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Bool";
      o["v"] = x->getValue();
    } else if (auto * x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      if (x->isOrdinary() || x->isUTF8()) o["v"] = llvm::json::fixUTF8(x->getString());
    } else if (isa<CharacterLiteral>(e)) {
      o["k"] = "Char";
      o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto * x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl * d = x->getDecl();
      o["k"]    = "Ref";
      o["name"] = d->getNameAsString();
      o["id"]   = did(d);
      if (isa<ParmVarDecl>(d)) o["dk"] = "parm";
      else if (auto * v = dyn_cast<VarDecl>(d)) {
        o["dk"] = v->hasGlobalStorage() ? "global" : "var";
        if (v->hasGlobalStorage()) { o["qn"] = v->getQualifiedNameAsString(); exportGlobal(v); }
      } else if (isa<EnumConstantDecl>(d)) { o["dk"] = "enum"; o["qn"] = d->getQualifiedNameAsString(); }
      else if (isa<BindingDecl>(d)) {
        o["dk"] = "binding";
      } else if (auto * f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func";
        o["fn"] = callee(f);
      } else o["dk"] = "other";
    } else if (auto * x = dyn_cast<MemberExpr>(e)) {
      o["k"]    = "Mem";
      o["name"] = x->getMemberDecl()->getNameAsString();
      o["id"]   = did(x->getMemberDecl());
      o["arrow"] = x->isArrow();
      if (auto * md = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) { o["fn"] = callee(md); }
      if (auto * v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["dk"] = "global"; exportGlobal(v); }
      o["e"] = expr(x->getBase());
    } else if (auto * x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"]  = "Op";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (x->getDirectCallee()) o["fn"] = callee(x->getDirectCallee());
      Array a;
      for (auto * y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (auto * x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      if (auto * md = x->getMethodDecl()) {
        o["fn"] = callee(md);
        if (isa<CXXConversionDecl>(md)) o["conv"] = true;
      }
      if (x->getImplicitObjectArgument()) o["o"] = expr(x->getImplicitObjectArgument());
      Array a;
      for (auto * y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (auto * x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      if (x->getDirectCallee()) o["fn"] = callee(x->getDirectCallee());
      else o["ce"] = expr(x->getCallee());
      Array a;
      for (auto * y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (auto * x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"]  = "New0";
      o["k"]  = "Ctor";
      o["fn"] = callee(x->getConstructor());
      o["elid"] = x->isElidable();
      auto * c = x->getConstructor();
      o["copy"] = c->isCopyOrMoveConstructor();
      o["mv"] = c->isMoveConstructor();
      o["dflt"] = c->isDefaultConstructor();
      o["list"] = x->isListInitialization();
      Array a;
      for (auto * y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (auto * x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "List";
      auto * sx = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      Array a;
      for (auto * y : sx->inits()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (auto * x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "List";
      Array a;
      for (auto * y : x->getInitExprs()) a.push_back(expr(y));
      o["a"] = std::move(a);
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "Zero";
    } else if (auto * x = dyn_cast<UnaryOperator>(e)) {
      o["k"]  = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"]  = expr(x->getSubExpr());
    } else if (auto * x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"]  = "Asg";
      o["op"] = x->getOpcodeStr().str();
      o["lhs"] = expr(x->getLHS());
      o["rhs"] = expr(x->getRHS());
    } else if (auto * x = dyn_cast<BinaryOperator>(e)) {
      o["k"]  = x->getOpcode() == BO_Assign ? "Asg" : "Bin";
      o["op"] = x->getOpcodeStr().str();
      o["lhs"] = expr(x->getLHS());
      o["rhs"] = expr(x->getRHS());
    } else if (auto * x = dyn_cast<ConditionalOperator>(e)) {
      o["k"]  = "Cond";
      o["c0"]  = expr(x->getCond());
      o["a"]  = expr(x->getTrueExpr());
      o["b"]  = expr(x->getFalseExpr());
    } else if (auto * x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Sub";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
    } else if (auto * x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      o["call"] = did(x->getCallOperator());
      Array caps;
      auto init = x->capture_init_begin();
      for (auto & c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"]   = did(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        }
        co["byref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        if (*init) co["init"] = expr(*init);
        ++init;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      // export the non-template call operator; generic lambdas: all specializations
      auto * op = x->getCallOperator();
      o["mutable"] = !op->isConst();
      Array ops;
      if (auto * ft = op->getDescribedFunctionTemplate()) {
        for (auto * s : ft->specializations()) {
          const FunctionDecl * def = nullptr;
          if (s->hasBody(def)) { exportFunction(def); ops.push_back(did(def)); }
        }
      } else {
        exportFunction(op);
        ops.push_back(did(op));
      }
      o["ops"] = std::move(ops);
    } else if (auto * x = dyn_cast<ExplicitCastExpr>(e)) {
      o["k"]  = "Cast";
      o["ck"] = x->getCastKindName();
      o["style"] = e->getStmtClassName();
      o["e"]  = expr(x->getSubExpr());
    } else if (auto * x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      if (x->getNumPlacementArgs() == 1) o["at"] = expr(x->getPlacementArg(0));
    } else if (auto * x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete";
      o["e"] = expr(x->getArgument());
    } else if (auto * x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      o["e"] = exprOrNull(x->getSubExpr());
    } else if (auto * x = dyn_cast<CXXFoldExpr>(e)) {
      (void)x;
      o["k"] = "Fold";
    } else if (auto * x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c0"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else {
      o["k"] = "?";
      o["cls"] = e->getStmtClassName();
      Array a;
      for (auto * c : e->children())
        if (auto * ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
      o["a"] = std::move(a);
    }
    return o;
  }

  void addConst(Object & o, const Expr * e)
  {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (!(t->isIntegralOrEnumerationType() || t->isBooleanType() || t->isRealFloatingType())) return;
    if (e->isLValue()) {
      // only fold references to constants
      auto * dr = dyn_cast<DeclRefExpr>(e);
      if (!dr) return;
      if (isa<EnumConstantDecl>(dr->getDecl())) {
      } else {
        auto * v = dyn_cast<VarDecl>(dr->getDecl());
        if (!v) return;
        if (!v->isConstexpr() && !v->getType().isConstQualified()) return;
        if (!v->hasInit() || v->getInit()->isValueDependent()) return;
      }
    }
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, ctx) || r.HasSideEffects) return;
    if (r.Val.isInt()) {
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      o["c"] = s.str().str();
    } else if (r.Val.isFloat()) {
      llvm::SmallString<64> s;
      auto f = r.Val.getFloat();
      if (f.isInfinity()) o["c"] = f.isNegative() ? "-inf" : "inf";
      else if (f.isNaN()) o["c"] = "nan";
      else {
        f.toString(s, 20);
        o["c"] = s.str().str();
      }
    }
  }

  // --- statements ----------------------------------------------------------------------------
  Value varDecl(const VarDecl * v)
  {
    Object o;
    loc(o, v->getLocation());
    o["id"]   = did(v);
    o["name"] = v->getNameAsString();
    o["t"]    = type(v->getType());
    o["static"] = v->isStaticLocal();
    o["constexpr"] = v->isConstexpr();
    if (v->hasInit()) o["init"] = expr(v->getInit());
    if (v->isStaticLocal()) exportGlobal(v);
    if (auto * dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto * b : dd->bindings()) {
        Object bo;
        bo["id"]   = did(b);
        bo["name"] = b->getNameAsString();
        if (auto * hv = b->getHoldingVar()) {
          bo["hv"] = did(hv);
          if (hv->hasInit()) bo["init"] = expr(hv->getInit());
        } else if (b->getBinding()) bo["e"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt * s)
  {
    if (!s) return nullptr;
    if (auto * e = dyn_cast<Expr>(s)) {
      Object o;
      loc(o, s->getBeginLoc());
      o["k"] = "Expr";
      o["e"] = expr(e);
      return o;
    }
    Object o;
    loc(o, s->getBeginLoc());
    if (auto * x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto * c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
    } else if (auto * x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      Array a;
      for (auto * d : x->decls())
        if (auto * v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["d"] = std::move(a);
    } else if (auto * x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      o["cexpr"] = x->isConstexpr();
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c0"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      if (x->getElse()) o["b"] = stmt(x->getElse());
    } else if (auto * x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c0"] = exprOrNull(x->getCond());
      o["inc"] = exprOrNull(x->getInc());
      o["body"] = stmt(x->getBody());
    } else if (auto * x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c0"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto * x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c0"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto * x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "Range";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getRangeInit()) o["range"] = expr(x->getRangeInit());
      o["var"] = varDecl(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
    } else if (auto * x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Ret";
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
    } else if (isa<BreakStmt>(s)) o["k"] = "Break";
    else if (isa<ContinueStmt>(s)) o["k"] = "Continue";
    else if (isa<NullStmt>(s)) o["k"] = "Nop";
    else if (auto * x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["c0"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto * x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
    } else if (auto * x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["s"] = stmt(x->getSubStmt());
    } else if (auto * x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["body"] = stmt(x->getTryBlock());
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) h.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h);
    } else if (auto * x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else {
      o["k"] = "?S";
      o["cls"] = s->getStmtClassName();
      Array a;
      for (auto * c : s->children()) a.push_back(stmt(c));
      o["s"] = std::move(a);
    }
    return o;
  }

  // --- functions -----------------------------------------------------------------------------
  void exportFunction(const FunctionDecl * fd)
  {
    const FunctionDecl * def = nullptr;
    if (!fd->hasBody(def) || !def) return;
    if (def->isDependentContext() || def->isTemplated()) return;
    if (!inScope(def->getLocation())) return;
    if (!done.insert(def->getCanonicalDecl()).second) return;
    Object o;
    loc(o, def->getLocation());
    o["id"]   = did(def);
    o["name"] = def->getNameAsString();
    o["qn"]   = def->getQualifiedNameAsString();
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      def->getNameForDiagnostic(os, pp, true);
      o["full"] = os.str();
    }
    o["ret"] = type(def->getReturnType());
    o["implicit"] = def->isImplicit() || def->isDefaulted();
    if (auto * md = dyn_cast<CXXMethodDecl>(def)) {
      o["rec"] = did(md->getParent());
      o["cls"] = md->getParent()->getNameAsString();
      o["ct"]  = type(ctx.getRecordType(md->getParent()));
      o["const"] = md->isConst();
      o["static"] = md->isStatic();
      o["access"] = (int)md->getAccess();
    }
    if (auto * ta = def->getTemplateSpecializationArgs()) {
      Array a;
      for (auto & x : ta->asArray()) {
        if (x.getKind() == TemplateArgument::Integral) a.push_back((int64_t)x.getAsIntegral().extOrTrunc(64).getZExtValue());
        else if (x.getKind() == TemplateArgument::Type) { Object to; to["t"] = type(x.getAsType()); a.push_back(std::move(to)); }
        else a.push_back(nullptr);
      }
      o["targs"] = std::move(a);
    }
    Array ps;
    for (auto * p : def->parameters()) {
      Object po;
      po["id"]   = did(p);
      po["name"] = p->getNameAsString();
      po["t"]    = type(p->getType());
      const ParmVarDecl * q = p;
      if (q->hasDefaultArg() && !q->hasUninstantiatedDefaultArg() && !q->hasUnparsedDefaultArg() && q->getDefaultArg()
          && !q->getDefaultArg()->isValueDependent())
        po["def"] = expr(q->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (auto * cd = dyn_cast<CXXConstructorDecl>(def)) {
      o["ctor"] = true;
      Array is;
      for (auto * i : cd->inits()) {
        Object io;
        if (i->isMemberInitializer()) {
          io["id"]   = did(i->getMember());
          io["name"] = i->getMember()->getNameAsString();
        } else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        io["written"] = i->isWritten();
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(def->getBody());
    funcs.push_back(std::move(o));
  }

  bool VisitFunctionDecl(FunctionDecl * fd)
  {
    exportFunction(fd);
    return true;
  }
  bool VisitVarDecl(VarDecl * v)
  {
    exportGlobal(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * rd)
  {
    SourceLocation l = rd->getLocation();
    if (auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) l = sp->getSpecializedTemplate()->getLocation();
    if (rd->isThisDeclarationADefinition() && (inScope(l) || inScope(rd->getLocation()))) exportRecord(rd);
    return true;
  }
};

struct Consumer : ASTConsumer
{
  CompilerInstance & ci;
  explicit Consumer(CompilerInstance & c) : ci(c) {}
  void HandleTranslationUnit(ASTContext & c) override
  {
    if (ci.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "astex: errors in translation unit, nothing exported\n";
      return;
    }
    Exporter ex(c);
    ex.TraverseDecl(c.getTranslationUnitDecl());
    Object o;
    o["files"]   = std::move(ex.file_list);
    o["types"]   = std::move(ex.types);
    o["funcs"]   = std::move(ex.funcs);
    o["records"] = std::move(ex.records);
    o["globals"] = std::move(ex.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(o)) << "\n";
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & ci, StringRef) override
  {
    return std::make_unique<Consumer>(ci);
  }
};

// usage: astex OUT.json PREFIX[:PREFIX...] file.cpp flags...
int main(int argc, const char ** argv)
{
  if (argc < 4) return 2;
  g_out = argv[1];
  {
    std::string s = argv[2];
    size_t p      = 0;
    while (p <= s.size()) {
      size_t q = s.find(':', p);
      if (q == std::string::npos) q = s.size();
      if (q > p) g_prefixes.push_back(s.substr(p, q - p));
      p = q + 1;
    }
  }
  std::vector<std::string> args(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool t(db, {std::string(argv[3])});
  return t.run(tooling::newFrontendActionFactory<Action>().get());
}
