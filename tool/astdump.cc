// astdump: dumps the resolved (type-checked) AST of the repository's own
// functions, records, enums and constants of one translation unit as JSON.
// Usage: astdump <root> <out.json> <source> -- <clang args>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::OStream;

static std::string g_root, g_out;
static bool g_failed = false;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  Dumper(ASTContext& c, OStream& j) : ctx_(c), sm_(c.getSourceManager()), j_(j), pp_(c.getPrintingPolicy()) {
    pp_.SuppressTagKeyword = true;
    pp_.FullyQualifiedName = true;
    pp_.SuppressUnwrittenScope = true;
    pp_.PrintCanonicalTypes = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  std::vector<std::string> types;
  std::map<std::string, int> type_ids;
  std::vector<const RecordDecl*> records;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> globals;
  std::vector<const FunctionDecl*> functions;

  bool inRoot(SourceLocation loc, std::string* file = nullptr) {
    if (loc.isInvalid()) return false;
    loc = sm_.getExpansionLoc(loc);
    auto p = sm_.getPresumedLoc(loc);
    if (p.isInvalid()) return false;
    std::string f = p.getFilename();
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(f, real)) f = std::string(real);
    if (f.rfind(g_root, 0) != 0) return false;
    std::string rel = f.substr(g_root.size() + (g_root.back() == '/' ? 0 : 1));
    if (rel.rfind("third_party/", 0) == 0) return false;
    if (file) *file = rel;
    return true;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return true;
    if (f->isDefaulted() && !f->hasBody()) return true;
    if (!inRoot(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;  // dumped inside its LambdaExpr
    functions.push_back(f);
    return true;
  }
  bool VisitRecordDecl(RecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
    if (!inRoot(r->getLocation())) return true;
    if (auto* c = dyn_cast<CXXRecordDecl>(r)) if (c->isLambda()) return true;
    records.push_back(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && inRoot(e->getLocation())) enums.push_back(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->getDeclContext()->isDependentContext()) return true;
    if ((v->isFileVarDecl() || v->isStaticDataMember()) && v->isThisDeclarationADefinition() && inRoot(v->getLocation()))
      globals.push_back(v);
    return true;
  }

  int typeId(QualType t) {
    std::string s = t.isNull() ? "?" : t.getCanonicalType().getAsString(pp_);
    auto it = type_ids.find(s);
    if (it != type_ids.end()) return it->second;
    int id = types.size();
    types.push_back(s);
    type_ids[s] = id;
    return id;
  }

  std::string usr(const Decl* d) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return std::string(b);
  }
  std::string fnKey(const FunctionDecl* f) { return usr(f->getCanonicalDecl()); }
  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp_);
    return s;
  }
  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = decl_ids_.find(d);
    if (it != decl_ids_.end()) return it->second;
    int id = decl_ids_.size();
    decl_ids_[d] = id;
    return id;
  }

  void pos(SourceLocation l) {
    SourceLocation e = sm_.getExpansionLoc(l);
    j_.attributeArray("p", [&] {
      j_.value((int64_t)sm_.getExpansionLineNumber(e));
      j_.value((int64_t)sm_.getExpansionColumnNumber(e));
    });
    if (l.isMacroID()) {
      // outermost macro name
      SourceLocation m = l;
      std::string name;
      while (m.isMacroID()) {
        name = Lexer::getImmediateMacroName(m, sm_, ctx_.getLangOpts()).str();
        m = sm_.getImmediateMacroCallerLoc(m);
      }
      if (!name.empty()) j_.attribute("mac", name);
    }
  }

  static const Expr* strip(const Expr* e) {
    while (e) {
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
        // implicit/elidable copy or converting construction from one argument
        auto* ctor = x->getConstructor();
        if ((ctor->isCopyOrMoveConstructor()) && x->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(x)) e = x->getArg(0);
        else break;
      } else break;
    }
    return e;
  }

  void vardecl(const VarDecl* v) {
    j_.object([&] {
      j_.attribute("id", declId(v));
      j_.attribute("n", v->getNameAsString());
      j_.attribute("t", typeId(v->getType()));
      pos(v->getLocation());
      if (v->isStaticLocal()) j_.attribute("static", true);
      if (v->isConstexpr()) j_.attribute("constexpr", true);
      if (const Expr* i = v->getInit()) {
        j_.attributeBegin("init"); expr(i); j_.attributeEnd();
      }
      if (auto* d = dyn_cast<DecompositionDecl>(v)) {
        j_.attributeArray("bind", [&] {
          for (auto* b : d->bindings()) j_.object([&] {
            j_.attribute("id", declId(b));
            j_.attribute("n", b->getNameAsString());
            j_.attribute("t", typeId(b->getType()));
          });
        });
      }
    });
  }

  void attrStmt(const char* n, const Stmt* s) {
    if (!s) return;
    j_.attributeBegin(n); stmt(s); j_.attributeEnd();
  }
  void attrExpr(const char* n, const Expr* e) {
    if (!e) return;
    j_.attributeBegin(n); expr(e); j_.attributeEnd();
  }

  void stmt(const Stmt* s) {
    if (!s) { j_.value(nullptr); return; }
    if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
    j_.objectBegin();
    pos(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      j_.attribute("k", "block");
      j_.attributeArray("c", [&] { for (auto* c : x->body()) stmt(c); });
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      j_.attribute("k", "decl");
      j_.attributeArray("v", [&] {
        for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) vardecl(v);
      });
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      j_.attribute("k", "if");
      if (x->isConstexpr()) j_.attribute("constexpr", true);
      attrStmt("init", x->getInit());
      if (x->getConditionVariable()) { j_.attributeBegin("var"); vardecl(x->getConditionVariable()); j_.attributeEnd(); }
      attrExpr("cond", x->getCond());
      attrStmt("then", x->getThen());
      attrStmt("else", x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      j_.attribute("k", "for");
      attrStmt("init", x->getInit());
      attrExpr("cond", x->getCond());
      attrExpr("inc", x->getInc());
      attrStmt("body", x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      j_.attribute("k", "while");
      attrExpr("cond", x->getCond());
      attrStmt("body", x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      j_.attribute("k", "do");
      attrStmt("body", x->getBody());
      attrExpr("cond", x->getCond());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      j_.attribute("k", "rfor");
      j_.attributeBegin("var"); vardecl(x->getLoopVariable()); j_.attributeEnd();
      attrExpr("range", x->getRangeInit());
      attrStmt("body", x->getBody());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      j_.attribute("k", "ret");
      attrExpr("e", x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      j_.attribute("k", "break");
    } else if (isa<ContinueStmt>(s)) {
      j_.attribute("k", "continue");
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      j_.attribute("k", "switch");
      attrStmt("init", x->getInit());
      attrExpr("cond", x->getCond());
      attrStmt("body", x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      j_.attribute("k", "case");
      attrExpr("e", x->getLHS());
      attrStmt("sub", x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      j_.attribute("k", "default");
      attrStmt("sub", x->getSubStmt());
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      j_.attribute("k", "try");
      attrStmt("body", x->getTryBlock());
      j_.attributeArray("h", [&] {
        for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
          auto* h = x->getHandler(i);
          j_.object([&] {
            if (h->getExceptionDecl()) { j_.attributeBegin("var"); vardecl(h->getExceptionDecl()); j_.attributeEnd(); }
            attrStmt("body", h->getHandlerBlock());
          });
        }
      });
    } else if (isa<NullStmt>(s)) {
      j_.attribute("k", "null");
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      j_.attribute("k", "block");
      j_.attributeArray("c", [&] { stmt(x->getSubStmt()); });
    } else if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
      j_.attribute("k", "omp");
      j_.attribute("d", llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str());
      j_.attributeArray("cl", [&] {
        for (auto* c : x->clauses()) {
          if (!c || c->isImplicit()) continue;
          j_.object([&] {
            j_.attribute("n", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str());
            if (auto* r = dyn_cast<OMPReductionClause>(c)) {
              j_.attribute("op", r->getNameInfo().getName().getAsString());
            }
            if (auto* nt = dyn_cast<OMPNumThreadsClause>(c)) {
              attrExpr("e", nt->getNumThreads());
            } else if (auto* cl = dyn_cast<OMPCollapseClause>(c)) {
              attrExpr("e", cl->getNumForLoops());
            } else if (isa<OMPReductionClause>(c) || isa<OMPPrivateClause>(c) || isa<OMPFirstprivateClause>(c) || isa<OMPSharedClause>(c) || isa<OMPLastprivateClause>(c)) {
              j_.attributeArray("vars", [&] {
                auto dump = [&](auto* cc) { for (auto* e : cc->varlists()) expr(e); };
                if (auto* q = dyn_cast<OMPReductionClause>(c)) dump(q);
                else if (auto* q = dyn_cast<OMPPrivateClause>(c)) dump(q);
                else if (auto* q = dyn_cast<OMPFirstprivateClause>(c)) dump(q);
                else if (auto* q = dyn_cast<OMPSharedClause>(c)) dump(q);
                else if (auto* q = dyn_cast<OMPLastprivateClause>(c)) dump(q);
              });
            }
          });
        }
      });
      if (auto* cr = dyn_cast<OMPCriticalDirective>(x)) {
        j_.attribute("name", cr->getDirectiveName().getAsString());
      }
      if (x->hasAssociatedStmt()) {
        const Stmt* a = x->getAssociatedStmt();
        while (auto* cs = dyn_cast_or_null<CapturedStmt>(a)) a = cs->getCapturedStmt();
        attrStmt("body", a);
      }
    } else if (auto* x = dyn_cast<CapturedStmt>(s)) {
      j_.attribute("k", "block");
      j_.attributeArray("c", [&] { stmt(x->getCapturedStmt()); });
    } else {
      j_.attribute("k", std::string("?") + s->getStmtClassName());
      j_.attributeArray("c", [&] { for (auto* c : s->children()) stmt(c); });
    }
    j_.objectEnd();
  }

  void exprs(const char* n, llvm::ArrayRef<const Expr*> es) {
    j_.attributeArray(n, [&] { for (auto* e : es) expr(e); });
  }

  void constval(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (!(t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return;
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects) {
      if (r.Val.isInt()) j_.attribute("cv", (int64_t)r.Val.getInt().extOrTrunc(64).getRawData()[0]);
      else if (r.Val.isFloat()) j_.attribute("cv", r.Val.getFloat().convertToDouble());
    }
  }

  void expr(const Expr* e0) {
    const Expr* e = strip(e0);
    if (!e) { j_.value(nullptr); return; }
    j_.objectBegin();
    pos(e->getBeginLoc());
    j_.attribute("t", typeId(e->getType()));
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      j_.attribute("k", "ref");
      j_.attribute("n", d->getNameAsString());
      if (isa<ParmVarDecl>(d)) { j_.attribute("dk", "param"); j_.attribute("id", declId(d)); }
      else if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDecl()) { j_.attribute("dk", "local"); j_.attribute("id", declId(d)); }
        else { j_.attribute("dk", "global"); j_.attribute("qn", qn(d)); }
        if (v->getType().isConstQualified() || v->isConstexpr()) constval(e);
      } else if (isa<BindingDecl>(d)) { j_.attribute("dk", "local"); j_.attribute("id", declId(d)); }
      else if (auto* f = dyn_cast<FunctionDecl>(d)) { j_.attribute("dk", "func"); j_.attribute("qn", qn(d)); j_.attribute("key", fnKey(f)); }
      else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { j_.attribute("dk", "enum"); j_.attribute("qn", qn(d)); j_.attribute("cv", (int64_t)ec->getInitVal().extOrTrunc(64).getRawData()[0]); }
      else { j_.attribute("dk", "other"); j_.attribute("qn", qn(d)); }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      j_.attribute("k", "mem");
      j_.attribute("n", d->getNameAsString());
      j_.attribute("qn", qn(d));
      j_.attribute("mk", isa<FieldDecl>(d) ? "field" : (isa<CXXMethodDecl>(d) ? "method" : "static"));
      if (x->isArrow()) j_.attribute("arrow", true);
      attrExpr("b", x->getBase());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      j_.attribute("k", "opcall");
      j_.attribute("op", getOperatorSpelling(x->getOperator()));
      if (auto* f = x->getDirectCallee()) { j_.attribute("qn", qn(f)); j_.attribute("key", fnKey(f)); }
      j_.attributeArray("args", [&] { for (auto* a : x->arguments()) expr(a); });
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      j_.attribute("k", "mcall");
      if (auto* f = x->getMethodDecl()) {
        j_.attribute("n", f->getNameAsString());
        j_.attribute("qn", qn(f)); j_.attribute("key", fnKey(f));
        if (f->isVirtual()) j_.attribute("virt", true);
        if (f->isConst()) j_.attribute("const", true);
      }
      if (auto* o = x->getImplicitObjectArgument()) {
        attrExpr("obj", o);
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->isArrow()) j_.attribute("arrow", true);
      }
      j_.attributeArray("args", [&] { for (auto* a : x->arguments()) expr(a); });
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      j_.attribute("k", "call");
      if (auto* f = x->getDirectCallee()) {
        j_.attribute("n", f->getNameAsString());
        j_.attribute("qn", qn(f)); j_.attribute("key", fnKey(f));
      } else attrExpr("fe", x->getCallee());
      j_.attributeArray("args", [&] { for (auto* a : x->arguments()) expr(a); });
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      j_.attribute("k", "lambda");
      auto* op = x->getCallOperator();
      j_.attribute("key", fnKey(op));
      std::vector<const FunctionDecl*> bodies;
      if (auto* ft = op->getDescribedFunctionTemplate()) {
        for (auto* s : ft->specializations()) bodies.push_back(s);
      } else bodies.push_back(op);
      j_.attributeArray("caps", [&] {
        for (auto& c : x->captures()) j_.object([&] {
          if (c.capturesThis()) j_.attribute("this", true);
          else if (c.capturesVariable()) {
            j_.attribute("id", declId(c.getCapturedVar()));
            j_.attribute("n", c.getCapturedVar()->getNameAsString());
            j_.attribute("byref", c.getCaptureKind() == LCK_ByRef);
            if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) attrExpr("init", vd->getInit());
          }
        });
      });
      j_.attributeArray("fns", [&] {
        for (auto* b : bodies) j_.object([&] {
          j_.attribute("key", fnKey(b));
          params(b);
          j_.attribute("rt", typeId(b->getReturnType()));
          attrStmt("body", b->getBody());
        });
      });
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      j_.attribute("k", "bin");
      j_.attribute("op", x->getOpcodeStr().str());
      attrExpr("l", x->getLHS());
      attrExpr("r", x->getRHS());
      if (!x->isAssignmentOp()) constval(e);
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      j_.attribute("k", "un");
      j_.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()).str());
      if (x->isPostfix()) j_.attribute("post", true);
      attrExpr("e", x->getSubExpr());
      if (!x->isIncrementDecrementOp()) constval(e);
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      j_.attribute("k", "cond");
      attrExpr("c", x->getCond());
      attrExpr("a", x->getTrueExpr());
      attrExpr("b", x->getFalseExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      j_.attribute("k", "idx");
      attrExpr("b", x->getBase());
      attrExpr("i", x->getIdx());
    } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      j_.attribute("k", "lit");
      j_.attribute("cv", (int64_t)x->getValue().getLimitedValue(INT64_MAX));
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      j_.attribute("k", "lit");
      j_.attribute("cv", x->getValueAsApproximateDouble());
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      j_.attribute("k", "lit");
      j_.attribute("cv", x->getValue());
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      j_.attribute("k", "lit");
      j_.attribute("cv", (int64_t)x->getValue());
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      j_.attribute("k", "str");
      if (x->isOrdinary() || x->isUTF8()) {
        std::string s = x->getString().str();
        if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
        j_.attribute("v", s);
      }
    } else if (isa<CXXThisExpr>(e)) {
      j_.attribute("k", "this");
    } else if (isa<CXXNullPtrLiteralExpr>(e)) {
      j_.attribute("k", "nullptr");
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      j_.attribute("k", "ctor");
      j_.attribute("qn", qn(x->getConstructor()->getParent()));
      j_.attribute("key", fnKey(x->getConstructor()));
      if (x->isListInitialization()) j_.attribute("list", true);
      if (x->getConstructor()->isCopyOrMoveConstructor()) j_.attribute("copy", true);
      j_.attributeArray("args", [&] { for (auto* a : x->arguments()) expr(a); });
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (auto* sem = x->isSemanticForm() ? x : x->getSemanticForm()) x = sem;
      j_.attribute("k", "init");
      j_.attributeArray("args", [&] { for (auto* a : x->inits()) expr(a); });
      if (auto* rd = x->getType()->getAsRecordDecl()) {
        j_.attributeArray("fields", [&] { for (auto* f : rd->fields()) j_.value(f->getNameAsString()); });
      }
    } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      j_.attribute("k", "cast");
      attrExpr("e", x->getSubExpr());
      constval(e);
    } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
      j_.attribute("k", "definit");
      attrExpr("e", x->getExpr());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      j_.attribute("k", "throw");
      attrExpr("e", x->getSubExpr());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      j_.attribute("k", "new");
      if (x->getInitializer()) attrExpr("e", x->getInitializer());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      j_.attribute("k", "delete");
      attrExpr("e", x->getArgument());
    } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      j_.attribute("k", "bin");
      auto d = x->getDecomposedForm();
      j_.attribute("op", BinaryOperator::getOpcodeStr(d.Opcode).str());
      attrExpr("l", d.LHS);
      attrExpr("r", d.RHS);
    } else {
      j_.attribute("k", std::string("?") + e->getStmtClassName());
      if (!e->isValueDependent()) constval(e);
      j_.attributeArray("c", [&] { for (auto* c : e->children()) if (c) stmt(c); });
    }
    j_.objectEnd();
  }

  void params(const FunctionDecl* f) {
    j_.attributeArray("params", [&] {
      for (auto* p : f->parameters()) j_.object([&] {
        j_.attribute("id", declId(p));
        j_.attribute("n", p->getNameAsString());
        j_.attribute("t", typeId(p->getType()));
        if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) attrExpr("def", p->getDefaultArg());
      });
    });
  }

  void function(const FunctionDecl* f) {
    j_.object([&] {
      std::string file; inRoot(f->getLocation(), &file);
      j_.attribute("key", fnKey(f));
      j_.attribute("qn", qn(f));
      j_.attribute("n", f->getNameAsString());
      j_.attribute("file", file);
      pos(f->getLocation());
      j_.attribute("endl", (int64_t)sm_.getExpansionLineNumber(f->getEndLoc()));
      j_.attribute("rt", typeId(f->getReturnType()));
      if (f->isTemplateInstantiation()) j_.attribute("inst", true);
      if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
        j_.attribute("cls", qn(m->getParent()));
        if (m->isStatic()) j_.attribute("static", true);
        if (m->isVirtual()) j_.attribute("virt", true);
        if (m->isConst()) j_.attribute("const", true);
        j_.attributeArray("over", [&] { for (auto* o : m->overridden_methods()) j_.value(fnKey(o)); });
        j_.attribute("acc", (int)m->getAccess());
      }
      params(f);
      if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
        j_.attribute("ctor", true);
        j_.attributeArray("inits", [&] {
          for (auto* i : c->inits()) j_.object([&] {
            if (i->isAnyMemberInitializer()) j_.attribute("f", i->getAnyMember()->getNameAsString());
            else j_.attribute("base", true);
            j_.attribute("written", i->isWritten());
            attrExpr("e", i->getInit());
          });
        });
      }
      attrStmt("body", f->getBody());
    });
  }

  void record(const RecordDecl* r) {
    j_.object([&] {
      std::string file; inRoot(r->getLocation(), &file);
      j_.attribute("qn", qn(r));
      j_.attribute("file", file);
      pos(r->getLocation());
      j_.attributeArray("fields", [&] {
        for (auto* f : r->fields()) j_.object([&] {
          j_.attribute("n", f->getNameAsString());
          j_.attribute("t", typeId(f->getType()));
          pos(f->getLocation());
          if (f->hasInClassInitializer() && f->getInClassInitializer()) attrExpr("init", f->getInClassInitializer());
          j_.attribute("acc", (int)f->getAccess());
        });
      });
      if (auto* c = dyn_cast<CXXRecordDecl>(r)) {
        j_.attributeArray("bases", [&] { for (auto& b : c->bases()) j_.value(typeId(b.getType())); });
        j_.attributeArray("methods", [&] {
          for (auto* m : c->methods()) j_.object([&] { j_.attribute("n", m->getNameAsString()); j_.attribute("key", fnKey(m)); j_.attribute("rt", typeId(m->getReturnType())); j_.attribute("acc", (int)m->getAccess());});
        });
      }
    });
  }

  void run() {
    TraverseDecl(ctx_.getTranslationUnitDecl());
    j_.object([&] {
      j_.attributeArray("functions", [&] {
        std::set<std::string> seen;
        for (size_t i = 0; i < functions.size(); ++i) {
          auto k = fnKey(functions[i]);
          if (!k.empty() && !seen.insert(k).second) continue;
          function(functions[i]);
        }
      });
      j_.attributeArray("records", [&] { std::set<const Decl*> seen; for (auto* r : records) if (seen.insert(r).second) record(r); });
      j_.attributeArray("enums", [&] {
        for (auto* e : enums) j_.object([&] {
          j_.attribute("qn", qn(e));
          std::string file; inRoot(e->getLocation(), &file);
          j_.attribute("file", file); pos(e->getLocation());
          j_.attributeArray("vals", [&] { for (auto* c : e->enumerators()) j_.array([&] { j_.value(c->getNameAsString()); j_.value((int64_t)c->getInitVal().extOrTrunc(64).getRawData()[0]); }); });
        });
      });
      j_.attributeArray("globals", [&] {
        for (auto* v : globals) j_.object([&] {
          j_.attribute("qn", qn(v));
          std::string file; inRoot(v->getLocation(), &file);
          j_.attribute("file", file); pos(v->getLocation());
          j_.attribute("t", typeId(v->getType()));
          if (v->getInit()) { attrExpr("init", v->getInit()); }
        });
      });
      j_.attributeArray("types", [&] { for (auto& t : types) j_.value(t); });
    });
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  OStream& j_;
  PrintingPolicy pp_;
  std::map<const Decl*, int> decl_ids_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) { g_failed = true; return; }
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    if (ec) { g_failed = true; return; }
    OStream j(os);
    Dumper d(c, j);
    d.run();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: astdump root out src -- args\n"; return 2; }
  g_root = argv[1]; g_out = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args;
  int i = 4;
  if (std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool t(db, {src});
  class F : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } f;
  int rc = t.run(&f);
  return (rc || g_failed) ? 3 : 0;
}
