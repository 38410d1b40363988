// Dumps the resolved AST of every function defined under the given source
// prefixes as JSON. usage: extract OUT.json PREFIX[,PREFIX...] FILE -- clang-args
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gPrefixes;
static std::string gOut;

class Dumper {
 public:
  Dumper(ASTContext& c, Sema* s) : C(c), SM(c.getSourceManager()), S(s), NG(c), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
  }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return false;
    llvm::StringRef f = P.getFilename();
    for (auto& p : gPrefixes)
      if (f.starts_with(p)) return true;
    return false;
  }
  std::string file(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? "" : P.getFilename();
  }
  int line(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? 0 : (int)P.getLine();
  }

  // ---- types
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    auto key = std::make_pair(T.getAsOpaquePtr(), 0);
    auto it = TypeIdx.find(key);
    if (it != TypeIdx.end()) return it->second;
    int idx = Types.size();
    TypeIdx[key] = idx;
    Types.push_back(json::Object{});
    json::Object o;
    if (T.isConstQualified()) o["c"] = 1;
    const Type* t = T.getTypePtr();
    std::string pn = T.getUnqualifiedType().getAsString(PP);
    if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto* ET = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = ET->getDecl()->getQualifiedNameAsString();
      o["u"] = type(ET->getDecl()->getIntegerType());
    } else if (t->isIntegralType(C)) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(T);
      o["s"] = t->isSignedIntegerType() ? 1 : 0;
      o["n"] = pn;
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSize(T);
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (auto* PT = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["e"] = type(PT->getPointeeType());
    } else if (auto* RT = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(RT) ? 1 : 0;
      o["e"] = type(RT->getPointeeType());
    } else if (auto* AT = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["e"] = type(AT->getElementType());
      o["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (auto* FT = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn";
      o["r"] = type(FT->getReturnType());
      json::Array a;
      for (auto q : FT->getParamTypes()) a.push_back(type(q));
      o["p"] = std::move(a);
    } else if (auto* RD = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      if (RD->isLambda()) {
        o["n"] = "lambda#" + std::to_string(declId(RD));
      } else {
        o["n"] = RD->getQualifiedNameAsString();
        if (RD->getQualifiedNameAsString().empty()) o["n"] = pn;
      }
      if (auto* SD = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        o["a"] = targs(SD->getTemplateArgs().asArray());
      }
      o["pn"] = pn;
      Types[idx] = json::Object(o);
      if (RD->getDefinition() && inRepo(RD->getDefinition()->getLocation())) {
        record(RD->getDefinition(), idx);
      }
    } else {
      o["k"] = "other";
      o["n"] = pn;
    }
    Types[idx] = std::move(o);
    return idx;
  }

  json::Array targs(llvm::ArrayRef<TemplateArgument> A) {
    json::Array a;
    for (auto& t : A) targ(t, a);
    return a;
  }
  void targ(const TemplateArgument& t, json::Array& a) {
    switch (t.getKind()) {
      case TemplateArgument::Type:
        a.push_back(type(t.getAsType()));
        break;
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s;
        t.getAsIntegral().toString(s);
        a.push_back(json::Object{{"i", s.str().str()}});
        break;
      }
      case TemplateArgument::Pack:
        for (auto& p : t.pack_elements()) targ(p, a);
        break;
      default:
        a.push_back(json::Object{{"o", 1}});
    }
  }

  void record(const CXXRecordDecl* RD, int idx) {
    if (RD->isDependentContext()) return;
    if (!RecDone.insert(RD->getCanonicalDecl()).second) return;
    json::Object o;
    o["t"] = idx;
    o["n"] = RD->getQualifiedNameAsString();
    o["file"] = file(RD->getLocation());
    o["line"] = line(RD->getLocation());
    o["union"] = RD->isUnion() ? 1 : 0;
    o["poly"] = RD->isPolymorphic() ? 1 : 0;
    json::Array bases;
    for (auto& b : RD->bases()) bases.push_back(type(b.getType()));
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto* f : RD->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        PendingInits.push_back({f, (int)Records.size(), (int)fields.size()});
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    size_t my = Records.size();
    for (auto& p : PendingInits)
      if (p.rec == (int)my) {}
    Records.push_back(std::move(o));
    // in-class initializers
    std::vector<Pending> pend;
    pend.swap(PendingInits);
    for (auto& p : pend) {
      auto* e = p.f->getInClassInitializer();
      if (!e || e->isValueDependent()) continue;
      // dump first: it may append to Records
      json::Value v = expr(e);
      for (size_t r = my; r < Records.size(); r++) {
        auto* ro = Records[r].getAsObject();
        if ((*ro)["n"].getAsString() == p.f->getParent()->getQualifiedNameAsString()) {
          auto* fa = (*ro)["fields"].getAsArray();
          for (auto& fv : *fa) {
            auto* fo = fv.getAsObject();
            if ((*fo)["n"].getAsString() == p.f->getNameAsString()) (*fo)["init"] = v;
          }
        }
      }
    }
  }

  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int i = DeclIds.size() + 1;
    DeclIds[D] = i;
    return i;
  }

  std::string fid(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    auto it = FidCache.find(F);
    if (it != FidCache.end()) return it->second;
    std::string n;
    if (F->isDependentContext()) {
      n = "dep:" + F->getQualifiedNameAsString();
    } else if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda()) {
      n = "lambda#" + std::to_string(declId(cast<CXXMethodDecl>(F)->getParent())) + "." + std::to_string(declId(F));
    } else {
      n = NG.getName(F);
      if (n.empty()) n = F->getQualifiedNameAsString() + "#" + std::to_string(declId(F));
      if (!F->isExternallyVisible()) n += "@" + std::to_string(0);
    }
    FidCache[F] = n;
    return n;
  }

  json::Value stmtOpt(const Stmt* s) { return s ? stmt(s) : json::Value(nullptr); }

  json::Object node(const char* k, const Stmt* s) {
    return json::Object{{"k", k}, {"l", line(s->getBeginLoc())}};
  }

  // ---- statements
  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      auto o = node("expr", s);
      o["e"] = expr(e);
      return o;
    }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        auto o = node("block", s);
        json::Array a;
        for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
        o["b"] = std::move(a);
        return o;
      }
      case Stmt::DeclStmtClass: {
        auto o = node("decl", s);
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls())
          if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
        o["d"] = std::move(a);
        return o;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        auto o = node("if", s);
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
        o["c"] = expr(i->getCond());
        if (i->isConstexpr()) {
          Expr::EvalResult R;
          if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsInt(R, C)) {
            bool v = R.Val.getInt().getBoolValue();
            o["c"] = json::Object{{"k", "int"}, {"v", v ? "1" : "0"}, {"t", type(C.BoolTy)}};
            if (v) o["then"] = stmt(i->getThen());
            else { o["then"] = json::Object{{"k", "null"}}; if (i->getElse()) o["else"] = stmt(i->getElse()); }
            return o;
          }
        }
        o["then"] = stmt(i->getThen());
        if (i->getElse()) o["else"] = stmt(i->getElse());
        return o;
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        auto o = node("for", s);
        o["init"] = stmtOpt(f->getInit());
        if (f->getConditionVariable()) o["var"] = var(f->getConditionVariable());
        o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
        o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr);
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::WhileStmtClass: {
        auto* f = cast<WhileStmt>(s);
        auto o = node("while", s);
        if (f->getConditionVariable()) o["var"] = var(f->getConditionVariable());
        o["c"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::DoStmtClass: {
        auto* f = cast<DoStmt>(s);
        auto o = node("do", s);
        o["c"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        auto o = node("forrange", s);
        if (f->getInit()) o["init"] = stmt(f->getInit());
        o["range"] = expr(f->getRangeInit());
        o["var"] = var(f->getLoopVariable(), /*no_init=*/true);
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::ReturnStmtClass: {
        auto o = node("return", s);
        auto* e = cast<ReturnStmt>(s)->getRetValue();
        o["e"] = e ? expr(e) : json::Value(nullptr);
        return o;
      }
      case Stmt::BreakStmtClass: return node("break", s);
      case Stmt::ContinueStmtClass: return node("continue", s);
      case Stmt::NullStmtClass: return node("null", s);
      case Stmt::SwitchStmtClass: {
        auto* w = cast<SwitchStmt>(s);
        auto o = node("switch", s);
        if (w->getInit()) o["init"] = stmt(w->getInit());
        if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
        o["c"] = expr(w->getCond());
        o["body"] = stmt(w->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        auto* c = cast<CaseStmt>(s);
        auto o = node("case", s);
        o["v"] = expr(c->getLHS());
        if (c->getRHS()) o["v2"] = expr(c->getRHS());
        o["s"] = stmtOpt(c->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        auto o = node("default", s);
        o["s"] = stmtOpt(cast<DefaultStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass: {
        auto o = node("label", s);
        o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::CXXTryStmtClass: {
        auto o = node("try", s);
        o["b"] = stmt(cast<CXXTryStmt>(s)->getTryBlock());
        return o;
      }
      default: {
        auto o = node("unsupported", s);
        o["what"] = s->getStmtClassName();
        return o;
      }
    }
  }

  json::Value var(const VarDecl* v, bool no_init = false) {
    json::Object o{{"id", declId(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}, {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = 1;
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto* bd : dd->bindings())
        b.push_back(json::Object{{"id", declId(bd)}, {"n", bd->getNameAsString()}, {"t", type(bd->getType())}});
      o["bind"] = std::move(b);
    }
    if (!no_init && v->getInit()) o["init"] = expr(v->getInit());
    return o;
  }

  // ---- expressions
  json::Value calleeInfo(const FunctionDecl* F) {
    json::Object o;
    o["id"] = fid(F);
    o["n"] = F->getQualifiedNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isPureVirtual()) o["pure"] = 1;
      if (M->isCopyAssignmentOperator()) o["cassign"] = 1;
      if (M->isMoveAssignmentOperator()) o["massign"] = 1;
      if (M->isDefaulted() && !M->isUserProvided()) o["defaulted"] = 1;
    }
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      if (CD->isCopyConstructor()) o["copy"] = 1;
      if (CD->isMoveConstructor()) o["move"] = 1;
      if (CD->isDefaultConstructor()) o["dflt"] = 1;
    }
    json::Array p;
    for (auto* q : F->parameters()) p.push_back(type(q->getType()));
    o["p"] = std::move(p);
    o["r"] = type(F->getReturnType());
    if (auto* ta = F->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
    if (F->getBuiltinID()) o["builtin"] = 1;
    return o;
  }

  int callee(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    auto it = CalleeIdx.find(F);
    if (it != CalleeIdx.end()) return it->second;
    int i = Callees.size();
    CalleeIdx[F] = i;
    Callees.push_back(nullptr);
    json::Value v = calleeInfo(F);
    Callees[i] = std::move(v);
    wanted(F);
    return i;
  }

  void wanted(const FunctionDecl* F) {
    const FunctionDecl* D = nullptr;
    if (F->hasBody(D) && D && inRepo(D->getLocation())) fn(D);
  }

  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto* e : r) a.push_back(expr(e));
    return a;
  }

  json::Object en(const char* k, const Expr* e) {
    return json::Object{{"k", k}, {"l", line(e->getExprLoc())}, {"t", type(e->getType())}};
  }

  bool foldInt(const Expr* e, json::Value& out) {
    if (!e->isPRValue() || e->isValueDependent() || e->isTypeDependent()) return false;
    QualType T = e->getType();
    if (!T->isIntegralOrEnumerationType()) return false;
    // do not fold through a comma or a call to repository code with side effects
    Expr::EvalResult R;
    if (!e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
    if (R.HasSideEffects) return false;
    llvm::SmallString<32> s;
    R.Val.getInt().toString(s);
    out = json::Object{{"k", "int"}, {"v", s.str().str()}, {"t", type(T)}, {"l", line(e->getExprLoc())}};
    return true;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    json::Value folded = nullptr;
    if (foldInt(e, folded)) return folded;
    switch (e->getStmtClass()) {
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::CXXRewrittenBinaryOperatorClass:
        return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
      case Stmt::MaterializeTemporaryExprClass: {
        auto o = en("temp", e);
        o["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
        return o;
      }
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::IntegerLiteralClass: {
        auto o = en("int", e);
        llvm::SmallString<32> s;
        cast<IntegerLiteral>(e)->getValue().toStringUnsigned(s);
        o["v"] = s.str().str();
        return o;
      }
      case Stmt::FloatingLiteralClass: {
        auto o = en("flt", e);
        llvm::SmallString<32> s;
        cast<FloatingLiteral>(e)->getValue().toString(s, 40);
        o["v"] = s.str().str();
        return o;
      }
      case Stmt::StringLiteralClass: {
        auto o = en("str", e);
        json::Array a;
        for (unsigned char c : cast<StringLiteral>(e)->getBytes()) a.push_back((int)c);
        o["v"] = std::move(a);
        return o;
      }
      case Stmt::PredefinedExprClass:
      case Stmt::SourceLocExprClass: {
        auto o = en("opaque", e);
        o["what"] = e->getStmtClassName();
        return o;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: return en("nullptr", e);
      case Stmt::CXXThisExprClass: return en("this", e);
      case Stmt::DeclRefExprClass: {
        auto* d = cast<DeclRefExpr>(e);
        if (auto* F = dyn_cast<FunctionDecl>(d->getDecl())) {
          auto o = en("fnref", e);
          o["f"] = callee(F);
          return o;
        }
        auto o = en("ref", e);
        o["id"] = declId(d->getDecl());
        o["n"] = d->getDecl()->getNameAsString();
        if (auto* V = dyn_cast<VarDecl>(d->getDecl())) {
          if (V->hasGlobalStorage() && !V->isStaticLocal()) {
            o["g"] = 1;
            o["qn"] = V->getQualifiedNameAsString();
            global(V);
          }
        }
        return o;
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        if (auto* F = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
          auto o = en("memfn", e);
          o["f"] = callee(F);
          o["b"] = expr(m->getBase());
          o["arrow"] = m->isArrow() ? 1 : 0;
          return o;
        }
        if (auto* V = dyn_cast<VarDecl>(m->getMemberDecl())) {
          auto o = en("ref", e);
          o["id"] = declId(V);
          o["n"] = V->getNameAsString();
          o["g"] = 1;
          o["qn"] = V->getQualifiedNameAsString();
          global(V);
          return o;
        }
        auto o = en("mem", e);
        o["f"] = m->getMemberDecl()->getNameAsString();
        if (auto* FD = dyn_cast<FieldDecl>(m->getMemberDecl())) o["fi"] = (int)FD->getFieldIndex();
        o["b"] = expr(m->getBase());
        o["arrow"] = m->isArrow() ? 1 : 0;
        return o;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* a = cast<ArraySubscriptExpr>(e);
        auto o = en("idx", e);
        o["b"] = expr(a->getBase());
        o["i"] = expr(a->getIdx());
        return o;
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        auto o = en("un", e);
        std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix()) op = "p" + op;
        o["op"] = op;
        o["e"] = expr(u->getSubExpr());
        return o;
      }
      case Stmt::BinaryOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        auto o = en("bin", e);
        o["op"] = b->getOpcodeStr().str();
        o["a"] = expr(b->getLHS());
        o["b"] = expr(b->getRHS());
        return o;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<CompoundAssignOperator>(e);
        auto o = en("cassign", e);
        o["op"] = b->getOpcodeStr().str();
        o["a"] = expr(b->getLHS());
        o["b"] = expr(b->getRHS());
        o["ct"] = type(b->getComputationLHSType());
        o["crt"] = type(b->getComputationResultType());
        return o;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        auto o = en("cond", e);
        o["c"] = expr(c->getCond());
        o["a"] = expr(c->getTrueExpr());
        o["b"] = expr(c->getFalseExpr());
        return o;
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass: {
        auto* c = cast<CastExpr>(e);
        switch (c->getCastKind()) {
          case CK_NoOp:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
          case CK_FunctionToPointerDecay:
          case CK_BuiltinFnToFnPtr:
            return expr(c->getSubExpr());
          default:
            break;
        }
        auto o = en("cast", e);
        o["ck"] = c->getCastKindName();
        if (e->isGLValue()) o["lv"] = 1;
        o["e"] = expr(c->getSubExpr());
        return o;
      }
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::CXXMemberCallExprClass:
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c = cast<CallExpr>(e);
        auto o = en("call", e);
        if (e->isGLValue()) o["lv"] = 1;
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
          auto* M = mc->getMethodDecl();
          if (M) {
            o["f"] = callee(M);
            o["obj"] = expr(mc->getImplicitObjectArgument());
            if (mc->getImplicitObjectArgument()->getType()->isPointerType()) o["arrow"] = 1;
            if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
              if (me->hasQualifier()) o["nonvirt"] = 1;
            o["args"] = exprs(c->arguments());
            return o;
          }
        }
        if (auto* F = c->getDirectCallee()) {
          o["f"] = callee(F);
          auto args = exprs(c->arguments());
          if (isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
            o["obj"] = json::Value(args[0]);
            json::Array rest;
            for (size_t q = 1; q < args.size(); q++) rest.push_back(json::Value(args[q]));
            args = std::move(rest);
          }
          if (isa<CXXOperatorCallExpr>(c)) o["opc"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(c)->getOperator());
          o["args"] = std::move(args);
          return o;
        }
        o["fe"] = expr(c->getCallee());
        o["args"] = exprs(c->arguments());
        return o;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        auto o = en("ctor", e);
        o["f"] = callee(c->getConstructor());
        if (c->isElidable()) o["elide"] = 1;
        if (c->isListInitialization()) o["list"] = 1;
        if (c->requiresZeroInitialization()) o["zero"] = 1;
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(expr(x));
        o["args"] = std::move(a);
        return o;
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto* c = cast<CXXInheritedCtorInitExpr>(e);
        auto o = en("inhctor", e);
        o["f"] = callee(c->getConstructor());
        return o;
      }
      case Stmt::CXXStdInitializerListExprClass: {
        auto o = en("stdinit", e);
        o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
        return o;
      }
      case Stmt::InitListExprClass: {
        auto* i = cast<InitListExpr>(e);
        if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
        auto o = en("initlist", e);
        if (i->isTransparent()) return expr(i->getInit(0));
        json::Array a;
        for (auto* x : i->inits()) a.push_back(expr(x));
        if (i->hasArrayFiller()) o["filler"] = expr(i->getArrayFiller());
        if (auto* f = i->getInitializedFieldInUnion()) o["ufield"] = f->getNameAsString();
        o["args"] = std::move(a);
        return o;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass: return en("zero", e);
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        auto o = en("new", e);
        o["at"] = type(n->getAllocatedType());
        if (n->isArray()) o["array"] = 1;
        if (n->getInitializer()) o["init"] = expr(n->getInitializer());
        return o;
      }
      case Stmt::CXXDeleteExprClass: {
        auto o = en("delete", e);
        o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument());
        return o;
      }
      case Stmt::StmtExprClass: {
        auto o = en("stmtexpr", e);
        o["s"] = stmt(cast<StmtExpr>(e)->getSubStmt());
        return o;
      }
      case Stmt::OpaqueValueExprClass: {
        auto* ov = cast<OpaqueValueExpr>(e);
        if (ov->getSourceExpr()) return expr(ov->getSourceExpr());
        return en("opaque", e);
      }
      case Stmt::LambdaExprClass: {
        auto* L = cast<LambdaExpr>(e);
        auto o = en("lambda", e);
        json::Array caps;
        auto ii = L->capture_init_begin();
        auto fi = L->getLambdaClass()->field_begin();
        for (auto& c : L->captures()) {
          json::Object co;
          if (c.capturesThis()) {
            co["this"] = 1;
            if (c.getCaptureKind() == LCK_StarThis) co["star"] = 1;
          } else if (c.capturesVariable()) {
            co["id"] = declId(c.getCapturedVar());
            co["n"] = c.getCapturedVar()->getName().str();
            co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
            co["t"] = type(c.getCapturedVar()->getType());
            if (c.getCapturedVar()->isInitCapture()) co["initcap"] = 1;
            if (*ii) co["init"] = expr(*ii);
          }
          caps.push_back(std::move(co));
          ++ii;
          ++fi;
        }
        o["caps"] = std::move(caps);
        auto* M = L->getCallOperator();
        json::Array fns;
        if (!M->isDependentContext()) {
          wanted(M);
          fns.push_back(callee(M));
        } else if (auto* FT = L->getLambdaClass()->getDependentLambdaCallOperator()) {
          for (auto* sp : FT->specializations()) fns.push_back(callee(sp));
        }
        o["fns"] = std::move(fns);
        return o;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass:
      case Stmt::TypeTraitExprClass: break;
      case Stmt::CXXThrowExprClass: {
        auto o = en("throw", e);
        return o;
      }
      case Stmt::AtomicExprClass: {
        auto o = en("opaque", e);
        o["what"] = "AtomicExpr";
        return o;
      }
      default:
        break;
    }
    auto o = en("unsupported", e);
    o["what"] = e->getStmtClassName();
    return o;
  }

  void global(const VarDecl* V) {
    V = V->getCanonicalDecl();
    if (!GlobDone.insert(V).second) return;
    json::Object o{{"id", declId(V)}, {"n", V->getQualifiedNameAsString()}, {"t", type(V->getType())},
                   {"file", file(V->getLocation())}};
    const VarDecl* D = nullptr;
    const Expr* in = V->getAnyInitializer(D);
    if (in && !in->isValueDependent()) o["init"] = expr(in);
    Globals.push_back(std::move(o));
  }

  void fn(const FunctionDecl* F) {
    if (F->isDependentContext()) return;
    if (!F->doesThisDeclarationHaveABody()) {
      const FunctionDecl* D = nullptr;
      if (!F->hasBody(D)) return;
      F = D;
    }
    if (!FnDone.insert(F->getCanonicalDecl()).second) return;
    json::Object o;
    o["id"] = fid(F);
    o["n"] = F->getQualifiedNameAsString();
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["r"] = type(F->getReturnType());
    if (auto* ta = F->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
    json::Array ps;
    for (auto* p : F->parameters())
      ps.push_back(json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["ps"] = std::move(ps);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      json::Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(fid(b));
      o["over"] = std::move(ov);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      if (CD->isImplicit() || (CD->isDefaulted() && !CD->isUserProvided())) o["implicit"] = 1;
      json::Array in;
      for (auto* i : CD->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          io["f"] = i->getAnyMember()->getNameAsString();
          io["ft"] = type(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer()) {
          io["base"] = type(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = 1;
        }
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (F->isDefaulted() && !F->isUserProvided()) o["defaulted"] = 1;
    o["body"] = stmtOpt(F->getBody());
    Functions.push_back(std::move(o));
  }

  void write() {
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    json::Object top;
    top["types"] = std::move(Types);
    top["callees"] = std::move(Callees);
    top["records"] = std::move(Records);
    top["globals"] = std::move(Globals);
    top["functions"] = std::move(Functions);
    os << json::Value(std::move(top)) << "\n";
  }

 private:
  struct Pending { const FieldDecl* f; int rec; int fi; };
  ASTContext& C;
  SourceManager& SM;
  Sema* S;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  std::map<std::pair<void*, int>, int> TypeIdx;
  json::Array Types, Callees, Records, Globals, Functions;
  std::map<const Decl*, int> DeclIds;
  std::map<const FunctionDecl*, int> CalleeIdx;
  std::map<const FunctionDecl*, std::string> FidCache;
  std::set<const Decl*> RecDone, GlobDone, FnDone;
  std::vector<Pending> PendingInits;
};

class V : public RecursiveASTVisitor<V> {
 public:
  explicit V(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->doesThisDeclarationHaveABody() && D.inRepo(F->getLocation())) D.fn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.inRepo(R->getLocation()))
      D.type(R->getASTContext().getRecordType(R));
    return true;
  }
  Dumper& D;
};

class Cons : public ASTConsumer {
 public:
  explicit Cons(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(C, nullptr);
    V v(d);
    v.TraverseDecl(C.getTranslationUnitDecl());
    d.write();
  }
  CompilerInstance& CI;
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Cons>(ci);
  }
};

int main(int argc, char** argv) {
  gOut = argv[1];
  std::string p = argv[2];
  size_t i = 0;
  while (i <= p.size()) {
    size_t j = p.find(',', i);
    if (j == std::string::npos) j = p.size();
    if (j > i) gPrefixes.push_back(p.substr(i, j - i));
    i = j + 1;
  }
  std::string f = argv[3];
  std::vector<std::string> args;
  for (int k = 5; k < argc; k++) args.push_back(argv[k]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {f});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
