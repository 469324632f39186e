// Resolved-program exporter: parses one translation unit of /repo/cxx with
// clang and writes every function body, record and enum that the repository
// itself defines as JSON (after name lookup, overload resolution, template
// instantiation and implicit conversions).  No code of /repo is executed.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("export");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"),
                                          llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"),
                                       llvm::cl::cat(Cat));

namespace {

class Exporter {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIds;
  Array types;
  std::map<const ValueDecl *, int> varIds;
  Array functions, records, enums, globals;
  std::set<std::string> doneFn, doneRec;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.empty()) return false;
    llvm::StringRef r(f);
    if (r.starts_with("./")) r = r.drop_front(2);
    if (r.starts_with("/") && !r.starts_with(Root.getValue())) return false;
    if (r.ends_with("cxxopts.hpp")) return false;
    return true;
  }
  std::string relFile(SourceLocation L) {
    std::string f = fileOf(L);
    llvm::StringRef r(f);
    if (r.starts_with(Root.getValue())) r = r.drop_front(Root.size());
    while (r.starts_with("/") || r.starts_with("./"))
      r = r.starts_with("/") ? r.drop_front(1) : r.drop_front(2);
    return r.str();
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[s] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = s;
    QualType Q = T.getCanonicalType();
    o["const"] = Q.isConstQualified();
    std::string k = "other";
    if (Q->isReferenceType()) {
      k = "ref";
      o["to"] = type(Q->getPointeeType());
    } else if (Q->isPointerType()) {
      k = "ptr";
      o["to"] = type(Q->getPointeeType());
    } else if (Q->isBooleanType()) {
      k = "bool";
    } else if (Q->isEnumeralType()) {
      k = "enum";
      o["rec"] = Q->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
    } else if (Q->isIntegerType()) {
      k = Q->isUnsignedIntegerType() ? "uint" : "int";
      o["bits"] = (int64_t)C.getTypeSize(Q);
      if (Q->isAnyCharacterType()) o["char"] = true;
    } else if (Q->isFloatingType()) {
      k = "float";
      o["bits"] = (int64_t)C.getTypeSize(Q);
    } else if (Q->isVoidType()) {
      k = "void";
    } else if (const auto *RD = Q->getAsCXXRecordDecl()) {
      k = "rec";
      o["rec"] = RD->getQualifiedNameAsString();
      if (RD->isLambda()) o["lambda"] = true;
      if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a;
        targs(S->getTemplateArgs().asArray(), a);
        o["args"] = std::move(a);
      }
    } else if (Q->isArrayType()) {
      k = "array";
      o["to"] = type(QualType(Q->getPointeeOrArrayElementType(), 0));
    } else if (Q->isFunctionType()) {
      k = "func";
    } else if (Q->isDependentType()) {
      k = "dep";
    }
    o["k"] = k;
    types[id] = Value(std::move(o));
    return id;
  }
  void targs(llvm::ArrayRef<TemplateArgument> A, Array &a) {
    for (const auto &t : A) {
      if (t.getKind() == TemplateArgument::Type)
        a.push_back(type(t.getAsType()));
      else if (t.getKind() == TemplateArgument::Integral)
        a.push_back(Object{{"int", t.getAsIntegral().getExtValue()}});
      else if (t.getKind() == TemplateArgument::Pack)
        targs(t.getPackAsArray(), a);
      else
        a.push_back(nullptr);
    }
  }

  int var(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = varIds.find(D);
    if (it != varIds.end()) return it->second;
    int id = varIds.size();
    varIds[D] = id;
    return id;
  }

  std::string recName(const CXXRecordDecl *RD) {
    return C.getTypeDeclType(RD).getCanonicalType().getAsString(PP);
  }

  std::string fnKey(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString();
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      s = recName(M->getParent()) + "::" + M->getNameAsString();
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      s += "<";
      for (const auto &t : TA->asArray()) {
        std::string x;
        llvm::raw_string_ostream os(x);
        t.print(PP, os, true);
        s += x + ",";
      }
      s += ">";
    }
    s += "(";
    for (const auto *P : F->parameters())
      s += P->getType().getCanonicalType().getAsString(PP) + ",";
    s += ")";
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += "const";
    if (F->isInAnonymousNamespace() ||
        (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)))
      s = relFile(F->getLocation()) + ":" + s;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        s += "@" + relFile(F->getLocation()) + ":" +
             std::to_string(lineOf(F->getLocation())) + ":" +
             std::to_string(SM.getExpansionColumnNumber(F->getLocation()));
    return s;
  }

  std::string qname(const FunctionDecl *F) {
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      return M->getParent()->getQualifiedNameAsString() + "::" + M->getNameAsString();
    return F->getQualifiedNameAsString();
  }

  Value callee(const FunctionDecl *F) {
    Object o;
    o["q"] = qname(F);
    o["name"] = F->getNameAsString();
    o["key"] = fnKey(F);
    if (F->isNoReturn()) o["noreturn"] = true;
    if (F->isVariadic()) o["variadic"] = true;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      o["clsq"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
    }
    const FunctionDecl *D = nullptr;
    o["repo"] = inRepo(F->getLocation());
    (void)D;
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      targs(TA->asArray(), a);
      o["targs"] = std::move(a);
    }
    o["ret"] = type(F->getReturnType());
    Array ps;
    for (const auto *P : F->parameters()) ps.push_back(type(P->getType()));
    o["params"] = std::move(ps);
    return Value(std::move(o));
  }

  Object node(const char *k, const Stmt *S) {
    Object o;
    o["k"] = k;
    o["l"] = lineOf(S->getBeginLoc());
    if (const auto *E = dyn_cast<Expr>(S)) o["t"] = type(E->getType());
    return o;
  }

  Value exprs(llvm::ArrayRef<const Expr *> v) {
    Array a;
    for (auto *e : v) a.push_back(expr(e));
    return Value(std::move(a));
  }
  template <class R> Value exprRange(R r) {
    Array a;
    for (auto *e : r) a.push_back(expr(cast_or_null<Expr>(e)));
    return Value(std::move(a));
  }
  template <class R> Value argRange(R r) { return exprRange(r); }

  bool isAssert(const ConditionalOperator *CO, const Expr *&cond) {
    const Expr *f = CO->getFalseExpr()->IgnoreParenImpCasts();
    if (const auto *CE = dyn_cast<CallExpr>(f))
      if (const auto *FD = CE->getDirectCallee())
        if (FD->getNameAsString() == "__assert_fail") {
          cond = CO->getCond();
          return true;
        }
    return false;
  }

  Value fnref(const NamedDecl *D, const Expr *E) {
    Object o = node("fn", E);
    if (const auto *F = dyn_cast<FunctionDecl>(D)) o["f"] = callee(F);
    return Value(std::move(o));
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // Strip nodes without meaning.
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
        Object o = node("defarg", E);
        o["e"] = expr(X->getExpr());
        return Value(std::move(o));
      }
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else break;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
        case CK_ConstructorConversion: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_BuiltinFnToFnPtr:
          if (X->getCastKind() == CK_NoOp || true)
            return expr(X->getSubExpr());
        default: break;
      }
      Object o = node("cast", E);
      o["ck"] = X->getCastKindName();
      o["implicit"] = isa<ImplicitCastExpr>(X);
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object o = node("int", E);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object o = node("float", E);
      llvm::SmallString<32> s;
      X->getValue().toString(s);
      o["v"] = s.str().str();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = node("bool", E);
      o["v"] = X->getValue();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      Object o = node("char", E);
      o["v"] = (int64_t)X->getValue();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      Object o = node("str", E);
      o["v"] = llvm::json::fixUTF8(X->getBytes());
      return Value(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return Value(node("null", E));
    if (isa<CXXThisExpr>(E)) return Value(node("this", E));
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return Value(node("str", E));
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (isa<FunctionDecl>(D)) return fnref(D, E);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = node("enumc", E);
        o["name"] = EC->getNameAsString();
        o["enum"] = cast<EnumDecl>(EC->getDeclContext())->getQualifiedNameAsString();
        o["v"] = EC->getInitVal().getExtValue();
        return Value(std::move(o));
      }
      Object o = node("var", E);
      o["name"] = D->getNameAsString();
      o["id"] = var(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) o["kind"] = "param";
        else if (V->isStaticLocal() || V->hasGlobalStorage()) {
          o["kind"] = "global";
          o["q"] = V->getQualifiedNameAsString();
        } else o["kind"] = "local";
      } else if (isa<BindingDecl>(D)) o["kind"] = "binding";
      else o["kind"] = "other";
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (isa<FunctionDecl>(D)) {
        Object o = node("memfn", E);
        o["f"] = callee(cast<FunctionDecl>(D));
        o["base"] = expr(X->getBase());
        return Value(std::move(o));
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object o = node("var", E);
        o["name"] = V->getNameAsString();
        o["id"] = var(V);
        o["kind"] = "global";
        o["q"] = V->getQualifiedNameAsString();
        return Value(std::move(o));
      }
      Object o = node("member", E);
      o["name"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(D))
        if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getParent())) {
          o["cls"] = recName(RD);
          o["clsq"] = RD->getQualifiedNameAsString();
        }
      o["base"] = expr(X->getBase());
      if (X->isArrow()) o["arrow"] = true;
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
      Object o = node("depmember", E);
      o["name"] = X->getMember().getAsString();
      if (!X->isImplicitAccess()) o["base"] = expr(X->getBase());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) {
      Object o = node("depmember", E);
      o["name"] = X->getMemberName().getAsString();
      if (!X->isImplicitAccess()) o["base"] = expr(X->getBase());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<OverloadExpr>(E)) {
      Object o = node("depname", E);
      o["name"] = X->getName().getAsString();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) {
      Object o = node("depname", E);
      o["name"] = X->getDeclName().getAsString();
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = node("call", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      if (F) o["f"] = callee(F);
      Array a;
      unsigned n = X->getNumArgs();
      for (unsigned i = 0; i < n; ++i) a.push_back(expr(X->getArg(i)));
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        Array rest;
        for (unsigned i = 1; i < n; ++i) rest.push_back(std::move(a[i]));
        o["obj"] = std::move(a[0]);
        o["args"] = std::move(rest);
      } else
        o["args"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = node("call", E);
      const CXXMethodDecl *F = X->getMethodDecl();
      if (F) o["f"] = callee(F);
      o["obj"] = expr(X->getImplicitObjectArgument());
      if (F) {
        if (const auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) o["qualified"] = true;
      }
      o["args"] = argRange(X->arguments());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = node("call", E);
      const FunctionDecl *F = X->getDirectCallee();
      if (F) o["f"] = callee(F);
      else o["fe"] = expr(X->getCallee());
      o["args"] = argRange(X->arguments());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      Object o = node("ctor", E);
      o["args"] = argRange(X->arguments());
      o["dep"] = true;
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const auto *CD = X->getConstructor();
      if (X->isElidable() && X->getNumArgs() == 1) return expr(X->getArg(0));
      Object o = node("ctor", E);
      o["f"] = callee(CD);
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["initlist"] = true;
      o["args"] = argRange(X->arguments());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      return Value(node("inhctor", E));
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object o = node("new", E);
      o["at"] = type(X->getAllocatedType());
      if (X->isArray()) o["array"] = true;
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      o["col"] = (int64_t)SM.getExpansionColumnNumber(X->getBeginLoc());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = node("delete", E);
      if (X->isArrayForm()) o["array"] = true;
      o["e"] = expr(X->getArgument());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = node("assign", E);
      o["op"] = X->getOpcodeStr().drop_back(1).str();
      o["ct"] = type(X->getComputationResultType());
      o["lhs"] = expr(X->getLHS());
      o["rhs"] = expr(X->getRHS());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) {
        Object o = node("assign", E);
        o["op"] = "";
        o["lhs"] = expr(X->getLHS());
        o["rhs"] = expr(X->getRHS());
        return Value(std::move(o));
      }
      Object o = node("bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["lhs"] = expr(X->getLHS());
      o["rhs"] = expr(X->getRHS());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      const Expr *c;
      if (isAssert(X, c)) {
        Object o = node("assert", E);
        o["e"] = expr(c);
        return Value(std::move(o));
      }
      Object o = node("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = node("sub", E);
      o["base"] = expr(X->getBase());
      o["idx"] = expr(X->getIdx());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Object o = node("initlist", E);
      if (X->isSemanticForm() || !X->getSemanticForm()) {
        o["args"] = exprRange(X->inits());
      } else
        o["args"] = exprRange(X->getSemanticForm()->inits());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ParenListExpr>(E)) {
      Object o = node("initlist", E);
      Array a;
      for (unsigned i = 0; i < X->getNumExprs(); ++i) a.push_back(expr(X->getExpr(i)));
      o["args"] = std::move(a);
      return Value(std::move(o));
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return Value(node("zero", E));
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = node("sizeof", E);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = node("lambda", E);
      const CXXMethodDecl *op = X->getCallOperator();
      Array caps;
      for (const auto &c : X->captures()) {
        Object co;
        if (c.capturesVariable()) {
          co["id"] = var(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        } else
          co["this"] = true;
        co["byref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["fn"] = function(op);
      if (X->isGenericLambda()) {
        o["generic"] = true;
        Array specs;
        if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations())
            if (S->hasBody()) specs.push_back(function(S));
        o["specs"] = std::move(specs);
      }
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object o = node("throw", E);
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) return Value(node("typeid", E));
    Object o = node("other", E);
    o["cls"] = E->getStmtClassName();
    Array a;
    for (const Stmt *c : E->children())
      if (c && isa<Expr>(c)) a.push_back(expr(cast<Expr>(c)));
    o["args"] = std::move(a);
    return Value(std::move(o));
  }

  Value varDecl(const VarDecl *V) {
    Object o;
    o["k"] = "vardecl";
    o["l"] = lineOf(V->getLocation());
    o["name"] = V->getNameAsString();
    o["id"] = var(V);
    o["t"] = type(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *B : D->bindings()) {
        Object bo;
        bo["id"] = var(B);
        bo["name"] = B->getNameAsString();
        bo["t"] = type(B->getType());
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    return Value(std::move(o));
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o;
      o["k"] = "expr";
      o["l"] = lineOf(S->getBeginLoc());
      o["e"] = expr(E);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Object o = node("seq", S);
      Array a;
      for (auto *s : X->body()) a.push_back(stmt(s));
      o["b"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object o = node("decl", S);
      Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        if (auto sub = X->getNondiscardedCase(C)) {
          if (*sub) return stmt(*sub);
          return Value(node("null", S));
        }
      }
      Object o = node("if", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["then"] = stmt(X->getThen());
      if (X->getElse()) o["else"] = stmt(X->getElse());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      Object o = node("while", S);
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      Object o = node("do", S);
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object o = node("for", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["body"] = stmt(X->getBody());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = node("foreach", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["var"] = varDecl(X->getLoopVariable());
      o["range"] = expr(X->getRangeInit());
      o["rt"] = type(X->getRangeInit()->getType());
      o["body"] = stmt(X->getBody());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Object o = node("switch", S);
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      Object o = node("case", S);
      o["v"] = expr(X->getLHS());
      o["sub"] = stmt(X->getSubStmt());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      Object o = node("default", S);
      o["sub"] = stmt(X->getSubStmt());
      return Value(std::move(o));
    }
    if (isa<BreakStmt>(S)) return Value(node("break", S));
    if (isa<ContinueStmt>(S)) return Value(node("continue", S));
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      Object o = node("return", S);
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
      return Value(std::move(o));
    }
    if (isa<NullStmt>(S)) return Value(node("null", S));
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object o = node("try", S);
      o["body"] = stmt(X->getTryBlock());
      Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        h.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      o["handlers"] = std::move(h);
      return Value(std::move(o));
    }
    Object o = node("otherstmt", S);
    o["cls"] = S->getStmtClassName();
    return Value(std::move(o));
  }

  Object function(const FunctionDecl *F0) {
    const FunctionDecl *F = F0;
    const FunctionDecl *Def = nullptr;
    if (F0->hasBody(Def)) F = Def;
    Object o;
    o["key"] = fnKey(F);
    o["q"] = qname(F);
    o["name"] = F->getNameAsString();
    o["file"] = relFile(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    o["endline"] = lineOf(F->getEndLoc());
    o["ret"] = type(F->getReturnType());
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (F->isDependentContext()) o["dependent"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    Array ps;
    for (const auto *P : F->parameters()) {
      Object p;
      p["id"] = var(P);
      p["name"] = P->getNameAsString();
      p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      o["clsq"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      o["access"] = (int)M->getAccess();
      Array ov;
      for (const auto *B : M->overridden_methods()) ov.push_back(fnKey(B));
      o["overrides"] = std::move(ov);
    }
    if (const auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Array in;
      for (const auto *I : CD->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) {
          io["field"] = I->getAnyMember()->getNameAsString();
          io["ft"] = type(I->getAnyMember()->getType());
        }
        else if (I->isBaseInitializer())
          io["base"] = type(QualType(I->getBaseClass(), 0));
        else
          io["delegating"] = true;
        io["written"] = I->isWritten();
        io["l"] = lineOf(I->getSourceLocation());
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->getBody()) o["body"] = stmt(F->getBody());
    return o;
  }

  void addFunction(const FunctionDecl *F) {
    if (F->isImplicit() || !F->doesThisDeclarationHaveABody()) return;
    if (!inRepo(F->getLocation())) return;
    if (F->isDependentContext()) return;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return;
    // Lambdas inside templates etc. are exported inline.
    std::string k = fnKey(F);
    if (!doneFn.insert(k).second) return;
    functions.push_back(function(F));
  }

  void addRecord(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isLambda() || R->isImplicit()) return;
    if (!inRepo(R->getLocation())) return;
    if (R->isDependentContext()) return;
    std::string k = recName(R);
    if (!doneRec.insert(k).second) return;
    Object o;
    o["name"] = k;
    o["q"] = R->getQualifiedNameAsString();
    o["file"] = relFile(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    o["abstract"] = R->isAbstract();
    if (isa<ClassTemplateSpecializationDecl>(R)) {
      Array a;
      targs(cast<ClassTemplateSpecializationDecl>(R)->getTemplateArgs().asArray(), a);
      o["args"] = std::move(a);
    }
    Array bs;
    for (const auto &B : R->bases()) bs.push_back(type(B.getType()));
    o["bases"] = std::move(bs);
    Array fs;
    for (const auto *F : R->fields()) {
      Object fo;
      fo["name"] = F->getNameAsString();
      fo["t"] = type(F->getType());
      fo["access"] = (int)F->getAccess();
      if (F->isMutable()) fo["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        fo["init"] = expr(F->getInClassInitializer());
      fo["l"] = lineOf(F->getLocation());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (const auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      Object mo;
      mo["name"] = M->getNameAsString();
      mo["key"] = fnKey(M);
      mo["virtual"] = M->isVirtual();
      mo["pure"] = M->isPureVirtual();
      mo["const"] = M->isConst();
      mo["deleted"] = M->isDeleted();
      mo["access"] = (int)M->getAccess();
      Array ov;
      for (const auto *B : M->overridden_methods()) ov.push_back(fnKey(B));
      mo["overrides"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (const auto *D = R->getDestructor()) o["dtorUser"] = D->isUserProvided();
    records.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Exporter &X;
  Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    X.addFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    X.addRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!X.inRepo(E->getLocation())) return true;
    Object o;
    o["q"] = E->getQualifiedNameAsString();
    o["file"] = X.relFile(E->getLocation());
    o["line"] = X.lineOf(E->getLocation());
    Array a;
    for (auto *c : E->enumerators()) a.push_back(c->getNameAsString());
    o["names"] = std::move(a);
    X.enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
    if (!X.inRepo(V->getLocation())) return true;
    if (V->getType()->isDependentType()) return true;
    Object o;
    o["q"] = V->getQualifiedNameAsString();
    o["file"] = X.relFile(V->getLocation());
    o["line"] = X.lineOf(V->getLocation());
    o["t"] = X.type(V->getType());
    o["id"] = X.var(V);
    if (V->getInit()) o["init"] = X.expr(V->getInit());
    X.globals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  std::string in;
  Consumer(std::string in) : in(in) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(Ctx);
    Visitor V(X);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object o;
    o["tu"] = in;
    o["types"] = std::move(X.types);
    o["functions"] = std::move(X.functions);
    o["records"] = std::move(X.records);
    o["enums"] = std::move(X.enums);
    o["globals"] = std::move(X.globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 llvm::StringRef in) override {
    return std::make_unique<Consumer>(in.str());
  }
};
}  // namespace

int main(int argc, const char **argv) {
  auto op = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!op) {
    llvm::errs() << op.takeError();
    return 2;
  }
  tooling::ClangTool tool(op->getCompilations(), op->getSourcePathList());
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
