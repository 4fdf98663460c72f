// extract: parse one scribbu translation unit and print, as JSON, a typed and
// name-resolved syntax tree of every function, record, enum and global variable
// that is defined in a file under one of the --root directories.
//
// This program only reads source; nothing of scribbu is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> ROOTS;

namespace {

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  OStream &J;
  PrintingPolicy PP;
  std::map<std::string, int> types_;
  std::vector<std::string> typeStrs_;
  std::vector<QualType> typeQs_;
  std::map<std::string, int> files_;
  std::vector<std::string> fileStrs_;
  std::map<const Decl *, int> ids_;
  std::vector<const FunctionDecl *> lambdas_;

  Dumper(ASTContext &C, OStream &J)
      : C(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    auto it = types_.find(S);
    if (it != types_.end()) return it->second;
    int n = typeStrs_.size();
    types_[S] = n;
    typeStrs_.push_back(S);
    typeQs_.push_back(T);
    return n;
  }
  int file(const std::string &F) {
    auto it = files_.find(F);
    if (it != files_.end()) return it->second;
    int n = fileStrs_.size();
    files_[F] = n;
    fileStrs_.push_back(F);
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : ROOTS)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids_.find(D);
    if (it != ids_.end()) return it->second;
    int n = ids_.size() + 1;
    ids_[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    OS.flush();
    return S;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> Buf;
    if (index::generateUSRForDecl(D, Buf)) return "";
    return std::string(Buf.str());
  }
  void loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return;
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return;
    J.attributeArray("l", [&] {
      J.value(file(P.getFilename()));
      J.value((int64_t)P.getLine());
      J.value((int64_t)P.getColumn());
    });
  }

  static const Expr *strip(const Expr *E, bool *Loaded = nullptr) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        // Keep user-defined conversions (they are calls) and anything that
        // changes an integer's width; everything else is transparent.
        auto CK = P->getCastKind();
        if (CK == CK_IntegralCast) {
          QualType A = P->getType(), B = P->getSubExpr()->getType();
          if (!A.isNull() && !B.isNull() && !A->isDependentType() && !B->isDependentType() &&
              (CC->getTypeSize(A) != CC->getTypeSize(B) ||
               A->isSignedIntegerOrEnumerationType() != B->isSignedIntegerOrEnumerationType()))
            return E;
        }
        if (CK == CK_IntegralToBoolean || CK == CK_PointerToBoolean)
          return E;
        if (CK == CK_LValueToRValue && Loaded) *Loaded = true;
        E = P->getSubExpr();
      } else if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
        // Elidable copies of temporaries.
        if (P->isElidable() && P->getNumArgs() >= 1) E = P->getArg(0);
        else return E;
      } else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) {
        if (!P->getSourceExpr()) return E;
        E = P->getSourceExpr();
      } else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else return E;
    }
    return E;
  }
  static ASTContext *CC;

  void declName(const char *key, const NamedDecl *D) { J.attribute(key, qname(D)); }

  std::string fnName(const FunctionDecl *F) {
    return qname(F);
  }

  void exprs(const char *key, llvm::ArrayRef<const Expr *> A) {
    J.attributeArray(key, [&] { for (auto *E : A) expr(E); });
  }

  void callee(const FunctionDecl *F) {
    if (!F) return;
    J.attribute("f", fnName(F));
    J.attribute("fu", usr(F));
    J.attribute("ft", type(F->getType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isStatic()) J.attribute("static", true);
      if (M->isConst()) J.attribute("const", true);
    }
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto EST = FPT->getExceptionSpecType();
      if (EST == EST_BasicNoexcept || EST == EST_NoexceptTrue || EST == EST_DynamicNone || EST == EST_NoThrow)
        J.attribute("nt", true);
    }
    if (F->hasAttr<NoThrowAttr>()) J.attribute("nt", true);
    if (F->isExternC()) J.attribute("extc", true);
    if (F->isNoReturn()) J.attribute("noret", true);
  }

  void expr(const Expr *E0) {
    bool Loaded = false;
    const Expr *E = E0 ? strip(E0, &Loaded) : nullptr;
    if (!E) { J.value(nullptr); return; }
    J.object([&] { exprBody(E); if (Loaded) J.attribute("rv", true); });
  }

  void exprBody(const Expr *E) {
    loc(E->getExprLoc());
    J.attribute("t", type(E->getType()));
    bool dep = E->getType().isNull() || E->isTypeDependent() || E->isValueDependent() || E->isInstantiationDependent();
    // The value of a constant object.
    bool Named = isa<DeclRefExpr>(E) && E->getType().isConstQualified() && !E->getType().isVolatileQualified();
    if (!dep && E->getType()->isIntegralOrEnumerationType() && (E->isPRValue() || Named) &&
        !isa<IntegerLiteral>(E) && !isa<CharacterLiteral>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        J.attribute("cv", atoll(S.c_str()));
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)X->getValue().getLimitedValue());
      return;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int"); J.attribute("ch", true);
      J.attribute("v", (int64_t)X->getValue());
      return;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "bool"); J.attribute("v", (int64_t)X->getValue());
      return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float"); J.attribute("v", X->getValueAsApproximateDouble());
      return;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str");
      if (X->getCharByteWidth() == 1) {
        std::string S;
        // Bytes are carried as code points U+0000..U+00FF.
        for (unsigned char c : X->getBytes()) {
          if (c < 0x80) S += (char)c;
          else { S += (char)(0xc0 | (c >> 6)); S += (char)(0x80 | (c & 0x3f)); }
        }
        J.attribute("v", S);
      } else {
        std::string u;          // the code units, as UTF-8
        for (unsigned i = 0, n = X->getLength(); i < n; ++i) {
          uint32_t c = X->getCodeUnit(i);
          if (c < 0x80) u += (char)c;
          else if (c < 0x800) { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 0x3f)); }
          else { u += (char)(0xe0 | (c >> 12 & 0xf)); u += (char)(0x80 | (c >> 6 & 0x3f)); u += (char)(0x80 | (c & 0x3f)); }
        }
        J.attribute("v", llvm::json::fixUTF8(u));
      }
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "null"); return; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      (void)X; J.attribute("k", "str"); J.attribute("v", "__func__"); return;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "enum"); declName("n", EC);
        J.attribute("v", (int64_t)EC->getInitVal().getExtValue());
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        J.attribute("k", "fn"); callee(F);
      } else {
        J.attribute("k", "var");
        J.attribute("n", D->getDeclName().isIdentifier() ? D->getName() : llvm::StringRef("?"));
        J.attribute("id", id(D));
        if (auto *V = dyn_cast<VarDecl>(D)) {
          J.attribute("vt", type(V->getType()));
          if (V->hasGlobalStorage()) {
            J.attribute("q", qname(V));
            J.attribute("g", V->isStaticLocal() ? "sl" : V->isStaticDataMember() ? "sm" : "g");
            if (V->getType().isConstQualified()) J.attribute("cst", true);
            if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
          } else if (isa<ParmVarDecl>(V)) J.attribute("parm", true);
        }
      }
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        J.attribute("k", "mem");
        J.attribute("n", F->getName());
        declName("cls", F->getParent());
        J.attribute("vt", type(F->getType()));
        if (X->isArrow()) J.attribute("arrow", true);
        J.attributeBegin("b"); expr(X->getBase()); J.attributeEnd();
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        J.attribute("k", "fn"); callee(F);
        J.attributeBegin("b"); expr(X->getBase()); J.attributeEnd();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        J.attribute("k", "var"); J.attribute("n", V->getName()); J.attribute("id", id(V));
        J.attribute("q", qname(V)); J.attribute("g", "sm"); J.attribute("vt", type(V->getType()));
        if (V->getType().isConstQualified()) J.attribute("cst", true);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "enum"); declName("n", EC);
        J.attribute("v", (int64_t)EC->getInitVal().getExtValue());
      }
      return;
    }
    if (isa<CXXThisExpr>(E)) { J.attribute("k", "this"); return; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call");
      J.attribute("op", getOperatorSpelling(X->getOperator()));
      callee(X->getDirectCallee());
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      exprs("a", A);
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call");
      const FunctionDecl *F = X->getDirectCallee();
      callee(F);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        J.attributeBegin("obj"); expr(ME->getBase()); J.attributeEnd();
        if (ME->isArrow()) J.attribute("arrow", true);
        if (ME->hasQualifier()) J.attribute("qual", true); // non-virtual dispatch
        J.attribute("ot", type(ME->getBase()->getType()));
      }
      if (F && isa<CXXConversionDecl>(F)) J.attribute("conv", true);
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      exprs("a", A);
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      if (auto *F = X->getDirectCallee()) callee(F);
      else { J.attributeBegin("fe"); expr(X->getCallee()); J.attributeEnd(); }
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      exprs("a", A);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = X->getConstructor();
      J.attribute("k", "ctor");
      declName("cls", D->getParent());
      J.attribute("fu", usr(D));
      J.attribute("ft", type(D->getType()));
      if (D->isCopyConstructor()) J.attribute("copy", true);
      if (D->isMoveConstructor()) J.attribute("move", true);
      if (D->isDefaultConstructor()) J.attribute("dflt", true);
      if (D->isTrivial()) J.attribute("triv", true);
      if (X->isListInitialization()) J.attribute("list", true);
      if (auto *FPT = D->getType()->getAs<FunctionProtoType>()) {
        auto EST = FPT->getExceptionSpecType();
        if (EST == EST_BasicNoexcept || EST == EST_NoexceptTrue || EST == EST_NoThrow || (EST == EST_None && D->isTrivial()))
          J.attribute("nt", true);
      }
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      exprs("a", A);
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J.attribute("k", "ctor"); declName("cls", X->getConstructor()->getParent());
      exprs("a", {});
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new");
      J.attribute("at", type(X->getAllocatedType()));
      if (X->isArray() && X->getArraySize()) { J.attributeBegin("n"); expr(*X->getArraySize()); J.attributeEnd(); }
      if (X->hasInitializer()) { J.attributeBegin("i"); expr(X->getInitializer()); J.attributeEnd(); }
      else if (X->getConstructExpr()) { J.attributeBegin("i"); expr(X->getConstructExpr()); J.attributeEnd(); }
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete");
      if (X->isArrayForm()) J.attribute("arr", true);
      J.attributeBegin("e"); expr(X->getArgument()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J.attribute("k", "throw");
      if (X->getSubExpr()) {
        J.attribute("tt", type(X->getSubExpr()->getType()));
        J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      }
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "p" + Op;
      J.attribute("op", Op);
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J.attribute("k", "bin");
      J.attribute("op", BinaryOperator::getOpcodeStr(X->getOpcode()));
      J.attributeBegin("a"); expr(X->getLHS()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getRHS()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      auto D = X->getDecomposedForm();
      J.attribute("k", "bin");
      J.attribute("op", BinaryOperator::getOpcodeStr(D.Opcode));
      J.attributeBegin("a"); expr(D.LHS); J.attributeEnd();
      J.attributeBegin("b"); expr(D.RHS); J.attributeEnd();
      J.attribute("rw", true);
      return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "cond");
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("a"); expr(X->getTrueExpr()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getFalseExpr()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast");
      if (isa<ImplicitCastExpr>(E)) J.attribute("imp", true);
      J.attribute("ck", X->getCastKindName());
      if (isa<CXXDynamicCastExpr>(E)) J.attribute("dyn", true);
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      J.attributeBegin("a"); expr(X->getBase()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getIdx()); J.attributeEnd();
      J.attribute("bt", type(X->getBase()->IgnoreParenImpCasts()->getType()));
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      J.attributeArray("caps", [&] {
        for (auto &Cp : X->captures()) {
          if (Cp.capturesVariable()) {
            J.object([&] {
              J.attribute("n", Cp.getCapturedVar()->getName());
              J.attribute("id", id(Cp.getCapturedVar()));
              J.attribute("ref", Cp.getCaptureKind() == LCK_ByRef);
            });
          } else if (Cp.capturesThis()) J.object([&] { J.attribute("n", "this"); });
        }
      });
      J.attributeObject("fn", [&] { function(X->getCallOperator()); });
      return;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      J.attribute("k", "init");
      std::vector<const Expr *> A; for (unsigned i = 0; i < X->getNumInits(); ++i) A.push_back(X->getInit(i));
      exprs("a", A);
      return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "sizeof");
      if (X->isArgumentType()) J.attribute("of", type(X->getArgumentType()));
      else { J.attribute("of", type(X->getArgumentExpr()->getType()));
             J.attributeBegin("e"); expr(X->getArgumentExpr()); J.attributeEnd(); }
      return;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { J.attribute("k", "zero"); return; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      J.attribute("k", "typeid");
      if (X->isTypeOperand()) J.attribute("of", type(X->getTypeOperandSourceInfo()->getType()));
      else { J.attributeBegin("e"); expr(X->getExprOperand()); J.attributeEnd(); }
      return;
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) {
      J.attribute("k", "stmtexpr");
      J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      return;
    }
    // Anything else (dependent expressions of uninstantiated templates, ...).
    J.attribute("k", "other");
    J.attribute("cls", E->getStmtClassName());
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
      J.attribute("n", X->getMember().getAsString());
    } else if (auto *X = dyn_cast<OverloadExpr>(E)) {
      J.attribute("n", X->getName().getAsString());
    } else if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) {
      J.attribute("n", X->getDeclName().getAsString());
    }
    J.attributeArray("ch", [&] {
      for (const Stmt *S : E->children()) {
        if (auto *SE = dyn_cast_or_null<Expr>(S)) expr(SE);
        else if (S) stmt(S);
      }
    });
  }

  void varDecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("n", V->getDeclName().isIdentifier() ? V->getName() : llvm::StringRef("?"));
      J.attribute("id", id(V));
      J.attribute("t", type(V->getType()));
      loc(V->getLocation());
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->getType().isConstQualified()) J.attribute("cst", true);
      if (V->getTSCSpec() == TSCS_thread_local) J.attribute("tls", true);
      if (auto *D = dyn_cast<DecompositionDecl>(V)) {
        J.attributeArray("bind", [&] { for (auto *B : D->bindings()) J.object([&] {
          J.attribute("n", B->getName()); J.attribute("id", id(B)); }); });
      }
      if (V->getInit()) { J.attributeBegin("i"); expr(V->getInit()); J.attributeEnd(); }
    });
  }

  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    J.object([&] {
      loc(S->getBeginLoc());
      if (auto *X = dyn_cast<CompoundStmt>(S)) {
        J.attribute("k", "block");
        J.attributeArray("s", [&] { for (auto *Y : X->body()) stmt(Y); });
        SourceLocation EL = SM.getExpansionLoc(X->getRBracLoc());
        if (EL.isValid()) J.attribute("end", (int64_t)SM.getPresumedLineNumber(EL));
      } else if (auto *X = dyn_cast<DeclStmt>(S)) {
        J.attribute("k", "decl");
        J.attributeArray("d", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V); });
      } else if (auto *X = dyn_cast<IfStmt>(S)) {
        J.attribute("k", "if");
        if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
        if (X->getConditionVariable()) { J.attributeBegin("cv"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("th"); stmt(X->getThen()); J.attributeEnd();
        J.attributeBegin("el"); stmt(X->getElse()); J.attributeEnd();
      } else if (auto *X = dyn_cast<WhileStmt>(S)) {
        J.attribute("k", "while");
        if (X->getConditionVariable()) { J.attributeBegin("cv"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<DoStmt>(S)) {
        J.attribute("k", "do");
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<ForStmt>(S)) {
        J.attribute("k", "for");
        J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd();
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); expr(X->getInc()); J.attributeEnd();
        J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
        J.attribute("k", "rfor");
        J.attributeBegin("v"); varDecl(X->getLoopVariable()); J.attributeEnd();
        J.attributeBegin("r"); expr(X->getRangeInit()); J.attributeEnd();
        J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
        J.attribute("k", "switch");
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attribute("ct", type(X->getCond()->IgnoreParenImpCasts()->getType()));
        J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<CaseStmt>(S)) {
        J.attribute("k", "case");
        J.attributeBegin("c"); expr(X->getLHS()); J.attributeEnd();
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
        J.attribute("k", "default");
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
        J.attribute("k", "return");
        J.attributeBegin("e"); expr(X->getRetValue()); J.attributeEnd();
      } else if (isa<BreakStmt>(S)) J.attribute("k", "break");
      else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
      else if (isa<NullStmt>(S)) J.attribute("k", "null_s");
      else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
        J.attribute("k", "try");
        J.attributeBegin("s"); stmt(X->getTryBlock()); J.attributeEnd();
        J.attributeArray("h", [&] {
          for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
            auto *H = X->getHandler(i);
            J.object([&] {
              loc(H->getBeginLoc());
              if (H->getExceptionDecl()) {
                J.attribute("t", type(H->getCaughtType()));
                J.attribute("n", H->getExceptionDecl()->getDeclName().isIdentifier() ? H->getExceptionDecl()->getName() : llvm::StringRef(""));
                J.attribute("id", id(H->getExceptionDecl()));
              }
              J.attributeBegin("s"); stmt(H->getHandlerBlock()); J.attributeEnd();
            });
          }
        });
      } else if (auto *X = dyn_cast<LabelStmt>(S)) {
        J.attribute("k", "label"); J.attribute("n", X->getName());
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto *X = dyn_cast<GotoStmt>(S)) {
        J.attribute("k", "goto"); J.attribute("n", X->getLabel()->getName());
      } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
        J.attribute("k", "block");
        J.attributeArray("s", [&] { stmt(X->getSubStmt()); });
      } else {
        J.attribute("k", "other_s");
        J.attribute("cls", S->getStmtClassName());
        J.attributeArray("ch", [&] { for (const Stmt *Y : S->children()) stmt(Y); });
      }
    });
  }

  // Attributes of a function (caller has opened the object).
  void function(const FunctionDecl *F) {
    J.attribute("n", qname(F));
    J.attribute("u", usr(F));
    J.attribute("ft", type(F->getType()));
    J.attribute("rt", type(F->getReturnType()));
    loc(F->getLocation());
    {
      SourceLocation EL = SM.getExpansionLoc(F->getEndLoc());
      if (EL.isValid()) J.attribute("end", (int64_t)SM.getPresumedLineNumber(EL));
    }
    if (F->isTemplateInstantiation()) J.attribute("inst", true);
    if (F->isDependentContext()) J.attribute("dep", true);
    if (F->isImplicit()) J.attribute("impl", true);
    if (F->isDefaulted()) J.attribute("dfl", true);
    if (F->isDeleted()) J.attribute("del", true);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string S; llvm::raw_string_ostream OS(S);
      printTemplateArgumentList(OS, TA->asArray(), PP);
      J.attribute("ta", OS.str());
    }
    if (F->getStorageClass() == SC_Static) J.attribute("st", true);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto EST = FPT->getExceptionSpecType();
      if (EST == EST_BasicNoexcept || EST == EST_NoexceptTrue) J.attribute("nt", true);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qname(M->getParent()));
      J.attribute("acc", (int)M->getAccess());
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isConst()) J.attribute("const", true);
      if (M->isStatic()) J.attribute("mstatic", true);
      if (M->isCopyAssignmentOperator()) J.attribute("cpa", true);
      if (M->isMoveAssignmentOperator()) J.attribute("mva", true);
      if (M->size_overridden_methods())
        J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(usr(O)); });
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      J.attribute("ctor", true);
      if (K->isCopyConstructor()) J.attribute("cpc", true);
      if (K->isMoveConstructor()) J.attribute("mvc", true);
      J.attributeArray("inits", [&] {
        for (auto *I : K->inits()) {
          J.object([&] {
            if (I->isMemberInitializer()) J.attribute("m", I->getMember()->getName());
            else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
            else if (I->isBaseInitializer()) {
              J.attribute("base", type(QualType(I->getBaseClass(), 0)));
              J.attribute("bvirt", I->isBaseVirtual());
            }
            if (I->isWritten()) J.attribute("w", true);
            loc(I->getSourceLocation());
            J.attributeBegin("e"); expr(I->getInit()); J.attributeEnd();
          });
        }
      });
    }
    if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
    J.attributeArray("ps", [&] {
      for (auto *P : F->parameters()) J.object([&] {
        J.attribute("n", P->getName()); J.attribute("id", id(P)); J.attribute("t", type(P->getType()));
        if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) {
          J.attributeBegin("d"); expr(P->getDefaultArg()); J.attributeEnd();
        }
      });
    });
    J.attributeBegin("body");
    if (F->doesThisDeclarationHaveABody() && F->getBody()) stmt(F->getBody()); else J.value(nullptr);
    J.attributeEnd();
  }

  void record(const CXXRecordDecl *R) {
    J.object([&] {
      J.attribute("n", qname(R));
      loc(R->getLocation());
      J.attribute("t", type(C.getRecordType(R)));
      if (R->isDependentContext()) J.attribute("dep", true);
      if (R->isAbstract()) J.attribute("abs", true);
      if (isa<ClassTemplateSpecializationDecl>(R)) J.attribute("inst", true);
      if (R->isLambda()) J.attribute("lambda", true);
      if (R->isUnion()) J.attribute("union", true);
      J.attributeArray("bases", [&] {
        for (auto &B : R->bases()) J.object([&] {
          J.attribute("t", type(B.getType()));
          J.attribute("virt", B.isVirtual());
          J.attribute("acc", (int)B.getAccessSpecifier());
        });
      });
      J.attributeArray("fields", [&] {
        for (auto *F : R->fields()) J.object([&] {
          J.attribute("n", F->getName());
          J.attribute("t", type(F->getType()));
          loc(F->getLocation());
          if (F->hasInClassInitializer()) { J.attribute("init", true);
            if (F->getInClassInitializer()) { J.attributeBegin("i"); expr(F->getInClassInitializer()); J.attributeEnd(); } }
          if (F->isMutable()) J.attribute("mut", true);
        });
      });
      J.attributeArray("statics", [&] {
        for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) J.object([&] {
          J.attribute("n", V->getName()); J.attribute("t", type(V->getType())); loc(V->getLocation());
          if (V->getType().isConstQualified()) J.attribute("cst", true);
          if (V->getInit()) { J.attributeBegin("i"); expr(V->getInit()); J.attributeEnd(); }
        });
      });
      J.attributeArray("methods", [&] {
        for (auto *M : R->methods()) J.object([&] {
          J.attribute("n", M->getNameAsString());
          J.attribute("u", usr(M));
          J.attribute("ft", type(M->getType()));
          J.attribute("acc", (int)M->getAccess());
          loc(M->getLocation());
          if (M->isVirtual()) J.attribute("virt", true);
          if (M->isPureVirtual()) J.attribute("pure", true);
          if (M->isConst()) J.attribute("const", true);
          if (M->isStatic()) J.attribute("static", true);
          if (M->isImplicit()) J.attribute("impl", true);
          if (M->isDeleted()) J.attribute("del", true);
          if (M->isDefaulted()) J.attribute("dfl", true);
          if (M->isCopyAssignmentOperator()) J.attribute("cpa", true);
          if (M->isMoveAssignmentOperator()) J.attribute("mva", true);
          if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { J.attribute("ctor", true);
            if (K->isCopyConstructor()) J.attribute("cpc", true);
            if (K->isMoveConstructor()) J.attribute("mvc", true); }
          if (M->size_overridden_methods())
            J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(usr(O)); });
        });
      });
    });
  }

  void typeInfo(unsigned i) {
    QualType T = typeQs_[i];
    J.object([&] {
      J.attribute("s", typeStrs_[i]);
      QualType U = T;
      if (T->isReferenceType()) { J.attribute("k", T->isRValueReferenceType() ? "rref" : "ref");
        U = T->getPointeeType(); J.attribute("to", type(U));
        if (U.isConstQualified()) J.attribute("cst", true); return; }
      if (T.isConstQualified()) J.attribute("cst", true);
      if (T->isPointerType()) { J.attribute("k", "ptr"); J.attribute("to", type(T->getPointeeType())); return; }
      if (T->isDependentType()) { J.attribute("k", "dep"); return; }
      if (T->isBooleanType()) { J.attribute("k", "bool"); J.attribute("sz", 1); return; }
      if (T->isEnumeralType()) { J.attribute("k", "enum"); 
        auto *ED = T->castAs<EnumType>()->getDecl();
        J.attribute("rec", qname(ED));
        if (ED->isComplete()) J.attribute("sz", (int64_t)(C.getTypeSize(T) / 8)); return; }
      if (T->isIntegerType()) { J.attribute("k", T->isSignedIntegerType() ? "int" : "uint");
        J.attribute("sz", (int64_t)(C.getTypeSize(T) / 8)); return; }
      if (T->isFloatingType()) { J.attribute("k", "float"); return; }
      if (auto *A = C.getAsConstantArrayType(T)) { J.attribute("k", "arr");
        J.attribute("to", type(A->getElementType())); J.attribute("n", (int64_t)A->getSize().getZExtValue());
        if (!A->getElementType()->isDependentType() && !A->getElementType()->isIncompleteType())
          J.attribute("sz", (int64_t)(C.getTypeSize(T) / 8));
        return; }
      if (T->isArrayType()) { J.attribute("k", "varr"); return; }
      if (auto *R = T->getAsCXXRecordDecl()) { J.attribute("k", "rec"); J.attribute("rec", qname(R));
        if (R->isCompleteDefinition() && !R->isDependentContext() && !R->isInvalidDecl())
          J.attribute("sz", (int64_t)(C.getTypeSize(T) / 8));
        if (R->isCompleteDefinition()) {
          // all (transitive) base class names, for exception and dispatch questions
          std::set<std::string> Bs; std::vector<const CXXRecordDecl *> W{R->getDefinition()};
          while (!W.empty()) { auto *X = W.back(); W.pop_back(); if (!X || !X->hasDefinition()) continue;
            for (auto &B : X->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
              Bs.insert(qname(BR)); W.push_back(BR->getDefinition()); } }
          J.attributeArray("bases", [&] { for (auto &b : Bs) J.value(b); });
        }
        if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          J.attributeArray("targs", [&] { for (auto &A : TS->getTemplateArgs().asArray())
            if (A.getKind() == TemplateArgument::Type) J.value(type(A.getAsType())); else J.value(nullptr); });
        }
        return; }
      if (T->isFunctionType()) { J.attribute("k", "func");
        if (auto *FT = T->getAs<FunctionProtoType>()) {
          J.attributeArray("ps", [&] { for (auto P : FT->param_types()) J.value(type(P)); });
          J.attribute("rt", type(FT->getReturnType()));
        } return; }
      if (T->isVoidType()) { J.attribute("k", "void"); return; }
      J.attribute("k", "other");
    });
  }
};
ASTContext *Dumper::CC = nullptr;

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  std::vector<const FunctionDecl *> fns;
  std::vector<const CXXRecordDecl *> recs;
  std::vector<const EnumDecl *> enums;
  std::vector<const VarDecl *> vars;
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition()) return true;
    if (!F->getBody() && !F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (D.inRoots(F->getLocation())) fns.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !R->isCompleteDefinition()) return true;
    if (R->isInjectedClassName()) return true;
    if (D.inRoots(R->getLocation())) recs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (E->isThisDeclarationADefinition() && D.inRoots(E->getLocation())) enums.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && V->isThisDeclarationADefinition() && D.inRoots(V->getLocation()))
      vars.push_back(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string Out;
  CompilerInstance &CI;
public:
  Consumer(std::string Out, CompilerInstance &CI) : Out(Out), CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream FS(Out, EC);
    if (EC) { llvm::errs() << "cannot write " << Out << "\n"; exit(3); }
    OStream J(FS);
    Dumper::CC = &C;
    Dumper D(C, J);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    J.object([&] {
      std::string Main = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID())->getName().str();
      J.attribute("main", Main);
      J.attribute("errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors());
      J.attributeArray("functions", [&] {
        for (auto *F : V.fns) J.object([&] { D.function(F); });
      });
      J.attributeArray("records", [&] { for (auto *R : V.recs) D.record(R); });
      J.attributeArray("enums", [&] {
        for (auto *E : V.enums) J.object([&] {
          J.attribute("n", D.qname(E)); D.loc(E->getLocation());
          J.attributeArray("e", [&] { for (auto *K : E->enumerators()) J.object([&] {
            J.attribute("n", K->getName()); J.attribute("v", (int64_t)K->getInitVal().getExtValue()); }); });
        });
      });
      J.attributeArray("vars", [&] {
        for (auto *X : V.vars) J.object([&] {
          J.attribute("q", D.qname(X)); J.attribute("n", X->getName()); J.attribute("id", D.id(X)); J.attribute("t", D.type(X->getType())); D.loc(X->getLocation());
          if (X->getType().isConstQualified()) J.attribute("cst", true);
          if (X->isStaticDataMember()) J.attribute("sm", true);
          if (X->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
          if (X->getInit()) { J.attributeBegin("i"); D.expr(X->getInit()); J.attributeEnd(); }
        });
      });
      // typeInfo may add types while it runs.
      J.attributeArray("types", [&] { for (unsigned i = 0; i < D.typeStrs_.size(); ++i) D.typeInfo(i); });
      J.attributeArray("files", [&] { for (auto &f : D.fileStrs_) J.value(f); });
    });
    FS << "\n";
  }
};

std::string OUT;
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(OUT, CI);
  }
};
} // namespace

// usage: extract OUT.json ROOT[:ROOT...] SOURCE -- compiler flags
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract OUT ROOTS SOURCE -- FLAGS\n"; return 2; }
  OUT = argv[1];
  llvm::StringRef R(argv[2]);
  llvm::SmallVector<llvm::StringRef, 4> Rs; R.split(Rs, ':');
  for (auto &r : Rs) ROOTS.push_back(r.str());
  std::string Src = argv[3];
  std::vector<std::string> Flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
