// adolc-sa fact extractor: parses one translation unit with the real build's
// flags (clang 18 front end) and dumps the resolved, type-checked syntax tree of
// every function defined in the repository as a compact JSON IR.  No judgement
// is made here; all rules live in the Python analyses.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>

using namespace clang;

static std::string Root;
static std::string OutFile;

namespace {

std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

class Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<std::string, int> Files;
  std::vector<std::string> FileList;
  std::map<const Decl *, int> Ids;
  std::vector<std::string> DeclRecs; // "id":{...}
  int NextId = 1;

public:
  std::vector<std::string> Funcs, Classes, Globals;
  std::set<const FunctionDecl *> Done;
  std::set<const Decl *> DoneG;

  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()),
        MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int fileIdx(llvm::StringRef f) {
    auto it = Files.find(f.str());
    if (it != Files.end()) return it->second;
    int i = FileList.size();
    FileList.push_back(f.str());
    Files[f.str()] = i;
    return i;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "0";
    return std::to_string((long)fileIdx(P.getFilename()) * 1000000L + P.getLine());
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef f = P.getFilename();
    return f.starts_with(Root);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string mangled(const NamedDecl *D) {
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (FD->isDependentContext()) return FD->getQualifiedNameAsString();
      std::string s;
      llvm::raw_string_ostream os(s);
      GlobalDecl GD;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) GD = GlobalDecl(CD, Ctor_Base);
      else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) GD = GlobalDecl(DD, Dtor_Base);
      else GD = GlobalDecl(FD);
      if (MC->shouldMangleDeclName(FD)) { MC->mangleName(GD, os); os.flush(); return s; }
      return FD->getNameAsString();
    }
    return D->getQualifiedNameAsString();
  }
  int declId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int id = NextId++;
    Ids[D] = id;
    std::string kind = "var";
    std::string extra;
    if (isa<ParmVarDecl>(D)) kind = "param";
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) kind = "static";
      else if (V->hasGlobalStorage()) kind = "global";
      else kind = "local";
      if (V->getTLSKind() != VarDecl::TLS_None) extra = ",\"tls\":1";
      // constant-initialised const variables: record value
      if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() &&
          !V->getType()->isDependentType() && V->getInit() && !V->getInit()->isValueDependent()) {
        if (auto *AP = V->evaluateValue())
          if (AP->isInt()) { llvm::SmallString<32> s; AP->getInt().toString(s, 10); extra += ",\"cv\":" + std::string(s.str()); }
      }
    } else if (isa<BindingDecl>(D)) kind = "binding";
    DeclRecs.push_back("\"" + std::to_string(id) + "\":{\"n\":" +
                       esc(D->getNameAsString()) + ",\"q\":" +
                       esc(D->getQualifiedNameAsString()) + ",\"k\":\"" + kind +
                       "\",\"t\":" + esc(ty(D->getType())) + ",\"l\":" + loc(D->getLocation()) + extra + "}");
    return id;
  }

  std::string args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    std::string o;
    for (auto *a : R) o += "," + expr(a);
    return o;
  }
  std::string calleeName(const FunctionDecl *FD) {
    std::string s;
    llvm::raw_string_ostream os(s);
    FD->printQualifiedName(os, PP);
    os.flush();
    return s;
  }

  std::string expr(const Expr *E) {
    if (!E) return "null";
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    std::string L = loc(E->getExprLoc());
    if (E->isTypeDependent() || E->isValueDependent() )
      ; // fallthrough, best effort
    else if (E->isPRValue() && E->getType()->isIntegralOrEnumerationType() &&
             !isa<DeclRefExpr>(E->IgnoreParenImpCasts()) && !isa<ConditionalOperator>(E)) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        // keep enumerator names
        const Expr *In = E->IgnoreParenCasts();
        if (auto *DR = dyn_cast<DeclRefExpr>(In))
          if (auto *EC = dyn_cast<EnumConstantDecl>(DR->getDecl()))
            return "[\"enum\"," + L + "," + esc(EC->getQualifiedNameAsString()) + "," + std::string(s.str()) + "]";
        if (isa<UnaryExprOrTypeTraitExpr>(In)) {
          auto *U = cast<UnaryExprOrTypeTraitExpr>(In);
          return "[\"sizeof\"," + L + "," + esc(ty(U->getTypeOfArgument())) + "," + std::string(s.str()) + "]";
        }
        return "[\"int\"," + L + "," + std::string(s.str()) + "]";
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto *X = cast<CastExpr>(E);
      switch (X->getCastKind()) {
      case CK_IntegralCast:
      case CK_FloatingToIntegral:
      case CK_IntegralToFloating:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
      case CK_FloatingCast:
      case CK_BitCast:
      case CK_PointerToIntegral:
      case CK_IntegralToPointer:
        return "[\"cast\"," + L + "," + esc(X->getCastKindName()) + "," + esc(ty(X->getType())) + "," + expr(X->getSubExpr()) + "]";
      case CK_NullToPointer:
        return "[\"null\"," + L + "]";
      case CK_ToVoid:
        return "[\"cast\"," + L + ",\"ToVoid\",\"void\"," + expr(X->getSubExpr()) + "]";
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      default:
        return expr(X->getSubExpr());
      }
    }
    case Stmt::IntegerLiteralClass: {
      llvm::SmallString<32> s;
      cast<IntegerLiteral>(E)->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      return "[\"int\"," + L + "," + std::string(s.str()) + "]";
    }
    case Stmt::CharacterLiteralClass:
      return "[\"int\"," + L + "," + std::to_string(cast<CharacterLiteral>(E)->getValue()) + "]";
    case Stmt::CXXBoolLiteralExprClass:
      return "[\"int\"," + L + "," + (cast<CXXBoolLiteralExpr>(E)->getValue() ? "1" : "0") + "]";
    case Stmt::FloatingLiteralClass: {
      llvm::SmallString<64> s;
      cast<FloatingLiteral>(E)->getValue().toString(s, 17);
      return "[\"flt\"," + L + "," + esc(s) + "]";
    }
    case Stmt::StringLiteralClass: {
      auto *S = cast<clang::StringLiteral>(E);
      return "[\"str\"," + L + "," + (S->getCharByteWidth() == 1 ? esc(S->getString()) : std::string("\"?\"")) + "]";
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass:
      return "[\"null\"," + L + "]";
    case Stmt::CXXThisExprClass:
      return "[\"this\"," + L + "]";
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        return "[\"enum\"," + L + "," + esc(EC->getQualifiedNameAsString()) + "," + std::string(s.str()) + "]";
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D))
        return "[\"fn\"," + L + "," + esc(calleeName(FD)) + "," + esc(mangled(FD)) + "]";
      if (auto *BD = dyn_cast<BindingDecl>(D))
        if (BD->getBinding()) { return "[\"bindref\"," + L + "," + std::to_string(declId(BD)) + "," + expr(BD->getBinding()) + "]"; }
      return "[\"ref\"," + L + "," + std::to_string(declId(D)) + "]";
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl()))
        return "[\"ref\"," + L + "," + std::to_string(declId(VD)) + "]";
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) {
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        return "[\"enum\"," + L + "," + esc(EC->getQualifiedNameAsString()) + "," + std::string(s.str()) + "]";
      }
      std::string own = "?";
      if (auto *RD = dyn_cast<RecordDecl>(M->getMemberDecl()->getDeclContext()))
        own = RD->getQualifiedNameAsString();
      return "[\"mem\"," + L + "," + expr(M->getBase()) + "," + esc(M->getMemberDecl()->getNameAsString()) + "," + esc(own) + "," + (M->isArrow() ? "1" : "0") + "," + esc(ty(M->getType())) + "]";
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *X = cast<ArraySubscriptExpr>(E);
      return "[\"idx\"," + L + "," + expr(X->getBase()) + "," + expr(X->getIdx()) + "]";
    }
    case Stmt::UnaryOperatorClass: {
      auto *X = cast<UnaryOperator>(E);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      return "[\"un\"," + L + "," + esc(op) + "," + expr(X->getSubExpr()) + "]";
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto *X = cast<BinaryOperator>(E);
      std::string op = X->getOpcodeStr().str();
      return "[\"asg\"," + L + "," + esc(op) + "," + expr(X->getLHS()) + "," + expr(X->getRHS()) + "]";
    }
    case Stmt::BinaryOperatorClass: {
      auto *X = cast<BinaryOperator>(E);
      std::string op = X->getOpcodeStr().str();
      return std::string(X->isAssignmentOp() ? "[\"asg\"," : "[\"bin\",") + L + "," + esc(op) + "," + expr(X->getLHS()) + "," + expr(X->getRHS()) + "," + esc(ty(X->getType())) + "]";
    }
    case Stmt::ConditionalOperatorClass: {
      auto *X = cast<ConditionalOperator>(E);
      return "[\"cond\"," + L + "," + expr(X->getCond()) + "," + expr(X->getTrueExpr()) + "," + expr(X->getFalseExpr()) + "]";
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      return "[\"sizeof\"," + L + "," + esc(ty(U->getTypeOfArgument())) + ",-1]";
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *X = cast<CXXMemberCallExpr>(E);
      auto *MD = X->getMethodDecl();
      const Expr *Obj = X->getImplicitObjectArgument();
      bool arrow = false;
      bool virt = MD && MD->isVirtual();
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { arrow = ME->isArrow(); if (ME->hasQualifier()) virt = false; }
      if (!MD) return "[\"pcall\"," + L + "," + esc(ty(X->getType())) + "," + expr(X->getCallee()) + args(X->arguments()) + "]";
      return "[\"mcall\"," + L + "," + esc(calleeName(MD)) + "," + esc(mangled(MD)) + "," + esc(ty(X->getType())) + "," + (arrow ? "1" : "0") + "," + (virt ? "1" : "0") + "," + expr(Obj) + args(X->arguments()) + "]";
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *X = cast<CXXOperatorCallExpr>(E);
      auto *FD = X->getDirectCallee();
      if (auto *MD = dyn_cast_or_null<CXXMethodDecl>(FD)) {
        if (!MD->isStatic()) {
          auto it = X->arg_begin();
          std::string obj = expr(*it);
          ++it;
          std::string rest;
          for (; it != X->arg_end(); ++it) rest += "," + expr(*it);
          return "[\"mcall\"," + L + "," + esc(calleeName(MD)) + "," + esc(mangled(MD)) + "," + esc(ty(X->getType())) + ",0,0," + obj + rest + "]";
        }
      }
      if (!FD) return "[\"pcall\"," + L + "," + esc(ty(X->getType())) + "," + expr(X->getCallee()) + args(X->arguments()) + "]";
      return "[\"call\"," + L + "," + esc(calleeName(FD)) + "," + esc(mangled(FD)) + "," + esc(ty(X->getType())) + args(X->arguments()) + "]";
    }
    case Stmt::CallExprClass:
    case Stmt::UserDefinedLiteralClass: {
      auto *X = cast<CallExpr>(E);
      auto *FD = X->getDirectCallee();
      if (!FD) return "[\"pcall\"," + L + "," + esc(ty(X->getType())) + "," + expr(X->getCallee()) + args(X->arguments()) + "]";
      return "[\"call\"," + L + "," + esc(calleeName(FD)) + "," + esc(mangled(FD)) + "," + esc(ty(X->getType())) + args(X->arguments()) + "]";
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(E);
      std::string o = "[\"ctor\"," + L + "," + esc(ty(X->getType())) + "," + esc(mangled(X->getConstructor())) + "," + (X->isElidable() ? "1" : "0");
      for (auto *a : X->arguments()) o += "," + expr(a);
      return o + "]";
    }
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(E);
      std::string sz = "null";
      if (X->isArray() && X->getArraySize()) sz = expr(*X->getArraySize());
      std::string init = X->getInitializer() ? expr(X->getInitializer()) : (X->getConstructExpr() ? expr(X->getConstructExpr()) : "null");
      std::string pl;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pl += "," + expr(X->getPlacementArg(i));
      return "[\"new\"," + L + "," + esc(ty(X->getAllocatedType())) + "," + (X->isArray() ? "1" : "0") + "," + sz + "," + init + pl + "]";
    }
    case Stmt::CXXDeleteExprClass: {
      auto *X = cast<CXXDeleteExpr>(E);
      return "[\"delete\"," + L + "," + (X->isArrayFormAsWritten() ? "1" : "0") + "," + expr(X->getArgument()) + "]";
    }
    case Stmt::CXXThrowExprClass:
      return "[\"throw\"," + L + "," + expr(cast<CXXThrowExpr>(E)->getSubExpr()) + "]";
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E);
      if (auto *S = X->getSemanticForm()) X = S;
      std::string o = "[\"init\"," + L + "," + esc(ty(X->getType()));
      for (auto *i : X->inits()) o += "," + expr(i);
      return o + "]";
    }
    case Stmt::CXXStdInitializerListExprClass:
      return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass:
      return "[\"zero\"," + L + "," + esc(ty(E->getType())) + "]";
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E);
      auto *CO = X->getCallOperator();
      std::string caps = "[";
      bool f = true;
      for (auto &c : X->captures()) {
        if (!c.capturesVariable()) { if (c.capturesThis()) { caps += f ? "\"this\"" : ",\"this\""; f = false; } continue; }
        caps += (f ? "" : ",") + std::string("[") + std::to_string(declId(cast<ValueDecl>(c.getCapturedVar()))) + "," + (c.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
        f = false;
      }
      caps += "]";
      function(CO);
      return "[\"lambda\"," + L + "," + esc(mangled(CO)) + "," + caps + "]";
    }
    case Stmt::PredefinedExprClass:
      return "[\"str\"," + L + ",\"__func__\"]";
    case Stmt::SourceLocExprClass:
      return "[\"int\"," + L + ",0]";
    case Stmt::StmtExprClass:
      return "[\"stmtexpr\"," + L + "," + stmt(cast<StmtExpr>(E)->getSubStmt()) + "]";
    case Stmt::CXXInheritedCtorInitExprClass:
    case Stmt::ArrayInitLoopExprClass:
    case Stmt::ArrayInitIndexExprClass:
    case Stmt::OpaqueValueExprClass: {
      if (auto *O = dyn_cast<OpaqueValueExpr>(E)) if (O->getSourceExpr()) return expr(O->getSourceExpr());
      return "[\"other\"," + L + "," + esc(E->getStmtClassName()) + "]";
    }
    case Stmt::CXXParenListInitExprClass: {
      auto *X = cast<CXXParenListInitExpr>(E);
      std::string o = "[\"init\"," + L + "," + esc(ty(X->getType()));
      for (auto *i : X->getInitExprs()) o += "," + expr(i);
      return o + "]";
    }
    case Stmt::ParenListExprClass: {
      auto *X = cast<ParenListExpr>(E);
      std::string o = "[\"init\"," + L + ",\"?\"";
      for (unsigned i = 0; i < X->getNumExprs(); ++i) o += "," + expr(X->getExpr(i));
      return o + "]";
    }
    default: {
      std::string o = "[\"other\"," + L + "," + esc(E->getStmtClassName());
      for (auto *c : E->children())
        if (c) { if (auto *ce = dyn_cast<Expr>(c)) o += "," + expr(ce); else o += "," + stmt(c); }
      return o + "]";
    }
    }
  }

  std::string varDecl(const VarDecl *V) {
    std::string st = V->isStaticLocal() ? "1" : "0";
    return "[" + std::to_string(declId(V)) + "," + (V->getInit() ? expr(V->getInit()) : "null") + "," + st + "]";
  }

  void flattenCase(const Stmt *S, std::string &o) {
    while (true) {
      if (auto *X = dyn_cast<CaseStmt>(S)) {
        Expr::EvalResult R;
        std::string v = "null";
        if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) {
          llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); v = s.str().str();
        }
        std::string nm = "null";
        if (auto *DR = dyn_cast<DeclRefExpr>(X->getLHS()->IgnoreParenCasts())) nm = esc(DR->getDecl()->getNameAsString());
        else if (auto *CE = dyn_cast<ConstantExpr>(X->getLHS())) if (auto *DR = dyn_cast<DeclRefExpr>(CE->getSubExpr()->IgnoreParenCasts())) nm = esc(DR->getDecl()->getNameAsString());
        o += ",[\"case\"," + loc(X->getBeginLoc()) + "," + v + "," + nm + "]";
        S = X->getSubStmt();
      } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
        o += ",[\"default\"," + loc(X->getBeginLoc()) + "]";
        S = X->getSubStmt();
      } else break;
      if (!S) return;
    }
    o += "," + stmt(S);
  }

  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    std::string L = loc(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      std::string o = "[\"blk\"," + L;
      for (auto *c : cast<CompoundStmt>(S)->body()) {
        if (isa<SwitchCase>(c)) flattenCase(c, o);
        else o += "," + stmt(c);
      }
      return o + "]";
    }
    case Stmt::CaseStmtClass:
    case Stmt::DefaultStmtClass: {
      std::string o = "[\"blk\"," + L;
      flattenCase(S, o);
      return o + "]";
    }
    case Stmt::DeclStmtClass: {
      std::string o = "[\"decl\"," + L;
      for (auto *d : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) {
          o += "," + varDecl(V);
        }
      return o + "]";
    }
    case Stmt::IfStmtClass: {
      auto *X = cast<IfStmt>(S);
      std::string pre;
      if (X->getInit()) pre += stmt(X->getInit()) + ",";
      if (X->getConditionVariableDeclStmt()) pre += stmt(X->getConditionVariableDeclStmt()) + ",";
      std::string body;
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        auto nd = X->getNondiscardedCase(C);
        if (nd) body = *nd ? stmt(*nd) : "[\"null\"," + L + "]";
      }
      if (body.empty())
        body = "[\"if\"," + L + "," + expr(X->getCond()) + "," + stmt(X->getThen()) + "," + stmt(X->getElse()) + "]";
      if (!pre.empty()) return "[\"blk\"," + L + "," + pre + body + "]";
      return body;
    }
    case Stmt::ForStmtClass: {
      auto *X = cast<ForStmt>(S);
      return "[\"for\"," + L + "," + stmt(X->getInit()) + "," + expr(X->getCond()) + "," + expr(X->getInc()) + "," + stmt(X->getBody()) + "]";
    }
    case Stmt::WhileStmtClass: {
      auto *X = cast<WhileStmt>(S);
      return "[\"while\"," + L + "," + expr(X->getCond()) + "," + stmt(X->getBody()) + "]";
    }
    case Stmt::DoStmtClass: {
      auto *X = cast<DoStmt>(S);
      return "[\"do\"," + L + "," + expr(X->getCond()) + "," + stmt(X->getBody()) + "]";
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *X = cast<CXXForRangeStmt>(S);
      return "[\"rfor\"," + L + "," + varDecl(X->getLoopVariable()) + "," + expr(X->getRangeInit()) + "," + stmt(X->getBody()) + "]";
    }
    case Stmt::SwitchStmtClass: {
      auto *X = cast<SwitchStmt>(S);
      return "[\"switch\"," + L + "," + expr(X->getCond()) + "," + stmt(X->getBody()) + "]";
    }
    case Stmt::BreakStmtClass: return "[\"break\"," + L + "]";
    case Stmt::ContinueStmtClass: return "[\"continue\"," + L + "]";
    case Stmt::ReturnStmtClass:
      return "[\"return\"," + L + "," + expr(cast<ReturnStmt>(S)->getRetValue()) + "]";
    case Stmt::NullStmtClass: return "[\"null\"," + L + "]";
    case Stmt::CXXTryStmtClass: {
      auto *X = cast<CXXTryStmt>(S);
      std::string o = "[\"try\"," + L + "," + stmt(X->getTryBlock());
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i);
        o += ",[\"catch\"," + loc(H->getBeginLoc()) + "," + (H->getExceptionDecl() ? varDecl(H->getExceptionDecl()) : "null") + "," + stmt(H->getHandlerBlock()) + "]";
      }
      return o + "]";
    }
    case Stmt::GotoStmtClass: return "[\"goto\"," + L + "," + esc(cast<GotoStmt>(S)->getLabel()->getName()) + "]";
    case Stmt::LabelStmtClass: return "[\"blk\"," + L + ",[\"label\"," + L + "," + esc(cast<LabelStmt>(S)->getDecl()->getName()) + "]," + stmt(cast<LabelStmt>(S)->getSubStmt()) + "]";
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default:
      if (auto *E = dyn_cast<Expr>(S)) return "[\"expr\"," + L + "," + expr(E) + "]";
      // OpenMP & others: recurse best effort
      { std::string o = "[\"otherstmt\"," + L + "," + esc(S->getStmtClassName());
        for (auto *c : S->children()) if (c) o += "," + stmt(c);
        return o + "]"; }
    }
  }

  void function(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def)) {
      return;
    }
    FD = Def;
    if (FD->isDependentContext()) return;
    if (!Done.insert(FD).second) return;
    std::string o = "{\"q\":" + esc(calleeName(FD)) + ",\"m\":" + esc(mangled(FD)) +
                    ",\"l\":" + loc(FD->getLocation()) + ",\"le\":" + loc(FD->getEndLoc()) + ",\"rt\":" + esc(ty(FD->getReturnType())) + ",\"ps\":[";
    bool f = true;
    for (auto *p : FD->parameters()) { o += (f ? "" : ",") + std::to_string(declId(p)); f = false; }
    o += "]";
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o += ",\"cls\":" + esc(MD->getParent()->getQualifiedNameAsString());
      if (MD->isStatic()) o += ",\"static\":1";
      if (MD->isVirtual()) o += ",\"virtual\":1";
      if (MD->isConst()) o += ",\"const\":1";
    }
    if (FD->isNoReturn()) o += ",\"noreturn\":1";
    if (FD->isDefaulted()) o += ",\"defaulted\":1";
    if (FD->getTemplateInstantiationPattern()) o += ",\"tmpl\":1";
    if (FD->getFormalLinkage() == Linkage::Internal) o += ",\"internal\":1";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o += ",\"ctor\":" + std::string(CD->isCopyConstructor() ? "\"copy\"" : CD->isMoveConstructor() ? "\"move\"" : "\"other\"");
      o += ",\"inits\":[";
      bool g = true;
      for (auto *I : CD->inits()) {
        std::string nm = I->isMemberInitializer() ? I->getMember()->getNameAsString() : I->isBaseInitializer() ? "base:" + ty(QualType(I->getBaseClass(), 0)) : (I->isDelegatingInitializer() ? "delegate" : "?");
        o += (g ? "" : ",") + std::string("[") + esc(nm) + "," + (I->isWritten() ? "1" : "0") + "," + expr(I->getInit()) + "]";
        g = false;
      }
      o += "]";
    }
    if (isa<CXXDestructorDecl>(FD)) o += ",\"dtor\":1";
    o += ",\"body\":" + stmt(FD->getBody()) + "}";
    Funcs.push_back(o);
  }
  void klass(const CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return;
    std::string o = "{\"q\":" + esc(RD->getQualifiedNameAsString()) + ",\"l\":" + loc(RD->getLocation()) + ",\"bases\":[";
    bool f = true;
    for (auto &b : RD->bases()) { o += (f ? "" : ",") + esc(ty(b.getType())); f = false; }
    o += "],\"fields\":[";
    f = true;
    for (auto *fd : RD->fields()) {
      o += (f ? "" : ",") + std::string("[") + esc(fd->getNameAsString()) + "," + esc(ty(fd->getType())) + "," + (fd->hasInClassInitializer() && fd->getInClassInitializer() ? expr(fd->getInClassInitializer()) : "null") + "]";
      f = false;
    }
    o += "],\"methods\":[";
    f = true;
    for (auto *m : RD->methods()) {
      std::string k = "";
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) k = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor";
      else if (isa<CXXDestructorDecl>(m)) k = "dtor";
      else if (m->isCopyAssignmentOperator()) k = "copyasg";
      else if (m->isMoveAssignmentOperator()) k = "moveasg";
      o += (f ? "" : ",") + std::string("[") + esc(m->getNameAsString()) + "," + esc(mangled(m)) + "," + esc(k) + "," + (m->isDeleted() ? "\"deleted\"" : m->isDefaulted() ? "\"defaulted\"" : "\"user\"") + "," + (m->isImplicit() ? "1" : "0") + "," + esc(ty(m->getReturnType())) + "]";
      f = false;
    }
    o += "]}";
    Classes.push_back(o);
  }
  void enumd(const EnumDecl *ED) {
    if (!ED->isThisDeclarationADefinition() || ED->isDependentContext()) return;
    std::string o = "{\"enum\":" + esc(ED->getQualifiedNameAsString()) + ",\"vals\":[";
    bool f = true;
    for (auto *e : ED->enumerators()) {
      llvm::SmallString<32> s; e->getInitVal().toString(s, 10);
      o += (f ? "" : ",") + std::string("[") + esc(e->getNameAsString()) + "," + std::string(s.str()) + "]"; f = false;
    }
    Classes.push_back(o + "]}");
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isLocalVarDecl() || V->getDeclContext()->isDependentContext()) return;
    std::string o = "{\"id\":" + std::to_string(declId(V)) + ",\"q\":" + esc(V->getQualifiedNameAsString()) + ",\"t\":" + esc(ty(V->getType())) +
      ",\"l\":" + loc(V->getLocation()) + ",\"def\":" + (V->isThisDeclarationADefinition() ? "1" : "0") + ",\"tls\":" + (V->getTLSKind() != VarDecl::TLS_None ? "1" : "0") +
      ",\"const\":" + (V->getType().isConstQualified() ? "1" : "0") + ",\"init\":" + ((V->getInit() && !V->getInit()->isValueDependent()) ? expr(V->getInit()) : std::string("null")) + "}";
    Globals.push_back(o);
  }
  void finish(llvm::raw_ostream &OS) {
    OS << "{\"files\":[";
    for (size_t i = 0; i < FileList.size(); ++i) OS << (i ? "," : "") << esc(FileList[i]);
    OS << "],\n\"funcs\":[\n";
    for (size_t i = 0; i < Funcs.size(); ++i) OS << (i ? ",\n" : "") << Funcs[i];
    OS << "],\n\"classes\":[\n";
    for (size_t i = 0; i < Classes.size(); ++i) OS << (i ? ",\n" : "") << Classes[i];
    OS << "],\n\"globals\":[\n";
    for (size_t i = 0; i < Globals.size(); ++i) OS << (i ? ",\n" : "") << Globals[i];
    OS << "],\n\"decls\":{\n";
    for (size_t i = 0; i < DeclRecs.size(); ++i) OS << (i ? ",\n" : "") << DeclRecs[i];
    OS << "}}\n";
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper &D;
public:
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (FD->doesThisDeclarationHaveABody() && D.inRepo(FD->getLocation())) D.function(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (D.inRepo(RD->getLocation())) D.klass(RD);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (D.inRepo(ED->getLocation())) D.enumd(ED);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (D.inRepo(VD->getLocation())) D.global(VD);
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    D.finish(OS);
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};
} // namespace

// usage: adolc-sa-extract ROOT OUT SOURCE -- compiler flags...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  Root = argv[1];
  OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Fl;
  int i = 4;
  if (std::string(argv[4]) == "--") i = 5;
  for (; i < argc; ++i) Fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Fl);
  tooling::ClangTool T(DB, {Src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
