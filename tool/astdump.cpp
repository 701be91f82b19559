// astdump: parses one translation unit with clang and writes, for every function
// definition found in files under --root, a compact JSON description of its
// resolved syntax tree and control flow graph, plus all records and enums.
// Output: one JSON object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <iostream>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::unique_ptr<llvm::raw_fd_ostream> Out;

static std::string usr(const Decl *D) {
  llvm::SmallString<128> B;
  if (!D || index::generateUSRForDecl(D, B)) return "";
  return std::string(B.str());
}

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.Bool = true; }

  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return P.getFilename();
    llvm::SmallString<256> S(FE->getName());
    SM.getFileManager().makeAbsolutePath(S);
    llvm::sys::path::remove_dots(S, true);
    return std::string(S.str());
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = file(L);
    return F.rfind(Root + "/", 0) == 0;
  }

  // ---- per function state
  std::map<const Stmt *, int> Id;
  std::map<const ValueDecl *, std::string> Loc;
  json::Array Nodes;
  int nlocal = 0;

  std::string declKey(const ValueDecl *D) {
    if (auto *P = dyn_cast<ParmVarDecl>(D)) {
      auto it = Loc.find(D);
      if (it != Loc.end()) return it->second;
      std::string k = "P" + std::to_string(P->getFunctionScopeIndex()) + ":" + P->getNameAsString();
      Loc[D] = k; return k;
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl()) {
        auto it = Loc.find(D);
        if (it != Loc.end()) return it->second;
        std::string k = "L" + std::to_string(nlocal++) + ":" + V->getNameAsString();
        Loc[D] = k; return k;
      }
      return "G:" + V->getQualifiedNameAsString();
    }
    if (isa<EnumConstantDecl>(D)) return "E:" + D->getQualifiedNameAsString();
    if (isa<FunctionDecl>(D)) return "F:" + usr(D);
    return "?:" + D->getQualifiedNameAsString();
  }

  const Stmt *skip(const Stmt *S) {
    while (S) {
      if (auto *P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ExprWithCleanups>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ConstantExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = E->getReplacement(); continue; }
      if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        switch (E->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingCast: case CK_FloatingToIntegral:
        case CK_IntegralToFloating: case CK_FloatingToBoolean: case CK_IntegralToBoolean:
        case CK_LValueToRValue: // keep nothing: loads are implied
          if (E->getCastKind() == CK_LValueToRValue) { S = E->getSubExpr(); continue; }
          return S;
        default: S = E->getSubExpr(); continue;
        }
      }
      break;
    }
    return S;
  }

  int visit(const Stmt *S0) {
    const Stmt *S = skip(S0);
    if (!S) return -1;
    auto it = Id.find(S);
    int id;
    if (it != Id.end()) id = it->second;
    else {
      id = (int)Nodes.size();
      Id[S] = id;
      Nodes.push_back(nullptr);
      json::Object o = build(S);
      o["k"] = S->getStmtClassName();
      o["l"] = line(S->getBeginLoc());
      if (auto *E = dyn_cast<Expr>(S)) o["t"] = ty(E->getType());
      Nodes[id] = std::move(o);
    }
    // collapsed wrappers map to the same id
    for (const Stmt *W = S0; W && W != S;) {
      Id[W] = id;
      const Stmt *N = nullptr;
      if (auto *P = dyn_cast<ParenExpr>(W)) N = P->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(W)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(W)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(W)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(W)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(W)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(W)) N = E->getExpr();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(W)) N = E->getExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(W)) N = E->getReplacement();
      W = N;
    }
    return id;
  }

  json::Array kids(const Stmt *S) {
    json::Array a;
    for (const Stmt *c : S->children()) if (c) a.push_back(visit(c));
    return a;
  }

  // positions of the arguments bound to references to objects that may be changed
  template <class T> void byRef(json::Object &o, const T *E) {
    json::Array r;
    int i = 0;
    for (const Expr *A : E->arguments()) {
      if (A->isGLValue() && !A->getType().isConstQualified()) r.push_back(i);
      i++;
    }
    o["ref"] = std::move(r);
  }

  void calleeInfo(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fn"] = F->getQualifiedNameAsString();
    o["usr"] = usr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      o["cls"] = M->getParent()->getQualifiedNameAsString();
    }
  }

  json::Object build(const Stmt *S) {
    json::Object o;
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      o["d"] = declKey(E->getDecl());
      if (auto *EC = dyn_cast<EnumConstantDecl>(E->getDecl())) { o["v"] = (int64_t)EC->getInitVal().getExtValue(); }
      if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) o["fn"] = F->getQualifiedNameAsString();
      return o;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      o["m"] = E->getMemberDecl()->getQualifiedNameAsString();
      o["mn"] = E->getMemberDecl()->getNameAsString();
      if (E->isArrow()) o["arrow"] = true;
      o["c"] = json::Array{visit(E->getBase())};
      return o;
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      calleeInfo(o, E->getMethodDecl());
      if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
        if (E->getMethodDecl() && E->getMethodDecl()->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
        o["obj"] = visit(ME->getBase());
        if (ME->isArrow()) o["arrow"] = true;
      } else {
        o["calleeExpr"] = visit(E->getCallee());
      }
      json::Array a;
      for (const Expr *A : E->arguments()) a.push_back(visit(A));
      o["args"] = std::move(a);
      byRef(o, E);
      return o;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      calleeInfo(o, E->getDirectCallee());
      o["op"] = getOperatorSpelling(E->getOperator());
      json::Array a;
      unsigned i = 0;
      bool isM = E->getDirectCallee() && isa<CXXMethodDecl>(E->getDirectCallee());
      for (const Expr *A : E->arguments()) {
        int v = visit(A);
        if (i == 0 && isM) o["obj"] = v; else a.push_back(v);
        i++;
      }
      o["args"] = std::move(a);
      return o;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      calleeInfo(o, E->getDirectCallee());
      if (!E->getDirectCallee()) o["calleeExpr"] = visit(E->getCallee());
      json::Array a;
      for (const Expr *A : E->arguments()) a.push_back(visit(A));
      o["args"] = std::move(a);
      byRef(o, E);
      return o;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      calleeInfo(o, E->getConstructor());
      json::Array a;
      for (const Expr *A : E->arguments()) a.push_back(visit(A));
      o["args"] = std::move(a);
      byRef(o, E);
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      return o;
    }
    if (auto *E = dyn_cast<BinaryOperator>(S)) {
      o["op"] = E->getOpcodeStr().str();
      o["c"] = json::Array{visit(E->getLHS()), visit(E->getRHS())};
      return o;
    }
    if (auto *E = dyn_cast<UnaryOperator>(S)) {
      o["op"] = (E->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      o["c"] = json::Array{visit(E->getSubExpr())};
      return o;
    }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { o["v"] = (int64_t)E->getValue().getLimitedValue(); return o; }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) { o["v"] = E->getValueAsApproximateDouble(); return o; }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { o["v"] = E->getValue(); return o; }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { o["v"] = (int64_t)E->getValue(); return o; }
    if (auto *E = dyn_cast<StringLiteral>(S)) { if (E->getCharByteWidth() == 1) o["v"] = json::fixUTF8(E->getString()); return o; }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["array"] = E->isArray();
      o["nt"] = ty(E->getAllocatedType());
      if (E->isArray() && E->getArraySize() && *E->getArraySize()) o["size"] = visit(*E->getArraySize());
      json::Array a;
      if (E->getInitializer()) a.push_back(visit(E->getInitializer()));
      o["c"] = std::move(a);
      return o;
    }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      o["array"] = E->isArrayForm();
      o["c"] = json::Array{visit(E->getArgument())};
      return o;
    }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)E; return o; }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      o["ck"] = E->getCastKindName();
      o["c"] = json::Array{visit(E->getSubExpr())};
      return o;
    }
    if (auto *E = dyn_cast<CastExpr>(S)) {
      o["ck"] = E->getCastKindName();
      o["c"] = json::Array{visit(E->getSubExpr())};
      return o;
    }
    if (auto *E = dyn_cast<DeclStmt>(S)) {
      json::Array a;
      for (const Decl *D : E->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object v;
          v["d"] = declKey(V); v["n"] = V->getNameAsString(); v["t"] = ty(V->getType());
          if (V->isStaticLocal()) v["static"] = true;
          if (V->getInit()) v["i"] = visit(V->getInit());
          v["l"] = line(V->getLocation());
          a.push_back(std::move(v));
        }
      o["vars"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      o["cond"] = visit(I->getCond()); o["then"] = visit(I->getThen()); o["else"] = visit(I->getElse());
      return o;
    }
    if (auto *I = dyn_cast<WhileStmt>(S)) { o["cond"] = visit(I->getCond()); o["body"] = visit(I->getBody()); return o; }
    if (auto *I = dyn_cast<DoStmt>(S)) { o["cond"] = visit(I->getCond()); o["body"] = visit(I->getBody()); return o; }
    if (auto *I = dyn_cast<ForStmt>(S)) {
      o["init"] = visit(I->getInit()); o["cond"] = visit(I->getCond()); o["inc"] = visit(I->getInc()); o["body"] = visit(I->getBody());
      return o;
    }
    if (auto *I = dyn_cast<SwitchStmt>(S)) { o["cond"] = visit(I->getCond()); o["body"] = visit(I->getBody()); return o; }
    if (auto *I = dyn_cast<CaseStmt>(S)) { o["val"] = visit(I->getLHS()); o["c"] = json::Array{visit(I->getSubStmt())}; return o; }
    if (auto *L = dyn_cast<LambdaExpr>(S)) { (void)L; o["lambda"] = true; return o; }
    o["c"] = kids(S);
    return o;
  }

  void fn(const FunctionDecl *F) {
    Id.clear(); Loc.clear(); Nodes = json::Array(); nlocal = 0;
    json::Object o;
    o["rec"] = "fn";
    o["name"] = F->getQualifiedNameAsString();
    o["usr"] = usr(F);
    o["file"] = file(F->getLocation());
    o["line"] = line(F->getLocation());
    o["endline"] = line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(json::Object{{"d", declKey(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}});
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["const"] = M->isConst(); o["virtual"] = M->isVirtual(); o["static"] = M->isStatic();
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (K->isCopyConstructor()) o["copyctor"] = true;
      json::Array is;
      for (auto *I : K->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) io["m"] = I->getMember()->getQualifiedNameAsString();
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        io["written"] = I->isWritten();
        io["i"] = visit(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = visit(F->getBody());
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = false;
    BO.AddTemporaryDtors = false;
    BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (G) {
      json::Array bs;
      for (const CFGBlock *B : *G) {
        json::Object b;
        b["i"] = B->getBlockID();
        json::Array es;
        for (const CFGElement &E : *B) {
          if (auto S = E.getAs<CFGStmt>()) {
            const Stmt *st = S->getStmt();
            auto it = Id.find(st);
            int id;
            if (it != Id.end()) id = it->second;
            else { // synthesized DeclStmts or children never visited
              const Stmt *k = skip(st);
              auto it2 = Id.find(k);
              id = it2 != Id.end() ? it2->second : visit(st);
            }
            if (es.empty() || *es.back().getAsInteger() != id) es.push_back(id);
          } else if (auto I = E.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *K = I->getInitializer();
            if (K->isMemberInitializer()) es.push_back(json::Object{{"minit", K->getMember()->getQualifiedNameAsString()}, {"i", K->getInit() ? visit(K->getInit()) : -1}});
          }
        }
        b["s"] = std::move(es);
        if (const Stmt *T = B->getTerminatorStmt()) { auto it = Id.find(T); b["term"] = it != Id.end() ? it->second : visit(T); }
        if (const Stmt *T = B->getTerminatorCondition()) { auto it = Id.find(T); b["cond"] = it != Id.end() ? it->second : visit(T); }
        if (const Stmt *T = B->getLabel()) { auto it = Id.find(T); if (it != Id.end()) b["label"] = it->second; }
        if (const Stmt *T = B->getLoopTarget()) { auto it = Id.find(T); if (it != Id.end()) b["loop"] = it->second; }
        json::Array su;
        for (auto A : B->succs()) { const CFGBlock *R = A.getReachableBlock(); su.push_back(R ? (int)R->getBlockID() : -1); }
        b["succ"] = std::move(su);
        bs.push_back(std::move(b));
      }
      o["blocks"] = std::move(bs);
      o["entry"] = G->getEntry().getBlockID();
      o["exit"] = G->getExit().getBlockID();
    }
    o["nodes"] = std::move(Nodes);
    *Out << json::Value(std::move(o)) << "\n";
  }

  void record(const CXXRecordDecl *R) {
    json::Object o;
    o["rec"] = "class"; o["name"] = R->getQualifiedNameAsString();
    o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
    json::Array bs;
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(BR->getQualifiedNameAsString());
    o["bases"] = std::move(bs);
    o["abstract"] = R->isAbstract();
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object m;
      m["name"] = M->getNameAsString(); m["usr"] = usr(M); m["virtual"] = M->isVirtual(); m["pure"] = M->isPureVirtual();
      m["const"] = M->isConst(); m["implicit"] = M->isImplicit(); m["line"] = line(M->getLocation());
      m["deleted"] = M->isDeleted();
      m["ret"] = ty(M->getReturnType());
      m["access"] = (int)M->getAccess();
      json::Array ov; for (auto *X : M->overridden_methods()) ov.push_back(usr(X));
      m["overrides"] = std::move(ov);
      json::Array ps; for (auto *P : M->parameters()) ps.push_back(json::Object{{"n", P->getNameAsString()}, {"t", ty(P->getType())}});
      m["params"] = std::move(ps);
      const FunctionDecl *D = nullptr; m["defined"] = M->isDefined(D);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    json::Array fs;
    for (auto *F : R->fields()) fs.push_back(json::Object{{"n", F->getNameAsString()}, {"q", F->getQualifiedNameAsString()}, {"t", ty(F->getType())}, {"l", line(F->getLocation())}, {"mutable", F->isMutable()}, {"access", (int)F->getAccess()}, {"hasinit", F->hasInClassInitializer()}});
    o["fields"] = std::move(fs);
    *Out << json::Value(std::move(o)) << "\n";
  }
  void en(const EnumDecl *E) {
    json::Object o; o["rec"] = "enum"; o["name"] = E->getQualifiedNameAsString();
    o["file"] = file(E->getLocation()); o["line"] = line(E->getLocation());
    json::Array a;
    for (auto *K : E->enumerators()) a.push_back(json::Object{{"n", K->getNameAsString()}, {"v", (int64_t)K->getInitVal().getExtValue()}});
    o["vals"] = std::move(a);
    *Out << json::Value(std::move(o)) << "\n";
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper &D;
public:
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->getBody() && !F->isDependentContext() && !F->isImplicit() && D.inRoot(F->getLocation())) D.fn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda() && D.inRoot(R->getLocation())) D.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { if (E->isThisDeclarationADefinition() && D.inRoot(E->getLocation())) D.en(E); return true; }
  bool VisitVarDecl(VarDecl *Vd) {
    if (Vd->hasGlobalStorage() && !Vd->isStaticLocal() && Vd->isThisDeclarationADefinition() && D.inRoot(Vd->getLocation())) {
      json::Object o; o["rec"] = "var"; o["name"] = Vd->getQualifiedNameAsString(); o["t"] = D.ty(Vd->getType());
      o["file"] = D.file(Vd->getLocation()); o["line"] = D.line(Vd->getLocation());
      *Out << json::Value(std::move(o)) << "\n";
    }
    return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  // astdump ROOT OUT SRC -- flags...
  if (argc < 4) { std::cerr << "usage: astdump ROOT OUT SRC -- flags\n"; return 2; }
  Root = argv[1];
  std::string out = argv[2], src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  std::error_code EC;
  Out = std::make_unique<llvm::raw_fd_ostream>(out, EC);
  if (EC) { std::cerr << EC.message() << "\n"; return 2; }
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool T(DB, {src});
  int r = T.run(clang::tooling::newFrontendActionFactory<Act>().get());
  Out->flush();
  return r;
}
