// extract: parse one C++ translation unit with clang and write the resolved bodies of all
// functions defined under a root directory as JSON (one object per line).
//   extract <out.jsonl> <main.cpp> <root-dir> -- <clang args>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;
static std::string Root, MainFile, OutPath;

namespace {
std::string esc(llvm::StringRef s) {
  std::string r; r.reserve(s.size() + 2); r += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  r += '"'; return r;
}

struct Ex {
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &OS;
  std::unordered_map<const Decl *, int> fnIds;
  std::unordered_map<const Decl *, int> varIds;   // per function being emitted
  std::map<std::string, std::set<size_t>> seenBodies;
  std::set<const Decl *> emittedFn, emittedRec, queuedRec;
  std::vector<const FunctionDecl *> pending;
  unsigned nTypes = 0;
  Ex(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), OS(OS) {}

  struct L { std::string file; unsigned line = 0, col = 0; };
  std::unordered_map<unsigned, std::string> fileCache;
  std::string fileOf(SourceLocation l) {
    FileID id = SM.getFileID(l);
    auto it = fileCache.find(id.getHashValue());
    if (it != fileCache.end()) return it->second;
    std::string f;
    if (auto fe = SM.getFileEntryRefForID(id)) f = fe->getName().str();
    fileCache[id.getHashValue()] = f; return f;
  }
  bool inRoot(llvm::StringRef f) { return f.starts_with(Root); }
  L loc(SourceLocation s) {
    L r; if (s.isInvalid()) return r;
    SourceLocation e = SM.getExpansionLoc(s);
    std::string f = fileOf(e);
    if (!inRoot(f) && s.isMacroID()) {
      SourceLocation sp = SM.getSpellingLoc(s);
      std::string f2 = fileOf(sp);
      if (inRoot(f2)) { e = sp; f = f2; }
    }
    r.file = f; r.line = SM.getLineNumber(SM.getFileID(e), SM.getFileOffset(e));
    r.col = SM.getColumnNumber(SM.getFileID(e), SM.getFileOffset(e));
    return r;
  }
  unsigned line(SourceLocation s) { return loc(s).line; }
  bool wanted(const Decl *D) {
    L l = loc(D->getLocation());
    return inRoot(l.file) || l.file == MainFile;
  }
  std::string rel(const std::string &f) {
    llvm::StringRef s(f); if (s.starts_with(Root)) return s.substr(Root.size()).str(); return f;
  }
  // ---- names
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s);
    std::vector<std::string> parts;
    const DeclContext *dc = D->getDeclContext();
    std::string nm = D->getDeclName() ? D->getDeclName().getAsString() : std::string();
    if (auto *ctor = dyn_cast<CXXConstructorDecl>(D)) nm = ctor->getParent()->getNameAsString();
    else if (auto *dt = dyn_cast<CXXDestructorDecl>(D)) nm = "~" + dt->getParent()->getNameAsString();
    else if (auto *cv = dyn_cast<CXXConversionDecl>(D)) nm = "operator " + ty(cv->getConversionType(), 0);
    if (nm.empty()) nm = "(anon)";
    parts.push_back(nm);
    while (dc && !dc->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString()); }
      else if (auto *nd = dyn_cast<NamedDecl>(dc)) {
        std::string n2 = nd->getDeclName() ? nd->getDeclName().getAsString() : std::string("(anon)");
        parts.push_back(n2);
      }
      dc = dc->getParent();
    }
    for (size_t i = parts.size(); i--;) { s += parts[i]; if (i) s += "::"; }
    return s;
  }
  std::string tyArg(const TemplateArgument &A, int depth) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return ty(A.getAsType(), depth);
    case TemplateArgument::Integral: { llvm::SmallString<16> b; A.getAsIntegral().toString(b, 10); return b.str().str(); }
    case TemplateArgument::Pack: { std::string s; for (auto &P : A.pack_elements()) { if (!s.empty()) s += ","; s += tyArg(P, depth); } return s; }
    case TemplateArgument::Template: return "tmpl";
    default: return "?";
    }
  }
  std::string ty(QualType T, int depth = 1) {
    if (T.isNull()) return "";
    std::string pre;
    T = T.getCanonicalType();
    if (T.isConstQualified()) pre = "const ";
    const Type *t = T.getTypePtr();
    if (auto *r = dyn_cast<LValueReferenceType>(t)) return ty(r->getPointeeType(), depth) + "&";
    if (auto *r = dyn_cast<RValueReferenceType>(t)) return ty(r->getPointeeType(), depth) + "&&";
    if (auto *p = dyn_cast<PointerType>(t)) return ty(p->getPointeeType(), depth) + "*";
    if (auto *r = dyn_cast<RecordType>(t)) {
      auto *D = r->getDecl();
      if (auto *rd = dyn_cast<CXXRecordDecl>(D)) if (rd->isLambda()) return pre + "lambda";
      std::string s = pre + qn(D);
      if (depth > 0) if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        s += "<"; bool first = true;
        for (auto &A : sp->getTemplateArgs().asArray()) { if (!first) s += ","; first = false; s += tyArg(A, depth - 1); if (s.size() > 400) break; }
        s += ">";
      }
      return s;
    }
    if (auto *e = dyn_cast<EnumType>(t)) return pre + qn(e->getDecl());
    if (auto *i = dyn_cast<InjectedClassNameType>(t)) return pre + qn(i->getDecl());
    if (isa<BuiltinType>(t)) return T.getUnqualifiedType().getAsString(PrintingPolicy(C.getLangOpts())).insert(0, pre);
    if (auto *ts = dyn_cast<TemplateSpecializationType>(t)) {
      std::string s = pre;
      if (auto *td = ts->getTemplateName().getAsTemplateDecl()) s += qn(td); else s += "tmpl";
      if (depth > 0) { s += "<"; bool f = true; for (auto &A : ts->template_arguments()) { if (!f) s += ","; f = false; s += tyArg(A, depth - 1); } s += ">"; }
      return s;
    }
    if (auto *tp = dyn_cast<TemplateTypeParmType>(t)) { (void)tp; return pre + "$T"; }
    if (auto *dn = dyn_cast<DependentNameType>(t)) return pre + "$" + dn->getIdentifier()->getName().str();
    if (auto *a = dyn_cast<ArrayType>(t)) return pre + ty(a->getElementType(), depth) + "[]";
    if (isa<FunctionProtoType>(t)) return pre + "fn";
    if (auto *pe = dyn_cast<PackExpansionType>(t)) return ty(pe->getPattern(), depth) + "...";
    return pre + "?" + t->getTypeClassName();
  }
  // as written, for dependent constructor calls etc.
  std::string tyWritten(QualType T) {
    if (T.isNull()) return "";
    const Type *t = T.getTypePtr();
    if (auto *ts = T->getAs<TemplateSpecializationType>()) { if (auto *td = ts->getTemplateName().getAsTemplateDecl()) return qn(td); }
    if (auto *tp = dyn_cast<TemplateTypeParmType>(t)) return tp->getIdentifier() ? "$" + tp->getIdentifier()->getName().str() : "$T";
    if (auto *td = T->getAs<TypedefType>()) { std::string u = ty(T, 0); if (!u.empty() && u[0] != '?' ) return u; return td->getDecl()->getNameAsString(); }
    return ty(T, 0);
  }
  // ---- ids
  const FunctionDecl *canon(const FunctionDecl *F) { return F->getCanonicalDecl(); }
  int fnId(const FunctionDecl *F) {
    auto *c = canon(F); auto it = fnIds.find(c); if (it != fnIds.end()) return it->second;
    int n = fnIds.size() + 1; fnIds[c] = n; return n;
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = varIds.find(D); if (it != varIds.end()) return it->second;
    int n = varIds.size() + 1; varIds[D] = n; return n;
  }
  const FunctionDecl *patternOf(const FunctionDecl *F) {
    if (auto *P = F->getTemplateInstantiationPattern(/*ForDefinition*/ false)) return P;
    return F;
  }
  std::string patKey(const FunctionDecl *F) {
    const FunctionDecl *P = patternOf(F);
    const FunctionDecl *Def = nullptr; if (P->hasBody(Def) && Def) P = Def;
    L l = loc(P->getLocation());
    return rel(l.file) + ":" + std::to_string(l.line) + ":" + std::to_string(l.col);
  }
  bool repoFn(const FunctionDecl *F) { L l = loc(patternOf(F)->getLocation()); return inRoot(l.file) || l.file == MainFile; }

  // ---- expressions
  std::string kv(const char *k, const std::string &v) { return std::string(",\"") + k + "\":" + v; }
  std::string calleeInfo(const FunctionDecl *F) {
    std::string s = kv("nm", esc(F->getDeclName() ? shortName(F) : "")) + kv("qn", esc(qn(F)));
    if (repoFn(F)) { s += kv("f", std::to_string(fnId(F))) + kv("p", esc(patKey(F)));
      const FunctionDecl *def = nullptr;
      if (F->hasBody(def) && def) pending.push_back(def); }
    { std::string m; for (auto *P : F->parameters()) m += mode(P->getType()); if (F->isVariadic()) m += '.'; if (!m.empty()) s += kv("pm", esc(m)); }
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) { if (MD->isConst()) s += ",\"cst\":1"; if (MD->isStatic()) s += ",\"stc\":1"; if (MD->isVirtual()) s += ",\"virt\":1"; }
    if (auto *pt = F->getType()->getAs<FunctionProtoType>()) if (pt->getExceptionSpecType() != EST_Unevaluated && pt->getExceptionSpecType() != EST_Uninstantiated && pt->canThrow() == CT_Cannot) s += ",\"nx\":1";
    return s;
  }
  char mode(QualType T) {
    if (auto *r = T->getAs<LValueReferenceType>()) return r->getPointeeType().isConstQualified() ? 'c' : 'r';
    if (T->isRValueReferenceType()) return 'm';
    if (auto *p = T->getAs<PointerType>()) return p->getPointeeType().isConstQualified() ? 'v' : 'P';
    return 'v';
  }
  std::string shortName(const FunctionDecl *F) {
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) return c->getParent()->getNameAsString();
    if (auto *c = dyn_cast<CXXDestructorDecl>(F)) return "~" + c->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(F)) return "operator-conv";
    return F->getDeclName().getAsString();
  }
  std::string args(llvm::ArrayRef<const Expr *> A, size_t from = 0) {
    std::string s = "[";
    for (size_t i = from; i < A.size(); ++i) { if (i > from) s += ","; s += expr(A[i]); }
    return s + "]";
  }
  template <class R> std::string argsR(R &&range) {
    std::string s = "["; bool f = true;
    for (const Expr *e : range) { if (!f) s += ","; f = false; s += expr(e); }
    return s + "]";
  }
  std::string head(const char *k, const Expr *E) {
    return std::string("{\"k\":\"") + k + "\",\"l\":" + std::to_string(line(E->getExprLoc()));
  }
  std::string typ(const Expr *E) { return kv("t", esc(ty(E->getType(), 1))); }

  // explicit template arguments of a call (resolved values where known)
  std::string targs(const CallExpr *E, const FunctionDecl *F) {
    const Expr *c = E->getCallee()->IgnoreParenImpCasts();
    llvm::ArrayRef<TemplateArgumentLoc> A;
    if (auto *X = dyn_cast<DeclRefExpr>(c)) A = X->template_arguments();
    else if (auto *X = dyn_cast<MemberExpr>(c)) A = X->template_arguments();
    else if (auto *X = dyn_cast<OverloadExpr>(c)) A = X->template_arguments();
    else if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(c)) A = X->template_arguments();
    else if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(c)) A = X->template_arguments();
    if (A.empty()) return "";
    const TemplateArgumentList *L = F ? F->getTemplateSpecializationArgs() : nullptr;
    std::string r; unsigned n = 0;
    for (auto &a : A) {
      std::string one; llvm::raw_string_ostream o(one);
      const TemplateArgument &ta = (L && n < L->size() && L->get(n).getKind() != TemplateArgument::Pack) ? L->get(n) : a.getArgument();
      ta.print(PrintingPolicy(C.getLangOpts()), o, true);
      if (n++) r += ","; r += one.substr(0, 120);
      if (r.size() > 400) break;
    }
    return kv("ta", esc(r));
  }
  std::string callExpr(const CallExpr *E) {
    const Expr *callee = E->getCallee()->IgnoreParens();
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = OC->getDirectCallee();
      std::string s = head("call", E);
      if (F) s += calleeInfo(F); else s += kv("nm", esc(std::string("operator") + getOperatorSpelling(OC->getOperator()))) + ",\"d\":1";
      s += ",\"op\":1";
      s += kv("o", OC->getNumArgs() ? expr(OC->getArg(0)) : "null");
      std::string a = "["; for (unsigned i = 1; i < OC->getNumArgs(); ++i) { if (i > 1) a += ","; a += expr(OC->getArg(i)); }
      s += kv("a", a + "]") + typ(E) + "}"; return s;
    }
    std::string aa; { aa = "["; for (unsigned i = 0; i < E->getNumArgs(); ++i) { if (i) aa += ","; aa += expr(E->getArg(i)); } aa += "]"; }
    const FunctionDecl *F = E->getDirectCallee();
    std::string s = head("call", E) + targs(E, F);
    if (F) {
      s += calleeInfo(F);
      if (auto *ME = dyn_cast<MemberExpr>(callee)) s += kv("o", expr(ME->getBase()));
      s += kv("a", aa) + typ(E) + "}"; return s;
    }
    // unresolved
    callee = callee->IgnoreImpCasts();
    if (auto *UL = dyn_cast<UnresolvedLookupExpr>(callee)) {
      s += kv("nm", esc(UL->getName().getAsString())) + ",\"d\":1";
      std::string c = cands(UL); if (!c.empty()) s += kv("c", "[" + c + "]");
      if (UL->getQualifier()) { std::string q; llvm::raw_string_ostream o(q); UL->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); s += kv("q", esc(q)); }
      s += kv("a", aa) + typ(E) + "}"; return s;
    }
    if (auto *UM = dyn_cast<UnresolvedMemberExpr>(callee)) {
      s += kv("nm", esc(UM->getMemberName().getAsString())) + ",\"d\":1";
      std::string c = cands(UM); if (!c.empty()) s += kv("c", "[" + c + "]");
      if (UM->getQualifier()) { std::string q; llvm::raw_string_ostream o(q); UM->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); s += kv("q", esc(q)); }
      s += kv("o", UM->isImplicitAccess() ? std::string("{\"k\":\"this\"}") : expr(UM->getBase()));
      s += kv("a", aa) + typ(E) + "}"; return s;
    }
    if (auto *DM = dyn_cast<CXXDependentScopeMemberExpr>(callee)) {
      s += kv("nm", esc(DM->getMember().getAsString())) + ",\"d\":1";
      if (DM->getQualifier()) { std::string q; llvm::raw_string_ostream o(q); DM->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); s += kv("q", esc(q)); }
      s += kv("o", DM->isImplicitAccess() ? std::string("{\"k\":\"this\"}") : expr(DM->getBase()));
      s += kv("a", aa) + typ(E) + "}"; return s;
    }
    if (auto *DD = dyn_cast<DependentScopeDeclRefExpr>(callee)) {
      std::string q; if (DD->getQualifier()) { llvm::raw_string_ostream o(q); DD->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); }
      s += kv("nm", esc(DD->getDeclName().getAsString())) + ",\"d\":1" + kv("q", esc(q));
      s += kv("a", aa) + typ(E) + "}"; return s;
    }
    if (auto *ME = dyn_cast<MemberExpr>(callee)) {
      // call through a data member or function pointer member, or dependent call of a member function
      if (auto *MF = dyn_cast<FunctionDecl>(ME->getMemberDecl())) {
        s += calleeInfo(MF) + kv("o", expr(ME->getBase())) + kv("a", aa) + typ(E) + "}"; return s;
      }
    }
    if (auto *DR = dyn_cast<DeclRefExpr>(callee)) if (auto *FD = dyn_cast<FunctionDecl>(DR->getDecl())) {
      s += calleeInfo(FD) + kv("a", aa) + typ(E) + "}"; return s;
    }
    // object called: dependent functor or function pointer
    s += ",\"nm\":\"operator()\",\"d\":1" + kv("o", expr(callee)) + kv("a", aa) + typ(E) + "}";
    return s;
  }
  std::string cands(const OverloadExpr *O) {
    std::string c; int n = 0;
    for (auto *D : O->decls()) {
      const NamedDecl *U = D->getUnderlyingDecl();
      const FunctionDecl *F = nullptr;
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(U)) F = FT->getTemplatedDecl(); else F = dyn_cast<FunctionDecl>(U);
      if (!F || !repoFn(F)) continue;
      if (n++) c += ",";
      c += "[" + std::to_string(fnId(F)) + "," + esc(qn(F)) + "," + std::to_string(F->getNumParams()) + "," + std::to_string(F->getMinRequiredArguments()) + "]";
      if (n > 40) break;
    }
    return c;
  }
  std::string lambda(const LambdaExpr *E) {
    std::string s = head("lam", E);
    std::string caps = "[";
    auto init = E->capture_init_begin(); bool f = true;
    for (auto &cp : E->captures()) {
      if (!f) caps += ","; f = false;
      if (cp.capturesThis()) { caps += "{\"n\":\"this\",\"this\":1}"; }
      else if (cp.capturesVariable()) {
        auto *V = cp.getCapturedVar();
        caps += "{\"n\":" + esc(V->getNameAsString()) + ",\"id\":" + std::to_string(varId(V));
        if (cp.getCaptureKind() == LCK_ByRef) caps += ",\"ref\":1";
        caps += ",\"t\":" + esc(ty(V->getType(), 1));
        auto *VD = dyn_cast<VarDecl>(V);
        if (VD && VD->isInitCapture()) caps += ",\"ic\":1,\"i\":" + (VD->getInit() ? expr(VD->getInit()) : std::string("null"));
        caps += "}";
      } else caps += "{\"n\":\"?\"}";
      ++init;
    }
    (void)init;
    if (E->getCaptureDefault() != LCD_None) {      // clang leaves out implicit captures of dependent expressions in templates
      struct V : RecursiveASTVisitor<V> {
        std::vector<const VarDecl*> vs; std::set<const VarDecl*> in; bool self = false;
        bool shouldVisitImplicitCode() const { return true; }
        bool VisitVarDecl(VarDecl *D) { in.insert(D); return true; }
        bool VisitDeclRefExpr(DeclRefExpr *R) { if (auto *D = dyn_cast<VarDecl>(R->getDecl())) if (D->hasLocalStorage()) vs.push_back(D); return true; }
        bool VisitCXXThisExpr(CXXThisExpr *) { self = true; return true; }
      } v;
      if (E->getBody()) v.TraverseStmt(E->getBody());
      std::set<const VarDecl*> have; bool self = false;
      for (auto &cp : E->captures()) { if (cp.capturesThis()) self = true; else if (cp.capturesVariable()) have.insert(dyn_cast<VarDecl>(cp.getCapturedVar())); }
      const DeclContext *DC = E->getCallOperator();
      for (auto *D : v.vs) {
        if (v.in.count(D) || have.count(D) || D->getDeclContext() == DC) continue;
        if (DC->Encloses(D->getDeclContext())) continue;
        have.insert(D);
        if (!f) caps += ","; f = false;
        caps += "{\"n\":" + esc(D->getNameAsString()) + ",\"id\":" + std::to_string(varId(D)) + (E->getCaptureDefault() == LCD_ByRef ? ",\"ref\":1" : "") + ",\"t\":" + esc(ty(D->getType(), 1)) + "}";
      }
      if (v.self && !self) { if (!f) caps += ","; f = false; caps += "{\"n\":\"this\",\"this\":1}"; }
    }
    caps += "]";
    const FunctionDecl *op = E->getCallOperator();
    const FunctionDecl *use = op;
    if (auto *FT = op->getDescribedFunctionTemplate()) {
      s += ",\"gen\":1";
      for (auto *sp : FT->specializations()) { const FunctionDecl *def = nullptr; if (sp->hasBody(def) && def) { use = def; break; } }
    }
    const CXXMethodDecl *md = cast<CXXMethodDecl>(op);
    s += kv("caps", caps) + kv("f", std::to_string(fnId(op)));
    if (!md->isConst()) s += ",\"mut\":1";
    if (E->getCaptureDefault() == LCD_ByRef) s += ",\"defref\":1";
    s += kv("ps", params(use));
    const Stmt *b = use->getBody(); if (!b) b = E->getBody();
    s += kv("b", stmt(b)) + "}";
    return s;
  }
  std::string params(const FunctionDecl *F) {
    std::string s = "["; bool f = true;
    for (auto *P : F->parameters()) {
      if (!f) s += ","; f = false;
      s += "{\"n\":" + esc(P->getNameAsString()) + ",\"id\":" + std::to_string(varId(P)) + ",\"t\":" + esc(ty(P->getType(), 1));
      if (P->hasDefaultArg()) s += ",\"def\":1";
      if (P->isParameterPack()) s += ",\"pack\":1";
      s += "}";
    }
    return s + "]";
  }
  std::string expr(const Expr *E) {
    if (!E) return "null";
    // strip
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); if (!E) return "null"; continue; }
      if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) { const Expr *s2 = P->getSubExpr(); if (!P->getType()->isBuiltinType()) { E = s2; continue; } }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<PackExpansionExpr>(E)) { return "{\"k\":\"pack\",\"e\":" + expr(P->getPattern()) + "}"; }
      break;
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return "{\"k\":\"defarg\",\"e\":" + expr(X->getExpr()) + "}";
    if (auto *X = dyn_cast<CallExpr>(E)) return callExpr(X);
    if (auto *X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto *X = dyn_cast<CXXThisExpr>(E)) return X->isImplicit() ? "{\"k\":\"this\",\"im\":1}" : "{\"k\":\"this\"}";
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      std::string s = head("ref", E) + kv("n", esc(D->getNameAsString()));
      if (auto *F = dyn_cast<FunctionDecl>(D)) return s + ",\"dk\":\"fn\"" + calleeInfo(F) + "}";
      if (isa<EnumConstantDecl>(D)) return s + ",\"dk\":\"enum\"" + kv("qn", esc(qn(D))) + "}";
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() ) return s + ",\"dk\":\"glob\"" + kv("qn", esc(qn(V))) + typ(E) + "}";
        s += isa<ParmVarDecl>(V) ? ",\"dk\":\"parm\"" : ",\"dk\":\"var\"";
        return s + kv("id", std::to_string(varId(V))) + typ(E) + "}";
      }
      if (auto *Bd = dyn_cast<BindingDecl>(D)) return s + ",\"dk\":\"var\"" + kv("id", std::to_string(varId(Bd))) + typ(E) + "}";
      return s + ",\"dk\":\"other\"" + kv("qn", esc(qn(D))) + "}";
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      std::string s = head("mem", E) + kv("n", esc(D->getNameAsString()));
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        return head("ref", E) + kv("n", esc(V->getNameAsString())) + ",\"dk\":\"glob\"" + kv("qn", esc(qn(V))) + typ(E) + "}";
      }
      if (auto *F = dyn_cast<FieldDecl>(D)) s += kv("cls", esc(qn(F->getParent())));
      if (auto *F = dyn_cast<FunctionDecl>(D)) s += calleeInfo(F);
      if (X->isArrow()) s += ",\"ar\":1";
      return s + kv("o", expr(X->getBase())) + typ(E) + "}";
    }
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E))
{
      std::string q; if (X->getQualifier()) { llvm::raw_string_ostream o(q); X->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); }
      return head("mem", E) + kv("n", esc(X->getMember().getAsString())) + ",\"d\":1" + (q.empty() ? "" : kv("q", esc(q))) + kv("o", X->isImplicitAccess() ? std::string("{\"k\":\"this\",\"im\":1}") : expr(X->getBase())) + typ(E) + "}";
    }
    if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) {
      std::string q; if (X->getQualifier()) { llvm::raw_string_ostream o(q); X->getQualifier()->print(o, PrintingPolicy(C.getLangOpts())); }
      return head("ref", E) + kv("n", esc(X->getDeclName().getAsString())) + ",\"dk\":\"dep\"" + kv("q", esc(q)) + "}";
    }
    if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) {
      std::string s = head("ref", E) + kv("n", esc(X->getName().getAsString())) + ",\"dk\":\"dep\"";
      std::string c = cands(X); if (!c.empty()) s += kv("c", "[" + c + "]");
      return s + "}";
    }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E))
      return head("mem", E) + kv("n", esc(X->getMemberName().getAsString())) + ",\"d\":1" + kv("o", X->isImplicitAccess() ? std::string("{\"k\":\"this\",\"im\":1}") : expr(X->getBase())) + "}";
    if (auto *X = dyn_cast<CXXTemporaryObjectExpr>(E)) return ctor(X, true);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) return ctor(X, false);
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { return head("ctor", E) + kv("cls", esc(qn(X->getConstructor()->getParent()))) + ",\"inh\":1,\"a\":[]" + typ(E) + "}"; }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E))
      return head("ctor", E) + kv("cls", esc(tyWritten(X->getTypeAsWritten()))) + ",\"d\":1" + kv("a", argsR(X->arguments())) + kv("t", esc(ty(X->getTypeAsWritten(), 1))) + "}";
    if (auto *X = dyn_cast<ParenListExpr>(E)) { std::string a = "["; for (unsigned i = 0; i < X->getNumExprs(); ++i) { if (i) a += ","; a += expr(X->getExpr(i)); } return head("plist", E) + kv("a", a + "]") + "}"; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { if (X->isSemanticForm() && X->getSyntacticForm()) {} return head("ilist", E) + kv("a", argsR(X->inits())) + typ(E) + "}"; }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) return head("ilist", E) + kv("a", argsR(X->getInitExprs())) + typ(E) + "}";
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) return head("asg", E) + kv("op", esc(X->getOpcodeStr())) + kv("x", expr(X->getLHS())) + kv("y", expr(X->getRHS())) + "}";
      return head("bin", E) + kv("op", esc(X->getOpcodeStr())) + kv("x", expr(X->getLHS())) + kv("y", expr(X->getRHS())) + typ(E) + "}";
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      return head("un", E) + kv("op", esc(op)) + (X->isPostfix() ? ",\"post\":1" : "") + kv("e", expr(X->getSubExpr())) + typ(E) + "}";
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) return head("cond", E) + kv("c", expr(X->getCond())) + kv("x", expr(X->getTrueExpr())) + kv("y", expr(X->getFalseExpr())) + "}";
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return std::string("{\"k\":\"lit\",\"v\":") + (X->getValue() ? "true" : "false") + "}";
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<24> b; X->getValue().toString(b, 10, false); std::string v = b.str().str(); if (v.size() > 17) v = esc(v); return "{\"k\":\"lit\",\"v\":" + v + "}"; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "{\"k\":\"lit\",\"v\":null}";
    if (auto *X = dyn_cast<StringLiteral>(E)) { if (X->getCharByteWidth() == 1) return "{\"k\":\"lit\",\"v\":" + esc(X->getString().substr(0, 200)) + "}"; return "{\"k\":\"lit\",\"v\":\"\"}"; }
    if (isa<FloatingLiteral>(E) || isa<CharacterLiteral>(E)) return head("oplit", E) + "}";
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return head("throw", E) + kv("e", expr(X->getSubExpr())) + (X->getSubExpr() ? kv("tt", esc(ty(X->getSubExpr()->getType(), 0))) : "") + "}";
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      std::string pl = "["; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) { if (i) pl += ","; pl += expr(X->getPlacementArg(i)); } pl += "]";
      return head("new", E) + kv("nt", esc(ty(X->getAllocatedType(), 1))) + kv("pl", pl) + (X->isArray() ? ",\"arr\":1" : "") + (X->isArray() && X->getArraySize() && *X->getArraySize() ? kv("n", expr(*X->getArraySize())) : "") + kv("e", X->getInitializer() ? expr(X->getInitializer()) : std::string("null")) + "}";
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return head("del", E) + (X->isArrayForm() ? ",\"arr\":1" : "") + kv("e", expr(X->getArgument())) + "}";
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) return head("cast", E) + kv("e", expr(X->getSubExpr())) + kv("ck", esc(X->getStmtClassName())) + typ(E) + "}";
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) return head("idx", E) + kv("o", expr(X->getBase())) + kv("i", expr(X->getIdx())) + typ(E) + "}";
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) return head("call", E) + ",\"nm\":\"~\",\"d\":1" + kv("o", expr(X->getBase())) + ",\"a\":[]}";
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return head("zero", E) + typ(E) + "}";
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { (void)X; return head("sizeof", E) + "}"; }
    if (isa<SizeOfPackExpr>(E)) return head("sizeof", E) + "}";
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) return head("fold", E) + kv("op", esc(BinaryOperator::getOpcodeStr(X->getOperator()))) + kv("e", expr(X->getPattern())) + "}";
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? expr(X->getSourceExpr()) : "null";
    if (auto *X = dyn_cast<RecoveryExpr>(E)) return head("recov", E) + kv("a", argsR(X->subExpressions())) + "}";
    if (isa<TypeTraitExpr>(E)) { auto *X = cast<TypeTraitExpr>(E); if (!X->isValueDependent()) return std::string("{\"k\":\"lit\",\"v\":") + (X->getValue() ? "true" : "false") + "}"; }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { (void)X; return head("sizeof", E) + "}"; }
    if (auto *X = dyn_cast<ConceptSpecializationExpr>(E)) { if (!X->isValueDependent()) return std::string("{\"k\":\"lit\",\"v\":") + (X->isSatisfied() ? "true" : "false") + "}"; return head("opq", E) + "}"; }
    std::string s = head("opq", E) + kv("cn", esc(E->getStmtClassName()));
    std::string ch = "["; bool f = true;
    for (const Stmt *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) { if (!f) ch += ","; f = false; ch += expr(ce); }
    return s + kv("a", ch + "]") + "}";
  }
  std::string ctor(const CXXConstructExpr *X, bool temp) {
    const CXXConstructorDecl *D = X->getConstructor();
    std::string s = head("ctor", X) + kv("cls", esc(qn(D->getParent())));
    if (repoFn(D)) { s += kv("f", std::to_string(fnId(D))) + kv("p", esc(patKey(D)));
      const FunctionDecl *def = nullptr;
      if (D->hasBody(def) && def) pending.push_back(def); }
    { std::string m; for (auto *P : D->parameters()) m += mode(P->getType()); if (!m.empty()) s += kv("pm", esc(m)); }
    if (D->isCopyConstructor()) s += ",\"cp\":1"; else if (D->isMoveConstructor()) s += ",\"mv\":1";
    if (D->isDefaulted() ) s += ",\"dft\":1";
    if (temp) s += ",\"tmp\":1";
    s += kv("a", argsR(X->arguments())) + typ(X) + "}";
    return s;
  }
  // ---- statements
  std::string varDecl(const VarDecl *V) {
    std::string s = "{\"n\":" + esc(V->getNameAsString()) + ",\"id\":" + std::to_string(varId(V)) + ",\"t\":" + esc(ty(V->getType(), 1));
    if (V->getType()->isDependentType()) { std::string w = tyWritten(V->getType().getNonReferenceType()); s += ",\"tw\":" + esc(w); }
    if (V->getInit()) s += ",\"i\":" + expr(V->getInit());
    if (V->isStaticLocal()) s += ",\"st\":1";
    if (V->getTLSKind() != VarDecl::TLS_None) s += ",\"tl\":1";
    s += ",\"l\":" + std::to_string(line(V->getLocation()));
    return s + "}";
  }
  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    std::string ln = std::to_string(line(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      std::string s = "[\"{\"," + ln + ",["; bool f = true;
      for (auto *c : X->body()) { if (isa<NullStmt>(c)) continue; if (!f) s += ","; f = false; s += stmt(c); }
      return s + "]]";
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      std::string s = "[\"decl\"," + ln + ",["; bool f = true;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (!f) s += ","; f = false; s += varDecl(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) for (auto *B : DD->bindings()) { s += ",{\"n\":" + esc(B->getNameAsString()) + ",\"id\":" + std::to_string(varId(B)) + ",\"t\":\"\",\"i\":{\"k\":\"opq\",\"l\":" + ln + ",\"a\":[{\"k\":\"ref\",\"n\":\"\",\"dk\":\"var\",\"id\":" + std::to_string(varId(V)) + "}]},\"l\":" + ln + "}"; }
        } else if (auto *R = dyn_cast<CXXRecordDecl>(D)) { localRecs.push_back(R); }
      }
      return s + "]]";
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      std::string init = X->getInit() ? stmt(X->getInit()) : "null";
      std::string cond;
      if (X->getConditionVariable()) init = "[\"decl\"," + ln + ",[" + varDecl(X->getConditionVariable()) + "]]";
      cond = expr(X->getCond());
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        Expr::EvalResult R; 
        if (X->getCond()->EvaluateAsConstantExpr(R, C) && R.Val.isInt()) cond = std::string("{\"k\":\"lit\",\"v\":") + (R.Val.getInt().getBoolValue() ? "true" : "false") + "}";
      }
      return "[\"if\"," + ln + "," + init + "," + cond + "," + stmt(X->getThen()) + "," + stmt(X->getElse()) + "]";
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) return "[\"while\"," + ln + "," + expr(X->getCond()) + "," + stmt(X->getBody()) + "]";
    if (auto *X = dyn_cast<DoStmt>(S)) return "[\"do\"," + ln + "," + stmt(X->getBody()) + "," + expr(X->getCond()) + "]";
    if (auto *X = dyn_cast<ForStmt>(S)) return "[\"for\"," + ln + "," + stmt(X->getInit()) + "," + expr(X->getCond()) + "," + expr(X->getInc()) + "," + stmt(X->getBody()) + "]";
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto *LV = X->getLoopVariable();
      return "[\"range\"," + ln + ",{\"n\":" + esc(LV->getNameAsString()) + ",\"id\":" + std::to_string(varId(LV)) + ",\"t\":" + esc(ty(LV->getType(), 1)) + "}," + expr(X->getRangeInit()) + "," + stmt(X->getBody()) + "]";
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) return "[\"ret\"," + ln + "," + expr(X->getRetValue()) + "]";
    if (isa<BreakStmt>(S)) return "[\"break\"," + ln + "]";
    if (isa<ContinueStmt>(S)) return "[\"continue\"," + ln + "]";
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      std::string s = "[\"try\"," + ln + "," + stmt(X->getTryBlock()) + ",["; 
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); if (i) s += ",";
        s += "{\"l\":" + std::to_string(line(H->getBeginLoc()));
        if (H->getExceptionDecl()) { auto *V = H->getExceptionDecl(); s += ",\"t\":" + esc(ty(V->getType().getNonReferenceType(), 0)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"id\":" + std::to_string(varId(V));
          s += ",\"bases\":" + basesOf(V->getType().getNonReferenceType()); }
        s += ",\"b\":" + stmt(H->getHandlerBlock()) + "}";
      }
      return s + "]]";
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) return "[\"switch\"," + ln + "," + expr(X->getCond()) + "," + stmt(X->getBody()) + "]";
    if (auto *X = dyn_cast<CaseStmt>(S)) return "[\"case\"," + ln + "," + expr(X->getLHS()) + "," + stmt(X->getSubStmt()) + "]";
    if (auto *X = dyn_cast<DefaultStmt>(S)) return "[\"default\"," + ln + "," + stmt(X->getSubStmt()) + "]";
    if (auto *X = dyn_cast<LabelStmt>(S)) return "[\"label\"," + ln + "," + stmt(X->getSubStmt()) + "]";
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (isa<NullStmt>(S)) return "[\"null\"," + ln + "]";
    if (auto *X = dyn_cast<Expr>(S)) return "[\"e\"," + ln + "," + expr(X) + "]";
    return "[\"opq\"," + ln + "," + esc(S->getStmtClassName()) + "]";
  }
  std::string basesOf(QualType T) {
    std::string s = "["; std::set<std::string> names;
    if (auto *R = T->getAsCXXRecordDecl()) if (R->hasDefinition()) R->forallBases([&](const CXXRecordDecl *B) { names.insert(qn(B)); return true; });
    bool f = true; for (auto &n : names) { if (!f) s += ","; f = false; s += esc(n); }
    return s + "]";
  }
  std::vector<const CXXRecordDecl *> localRecs;

  void emitFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted() && !F->isDeleted()) return;
    if (!wanted(F)) return;
    if (!emittedFn.insert(F).second) return;
    if (F->isInvalidDecl()) return;
    varIds.clear();
    bool dep = F->isDependentContext();
    const char *kind = dep ? "pattern" : (patternOf(F) != F ? "inst" : "plain");
    std::string pk = patKey(F);
    L l = loc(F->getLocation());
    std::string ps = params(F);
    std::string inits = "[";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      bool f = true;
      for (auto *I : CD->inits()) {
        if (!f) inits += ","; f = false;
        std::string n;
        if (I->isAnyMemberInitializer()) n = "\"m\":" + esc(I->getAnyMember()->getNameAsString());
        else if (I->isDelegatingInitializer()) n = "\"deleg\":1";
        else n = "\"b\":" + esc(tyWritten(QualType(I->getBaseClass(), 0)));
        inits += "{" + n + (I->isWritten() ? ",\"w\":1" : "") + ",\"i\":" + expr(I->getInit()) + "}";
      }
    }
    inits += "]";
    std::string body = F->doesThisDeclarationHaveABody() ? stmt(F->getBody()) : "null";
    std::string s;
    s += kv("ps", ps) + kv("inits", inits) + kv("b", body);
    // duplicates of the same pattern with the same resolved body
    if (std::string(kind) == "inst") {
      size_t h = std::hash<std::string>()(s);
      auto &set = seenBodies[pk];
      if (!set.insert(h).second || set.size() > 40) return;
    }
    std::string o = "{\"r\":\"fn\",\"id\":" + std::to_string(fnId(F)) + kv("kind", esc(kind)) + kv("p", esc(pk)) + kv("qn", esc(qn(F))) + kv("nm", esc(shortName(F)));
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      const CXXRecordDecl *R = MD->getParent();
      o += kv("cls", esc(qn(R)));
      o += kv("ct", esc(ty(C.getRecordType(R), 2)));
      if (MD->isStatic()) o += ",\"static\":1";
      if (MD->isConst()) o += ",\"const\":1";
      if (MD->isVirtual()) o += ",\"virt\":1";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) { o += CD->isCopyConstructor() ? ",\"sp\":\"cc\"" : CD->isMoveConstructor() ? ",\"sp\":\"mc\"" : CD->isDefaultConstructor() ? ",\"sp\":\"dc\"" : ",\"sp\":\"ctor\""; }
      else if (MD->isCopyAssignmentOperator()) o += ",\"sp\":\"ca\""; else if (MD->isMoveAssignmentOperator()) o += ",\"sp\":\"ma\"";
      else if (isa<CXXDestructorDecl>(MD)) o += ",\"sp\":\"dt\"";
      std::string ap; switch (MD->getAccess()) { case AS_private: ap = "priv"; break; case AS_protected: ap = "prot"; break; default: ap = "pub"; }
      o += kv("acc", esc(ap));
    }
    if (F->isDefaulted()) o += ",\"dft\":1";
    if (F->isImplicit()) o += ",\"implicit\":1";
    if (F->isDeleted()) o += ",\"del\":1";
    if (auto *pt = F->getType()->getAs<FunctionProtoType>()) { auto es = pt->getExceptionSpecType(); if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone) o += ",\"nx\":1"; }
    o += kv("file", esc(rel(l.file))) + ",\"line\":" + std::to_string(l.line);
    o += kv("rt", esc(ty(F->getReturnType(), 1)));
    OS << o << s << "}\n";
    auto recs = std::move(localRecs); localRecs.clear();
    for (auto *R : recs) emitRecTree(R);
  }
  void emitRecTree(const CXXRecordDecl *R) {
    emitRec(R);
    for (auto *D : R->decls()) {
      if (auto *F = dyn_cast<FunctionDecl>(D)) emitFn(F);
      else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) { emitFn(FT->getTemplatedDecl()); for (auto *S : FT->specializations()) emitFn(S); }
      else if (auto *R2 = dyn_cast<CXXRecordDecl>(D)) if (R2->isThisDeclarationADefinition() && !R2->isInjectedClassName()) emitRecTree(R2);
    }
  }
  void emitRec(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !wanted(R) || R->isLambda()) return;
    if (!emittedRec.insert(R).second) return;
    L l = loc(R->getLocation());
    bool dep = R->isDependentContext();
    const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
    if (P) { // one line per distinct instantiation is not needed: only patterns and plain classes, plus instantiations for field types
      l = loc(P->getLocation());
    }
    varIds.clear();
    std::string o = "{\"r\":\"rec\",\"kind\":" + esc(dep ? "pattern" : P ? "inst" : "plain") + kv("qn", esc(qn(R))) + kv("ct", esc(ty(C.getRecordType(R), 2))) + kv("file", esc(rel(l.file))) + ",\"line\":" + std::to_string(l.line) + ",\"col\":" + std::to_string(l.col);
    if (isa<ClassTemplatePartialSpecializationDecl>(R)) o += ",\"partial\":1";
    std::string b = "["; bool f = true;
    for (auto &B : R->bases()) { if (!f) b += ","; f = false; b += esc(tyWritten(B.getType())); }
    o += kv("bases", b + "]");
    std::string fl = "["; f = true;
    for (auto *F : R->fields()) { if (!f) fl += ","; f = false; fl += "{\"n\":" + esc(F->getNameAsString()) + ",\"t\":" + esc(ty(F->getType(), 2)) + (F->hasInClassInitializer() ? ",\"ini\":1" : "") + (F->getType().isConstQualified() ? ",\"const\":1" : "") + "}"; }
    o += kv("fields", fl + "]");
    std::string st = "["; f = true;
    for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) st += ","; f = false; st += "{\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + esc(ty(V->getType(), 2)) + "}"; }
    o += kv("statics", st + "]");
    std::string ms = "["; f = true;
    for (auto *D : R->decls()) {
      const FunctionDecl *F = dyn_cast<FunctionDecl>(D);
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) F = FT->getTemplatedDecl();
      if (!F || F->isImplicit()) continue;
      if (!f) ms += ","; f = false; ms += "[" + esc(shortName(F)) + "," + std::to_string(fnId(F)) + "," + std::to_string(F->getNumParams()) + (F->isDeleted() ? ",\"del\"" : F->isPureVirtual() ? ",\"pure\"" : F->isDefaulted() ? ",\"dft\"" : ",\"\"") + "]";
    }
    o += kv("ms", ms + "]");
    OS << o << "}\n";
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ex &X; Vis(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseStmt(Stmt *, DataRecursionQueue * = nullptr) { return true; }   // bodies are emitted by Ex
  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    if (isa<TranslationUnitDecl>(D) || isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D)) return RecursiveASTVisitor::TraverseDecl(D);
    if (!X.wanted(D)) return true;
    return RecursiveASTVisitor::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { X.emitFn(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (!R->isInjectedClassName()) X.emitRec(R); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec; llvm::raw_fd_ostream OS(OutPath, ec);
    if (ec) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(2); }
    Ex X(C, OS); Vis V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    // instantiated bodies not reached as children (e.g. friend templates)
    for (size_t i = 0; i < X.pending.size(); ++i) { auto *F = X.pending[i]; X.emitFn(F); }
    auto &DE = C.getDiagnostics();
    OS << "{\"r\":\"tu\",\"main\":" << esc(MainFile) << ",\"errors\":" << DE.getClient()->getNumErrors() << "}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract out main root -- args\n"; return 2; }
  OutPath = argv[1]; MainFile = argv[2]; Root = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {MainFile});
  int rc = T.run(std::make_unique<Fac>().get());
  return rc == 0 ? 0 : 3;
}
