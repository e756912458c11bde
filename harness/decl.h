// Made-up declarations for the checks of uses.
#pragma once
#include <algorithm>
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "world.h"
#include "iwyu_ast_util.h"
using namespace include_what_you_use;
using clang::Decl; using clang::DeclContext; using clang::NamedDecl; using clang::TagDecl;
using std::set; using std::string; using std::vector;
// A declaration at the head of zeroed memory of its full size. The tool reads it through Clang's inline accessors.
struct WDecl : NamedDecl {
  WDecl(Kind k, DeclContext *dc, SourceRange r, clang::DeclarationName n) : NamedDecl(k, dc, r.getEnd(), n) {}
  SourceRange getSourceRange() const override;
  bool isOutOfLine() const override { return false; }
  Decl *getNextRedeclarationImpl() override;
  Decl *getPreviousDeclImpl() override;
  Decl *getMostRecentDeclImpl() override;
  Decl *getCanonicalDecl() override;
};
static const size_t BLOCK = 512;                  // more than the size of any declaration used here
SourceRange WDecl::getSourceRange() const { return *(const SourceRange *)((const char *)this + BLOCK - sizeof(SourceRange)); }
static vector<NamedDecl *> *all_decls;              // all declarations of X, in their order
static NamedDecl *dfn;                            // its definition, if there is one
[[maybe_unused]] static bool nested, local, in_inline, builtin, replaceable;
static NamedDecl *in_macro;                       // a declaration that a macro makes
static int place(const Decl *d) { for (size_t i = 0; i < all_decls->size(); i++) if ((*all_decls)[i] == d) return i; return -1; }
Decl *WDecl::getNextRedeclarationImpl() { int i = place(this); return i < 0 ? this : (*all_decls)[i ? i - 1 : all_decls->size() - 1]; }
Decl *WDecl::getPreviousDeclImpl() { int i = place(this); return i > 0 ? (*all_decls)[i - 1] : nullptr; }
Decl *WDecl::getMostRecentDeclImpl() { return place(this) < 0 ? this : all_decls->back(); }
Decl *WDecl::getCanonicalDecl() { return place(this) < 0 ? this : (*all_decls)[0]; }
static clang::DeclarationName name(const string &s) {
  auto *id = new clang::IdentifierInfo();
  typedef llvm::StringMapEntry<clang::IdentifierInfo *> E;
  void *mem = malloc(sizeof(E) + s.size() + 1);
  auto *e = new (mem) E(s.size(), id);
  memcpy((char *)mem + sizeof(E), s.data(), s.size());
  ((char *)mem)[sizeof(E) + s.size()] = 0;
  id->Entry = e;
  return clang::DeclarationName(id);
}
static DeclContext *tu() {
  static DeclContext *t;
  if (!t) { t = (clang::TranslationUnitDecl *)calloc(1, sizeof(clang::TranslationUnitDecl)); t->DeclContextBits.DeclKind = Decl::TranslationUnit; }
  return t;
}
template <class T> static T *decl(Decl::Kind k, DeclContext *dc, SourceRange r, const string &n) {
  static_assert(sizeof(T) + sizeof(SourceRange) <= BLOCK, "");
  static char *pool; static size_t used_up;       // in the order of creation, as in Clang's arena
  if (!pool) pool = (char *)calloc(1, 16 * BLOCK);
  char *p = pool + used_up;
  used_up += BLOCK;
  ::new (p) WDecl(k, dc, r, n.empty() ? clang::DeclarationName() : name(n));
  *(SourceRange *)(p + BLOCK - sizeof(SourceRange)) = r;
  T *t = (T *)p;
  if constexpr (std::is_base_of_v<DeclContext, T>) static_cast<DeclContext *>(t)->DeclContextBits.DeclKind = k;
  return t;
}
static string qualified(const NamedDecl *d) {
  string s = d->getDeclName().isEmpty() ? "(anonymous)" : d->getName().str();
  for (const DeclContext *c = d->getDeclContext(); c && c != tu(); c = ((NamedDecl *)Decl::castFromDeclContext(c))->getDeclContext()) {
    auto *n = (const NamedDecl *)Decl::castFromDeclContext(c);
    s = (n->getDeclName().isEmpty() ? string("(anonymous namespace)") : n->getName().str()) + "::" + s;
  }
  return s;
}
// What the syntax-tree helpers of the tool say about these declarations.
namespace include_what_you_use {
set<const NamedDecl *> GetTagRedecls(const NamedDecl *) { set<const NamedDecl *> s; for (auto *d : *all_decls) s.insert(d); return s; }
bool IsInNamespace(const NamedDecl *d, const clang::NamespaceDecl *n) { return d->getDeclContext() == (const DeclContext *)n; }
bool IsNestedClass(const TagDecl *) { return nested; }
bool HasDefaultTemplateParameters(const clang::TemplateDecl *) { return true; }
bool IsBuiltinFunction(const NamedDecl *) { return builtin; }
set<const NamedDecl *> GetNonTagRedecls(const NamedDecl *d) { set<const NamedDecl *> s; for (auto *e : *all_decls) s.insert(e); if (place(d) < 0) s = {d}; return s; }
bool DeclsAreInSameClass(const Decl *, const Decl *) { return false; }
bool IsInInlineNamespace(const Decl *) { return in_inline; }
bool IsDeclaredInsideMacro(const Decl *d) { return d == in_macro; }
bool IsDeclaredInsideFunction(const Decl *) { return local; }
const NamedDecl *GetDefinitionAsWritten(const NamedDecl *d) { return dfn && place(d) >= 0 ? dfn : d; }
const NamedDecl *GetNonfriendClassRedecl(const NamedDecl *d) { return d; }
const TagDecl *GetTagDefinition(const Decl *d) { return place(d) >= 0 ? (const TagDecl *)dfn : nullptr; }
SourceRange GetSourceRangeOfClassDecl(const Decl *d) { return d->getSourceRange(); }
string GetWrittenQualifiedNameAsString(const NamedDecl *d) { return qualified(d); }
}
bool clang::FunctionDecl::isReplaceableGlobalAllocationFunction(std::optional<unsigned> *, bool *) const { return replaceable; }
clang::FunctionDecl *clang::FunctionDecl::getTemplateInstantiationPattern(bool) const { return nullptr; }
void NamedDecl::printName(llvm::raw_ostream &os) const { os << getName(); }
static string *printed;                             // what Clang prints for a template
void Decl::print(llvm::raw_ostream &os, const clang::PrintingPolicy &, unsigned, bool) const { os << *printed; }
clang::ASTContext &Decl::getASTContext() const {
  static void *mem;
  if (!mem) mem = calloc(1, sizeof(clang::ASTContext));
  return *(clang::ASTContext *)mem;
}
#if VP_SYMBOLIC
bool Decl::StatisticsEnabled = false;
unsigned Decl::getIdentifierNamespaceForKind(Kind) { return 0; }
Decl *Decl::castFromDeclContext(const DeclContext *c) {
  if (c->getDeclKind() == Decl::Namespace) return (Decl *)static_cast<const clang::NamespaceDecl *>(c);
  if (c->getDeclKind() == Decl::CXXRecord) return (Decl *)static_cast<const clang::CXXRecordDecl *>(c);
  return (Decl *)static_cast<const clang::TranslationUnitDecl *>(c);
}
clang::ClassTemplateDecl *clang::CXXRecordDecl::getDescribedClassTemplate() const { return nullptr; }
bool Decl::isInAnonymousNamespace() const {
  for (const DeclContext *c = getDeclContext(); c && c != tu(); c = castFromDeclContext(c)->getDeclContext())
    if (c->getDeclKind() == Decl::Namespace && static_cast<const clang::NamespaceDecl *>(c)->isAnonymousNamespace()) return true;
  return false;
}
llvm::StringRef clang::TypeWithKeyword::getKeywordName(ElaboratedTypeKeyword k) {
  return k == ElaboratedTypeKeyword::Struct ? "struct" : k == ElaboratedTypeKeyword::Union ? "union" : k == ElaboratedTypeKeyword::Class ? "class" : "enum";
}
clang::ElaboratedTypeKeyword clang::TypeWithKeyword::getKeywordForTagTypeKind(TagTypeKind k) {
  return k == TagTypeKind::Struct ? ElaboratedTypeKeyword::Struct : k == TagTypeKind::Union ? ElaboratedTypeKeyword::Union : k == TagTypeKind::Class ? ElaboratedTypeKeyword::Class : ElaboratedTypeKeyword::Enum;
}
#endif
[[maybe_unused]] static string q(const string &n) { return "\"" + n + "\""; }
[[maybe_unused]] static SourceRange at(int f, int line) { SourceLocation l = w_at(f, line); return SourceRange(l, l.getLocWithOffset(6)); }
[[maybe_unused]] static clang::CXXRecordDecl *klass(int f, int line, bool complete, DeclContext *dc = tu(), const string &n = "X") {
  auto *d = decl<clang::CXXRecordDecl>(Decl::CXXRecord, dc, at(f, line), n);
  d->TagDeclBits.TagDeclKind = llvm::to_underlying(clang::TagTypeKind::Class);
  d->TagDeclBits.IsCompleteDefinition = complete;
  all_decls->push_back(d);
  if (complete) dfn = d;
  return d;
}
