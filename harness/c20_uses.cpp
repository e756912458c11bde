// Uses of functions, variables, members, namespaces and built-ins: which demand the header that declares them.
#include "decl.h"
enum { FUNCTION, BUILTIN, NEW, MEMBER, NAMESPACE, LOCAL, TEMPLATE };
static bool has(const vector<string> &v, const string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
extern "C" void h_decl_use() {
  w_init();
  SetVerboseLevel(3);
  w_flags->update_comments = w_flags->no_comments = true;
  all_decls = new vector<NamedDecl *>;
  int kind = vp_param("K", FUNCTION), in_main = vp_param("U", 1), priv = vp_param("P", 0), twice = vp_param("T", 0);
  bool only = w_flags->transitive_includes_only = vp_sym_range("only", 0, 1);
  local = kind == LOCAL, builtin = kind == BUILTIN, replaceable = kind == NEW;
  // 0 m.cc, 1 a.h, 2 b.h, 3 c.h; each may include one header, and the use is in the second line after that
  const char *names[] = {"m.cc", "a.h", "b.h", "c.h", "h.h"};
  vector<vector<int>> inc(5);
  vector<string> text(5, "");
  auto edge = [&](int f) {
    int t = vp_sym_range("to", 'a', 'c') - 'a';
    inc[f].push_back(1 + t);
    text[f] += string("#include \"") + char('a' + t) + ".h\"\n";
  };
  edge(0); edge(1); edge(2);
  if (vp_sym_range("second", 0, 1)) { inc[0].push_back(3); text[0] += "#include \"c.h\"\n"; }
  for (int i = 0; i < 5; i++) w_file(string("/w/") + names[i], text[i] + "int u;\nint v;\nint w;\n");
  w_main = 0;
  AddGlobToReportIWYUViolationsFor("/w/a.h");
  if (priv) {                                        // b.h is private, and c.h stands before it
    MutableGlobalIncludePicker()->AddMapping("\"b.h\"", MappedInclude("\"c.h\""));
    MutableGlobalIncludePicker()->MarkIncludeAsPrivate("\"b.h\"");
  }
  bool mapped = (kind == BUILTIN || kind == FUNCTION) && vp_param("S", 0);
  if (mapped) MutableGlobalIncludePicker()->AddSymbolMapping("X", MappedInclude("\"h.h\""), kPublic);
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, 0);
  bool reach[5][5] = {};                               // a file counts as including itself
  for (int i = 0; i < 5; i++) { reach[i][i] = true; for (int j : inc[i]) reach[i][j] = true; }
  for (int k = 0; k < 5; k++) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  auto in = [&](int f) { return f == 0 || reach[0][f]; };    // is it part of the translation unit
  int user = in_main ? 0 : 1;
  vp_assume(in(user));
  auto *info = pi->FileInfoFor(w_ref(user));
  SourceLocation use = w_at(user, 2 + inc[user].size());
  auto line = [&](int f, int l) { SourceRange r = at(f, 1 + inc[f].size() + l); return l == 1 ? SourceRange(r.getBegin()) : r; };  // 0 before, 1 at, 2 after the use
  int place_of = vp_choose("place", 0, 2);
  int def = vp_choose("declared", 0, 3);
  vp_assume(in(def));
  if (def != user) vp_assume(place_of == 0);
  DeclContext *scope = tu();
  int parent = -1;
  if (kind == MEMBER) {
    parent = vp_choose("class", 0, 3);
    vp_assume(in(parent));
    scope = decl<clang::CXXRecordDecl>(Decl::CXXRecord, tu(), line(parent, 0), "K");
  }
  NamedDecl *x;
  if (kind == NAMESPACE) x = decl<clang::NamespaceDecl>(Decl::Namespace, tu(), line(def, place_of), "X");
  else if (kind == TEMPLATE) x = decl<clang::BuiltinTemplateDecl>(Decl::BuiltinTemplate, tu(), line(def, place_of), "X");
  else if (kind == MEMBER && vp_param("V", 0)) x = decl<clang::VarDecl>(Decl::Var, scope, line(def, place_of), "X");
  else if (vp_param("V", 0)) x = decl<clang::VarDecl>(Decl::Var, tu(), line(def, place_of), "X");
  else x = decl<clang::FunctionDecl>(Decl::Function, scope, line(def, place_of), "X");
  all_decls->push_back(x);
  bool visible = def == user && place_of < 2;
  int other = -1;
  if (twice) {                                       // another declaration of the same thing
    other = vp_choose("again", 0, 3);
    vp_assume(in(other));
    int p = vp_choose("again_at", 0, 2);
    if (other != user) vp_assume(p == 0);
    vp_assume(other != def || p != place_of);
    auto *y = vp_param("V", 0) ? (NamedDecl *)decl<clang::VarDecl>(Decl::Var, scope, line(other, p), "X") : decl<clang::FunctionDecl>(Decl::Function, scope, line(other, p), "X");
    all_decls->push_back(y);
    visible |= other == user && p < 2;
  }
  int flag = vp_choose("flag", 0, 1);                  // the use is by the symbol's own definition
  info->ReportFullSymbolUse(use, x, flag ? UF_DefinitionUse : UF_None, nullptr);
  int inner = kind == NAMESPACE ? vp_choose("inner", 0, 2) : 0;      // 1: a use of something in the namespace; 2: of something elsewhere
  if (inner) {
    vp_assume(in(3) && def != 3 && !reach[3][user]);
    auto *y = decl<clang::FunctionDecl>(Decl::Function, inner == 1 ? (clang::NamespaceDecl *)x : tu(), line(3, 0), "Y");
    info->ReportFullSymbolUse(use, y, UF_None, nullptr);
  }
  pi->HandlePreprocessingDone();
  w_err->clear();
  info->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  bool own_header = builtin && mapped;
  auto pub = [&](int f) { return priv && f == 2 ? 3 : f; };
  bool dropped = kind == LOCAL || kind == TEMPLATE || kind == NEW || (kind == BUILTIN && !mapped);
  if (!own_header) {
    if (flag ? false : visible) dropped = true;
    if (reach[def][user]) dropped = true;
  }
  if (only && !reach[user][def]) dropped = true;
  if (kind == MEMBER && pub(parent) == pub(def)) dropped = true;
  if (inner == 1) dropped = true;
  int from = mapped ? 4 : pub(def);
  if (!dropped && from == user) dropped = true;
  if (!dropped && from == 0) dropped = true;            // a source
  vector<string> want;
  auto add = [&](int f) { string l = "#include " + q(names[f]); if (!has(want, l)) want.push_back(l); };
  if (!dropped) add(from);
  bool more = inner && !(only && !reach[user][3]);
  if (more) add(3);
  if (priv && user == 3) add(2);
  vector<string> got = w_report(*w_err, (*w_files)[user].path).full;
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  vp_assert(got == want, "a use demands the header that declares the symbol, except what the file, the language or the symbol's class provides");
  int n = 0;
  for (size_t i = w_err->find(": warning: "); i != string::npos; i = w_err->find(": warning: ", i + 1)) n++;
  auto present = [&](int f) { return std::count(inc[user].begin(), inc[user].end(), f) > 0; };
  vp_assert(n == (!dropped && !present(from)) + (more && !present(3)), "it is a violation exactly when the file does not include that header");
  vp_cover(dropped ? "dropped" : present(from) ? "present" : "violation");
  if (kind == MEMBER) vp_cover(dropped ? "member of a class of the file" : "member of a class elsewhere");
  if (inner == 1) vp_cover("inner");
  if (inner == 2) vp_cover("inner elsewhere");
  if (own_header && !dropped) vp_cover("mapped builtin");
  if (flag && visible && !dropped) vp_cover("definition");
}
