// Forward declarations: which are wanted, which go, and how one is printed.
#include "decl.h"
enum { NORMAL, NO_FWD, INHIBIT, EXPORT, NESTED, LOCAL, INLINE, STD, MACRO, SPACE };
static const char *const SPACES[] = {"std", "__gnu_cxx", "stdx", "xstd", "__gnu", "std_"};  // the first two are the library's own
// m.cc: 1 #include "d.h", 2 #include "f.h", 3 class X;, 4 use, 5 class X;, 6 use, 7 class X {}, 8 use.
extern "C" void h_decl() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  SetVerboseLevel(3);
  all_decls = new vector<NamedDecl *>;
  int mode = vp_param("M", 0), own = vp_param("O", 0), where = vp_param("D", 0);  // definition: nowhere, d.h, m.cc
  bool inc_d = vp_param("I", 0) & 1, inc_f = vp_param("I", 0) & 2, nest = vp_param("I", 0) & 4;
  string text = string(inc_d ? "#include \"d.h\"\n" : "\n") + (inc_f ? "#include \"f.h\"\n" : "\n") + "class X;\nint a;;\nclass X;\nint b;;\nclass X{};\nint c;" + (mode == INHIBIT ? "// IWYU pragma: no_forward_declare ::X\n" : "\n");
  int m = w_file("/w/m.cc", text);
  int d = w_file("/w/d.h", "class X;\n");
  int f = w_file("/w/f.h", string(nest ? "#include \"d.h\"\n" : "\n") + (mode == EXPORT ? "class X; // IWYU pragma: export\n" : "class X;\n"));
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  w_flags->no_fwd_decls = mode == NO_FWD;
  nested = mode == NESTED, local = mode == LOCAL, in_inline = mode == INLINE;
  DeclContext *scope = tu();
  string space = SPACES[vp_param("S", 0)];
  if (mode == STD || mode == SPACE) scope = decl<clang::NamespaceDecl>(Decl::Namespace, tu(), at(f, 1), space);
  bool see_d = (inc_d || (inc_f && nest)) && where == 1;
  // in the order of the translation unit
  vector<int> file, line;
  auto put = [&](int fl, int ln, bool complete) { klass(fl, ln, complete, scope); if (mode == MACRO && ln == 3) in_macro = all_decls->back(); file.push_back(fl); line.push_back(ln); };
  if (see_d) put(d, 1, true);
  if (inc_f) put(f, 2, false);
  if (own & 1) put(m, 3, false);
  if (own & 2) put(m, 5, false);
  if (where == 2) put(m, 7, true);
  auto *info = pi->FileInfoFor(w_ref(m));
  bool keep = false;
  for (size_t i = 0; i < file.size(); i++) if (file[i] == m && line[i] != 7) {
    bool k = line[i] == 3 && (keep = vp_sym_range("keep", 0, 1));
    info->AddForwardDeclare((*all_decls)[i], k);
  }
  struct U { bool full; int line, decl; } u[3];
  int n = vp_param("N", 1);
  int before[9] = {};                                  // how many declarations come before a line
  for (int l = 4; l <= 8; l++) for (size_t i = 0; i < file.size(); i++) before[l] += file[i] != m || line[i] < l;
  for (int i = 0; i < n; i++) {
    u[i].line = 4 + 2 * vp_sym_range("line", 0, 2);
    u[i].full = vp_sym_range("full", 0, 1);
    vp_assume(before[u[i].line] > 0);
    u[i].decl = vp_sym_range("decl", 0, 4);
    // Clang gives the definition, wherever it is, or a declaration that comes before
    vp_assume(u[i].decl < (int)file.size() && (u[i].decl < before[u[i].line] || (*all_decls)[u[i].decl] == dfn));
    if (mode == INLINE && dfn) vp_assume((*all_decls)[u[i].decl] == dfn);
    if (n > 1 && dfn) vp_assume((*all_decls)[u[i].decl] == dfn);
    // the same one each time; of several uses on one line only one is warned about
    if (i) vp_assume(u[i].decl == u[0].decl && u[i].line > u[i - 1].line);
    if (u[i].full) info->ReportFullSymbolUse(w_at(m, u[i].line), (*all_decls)[u[i].decl], UF_None, nullptr);
    else info->ReportForwardDeclareUse(w_at(m, u[i].line), (*all_decls)[u[i].decl], UF_None, nullptr);
  }
  bool use_d = (inc_d || (inc_f && nest)) && vp_sym_range("used", 0, 1), use_f = inc_f && vp_sym_range("used", 0, 1);
  if (use_d) info->ReportFullSymbolUse(w_at(m, 8), w_ref(d), "D");
  if (use_f) info->ReportFullSymbolUse(w_at(m, 8), w_ref(f), "F");
  pi->HandlePreprocessingDone();
  w_err->clear();
  info->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  // what is demanded
  bool want_d = use_d, want_f = use_f, only_decl[3] = {}, demand[3][2] = {};
  for (int i = 0; i < n; i++) {
    int file_of = file[u[i].decl];
    if (!u[i].full && ((mode == NESTED && file_of != m) || mode == LOCAL)) continue;
    if (u[i].full && mode == LOCAL) continue;
    if (where == 2 && u[i].line > 7) continue;         // its own file defines it before
    bool full = u[i].full;
    if (full) file_of = see_d ? d : where == 2 ? m : file_of;
    else if (mode == INLINE || mode == STD || mode == INHIBIT) full = true;
    else if (mode == EXPORT && inc_f) { full = true; file_of = f; }
    else if (mode == NO_FWD) {                         // the last declaration in a header, up to the one meant
      int k = u[i].decl;
      while (k >= 0 && file[k] == m) k--;
      if (k >= 0) { full = true; file_of = file[k]; }
    }
    // no include can bring a definition that only follows in the file itself
    if (full && file_of == m && where == 2 && (u[i].full || line[u[i].decl] > u[i].line) && mode != INLINE) { only_decl[i] = mode != INHIBIT; continue; }
    if (full) { demand[i][0] = file_of == d; demand[i][1] = file_of == f; want_d |= file_of == d; want_f |= file_of == f; }
    else only_decl[i] = true;
  }
  bool want3 = keep || (mode == MACRO && (own & 1)), want5 = false, extra = false;
  int warn = (use_d && !inc_d) + (use_f && !inc_f);
  for (int i = 0; i < n; i++) {
    warn += (demand[i][0] && !inc_d) + (demand[i][1] && !inc_f);
    if (!only_decl[i]) continue;
    bool has3 = own & 1, has5 = (own & 2) && u[i].line > 5;
    if (!(see_d && want_d)) { if (has3) want3 = true; else if (has5) want5 = true; else extra = true; }
    if (!(see_d && inc_d) && !has3 && !has5) warn++;
  }
  WReport r = w_report(*w_err, "/w/m.cc");
  string fd = mode == STD || mode == SPACE ? "namespace " + space + " { class X; }" : "class X;";
  vector<string> want, add, remove;
  auto line_of = [&](const string &l, bool present, bool wanted, int ln) {
    if (wanted) want.push_back(l);
    if (wanted && !present) add.push_back(l);
    if (!wanted && present) remove.push_back("- " + l);
  };
  line_of("#include \"d.h\"", inc_d, want_d, 1);
  line_of("#include \"f.h\"", inc_f, want_f, 2);
  line_of(fd, own & 1, want3, 3);
  line_of(fd, own & 2, want5, 5);
  if (extra) line_of(fd, false, true, 0);
  for (auto *v : {&want, &add, &remove, &r.full, &r.add, &r.remove}) std::sort(v->begin(), v->end());
  vp_assert(r.full == want, "a forward declaration is wanted exactly when a use needs no more and no include that is wanted defines it");
  vp_assert(r.add == add, "what is wanted and not there is added");
  vp_assert(r.remove == remove, "what is there and not wanted is removed");
  int got = 0;
  for (size_t i = w_err->find(": warning: "); i != string::npos; i = w_err->find(": warning: ", i + 1)) got++;
  vp_assert(got == warn, "a use is a violation exactly when nothing the file has declares or defines what it needs");
  vp_cover(extra ? "added" : want3 || want5 ? "kept" : remove.size() ? "removed" : "none");
}
// A file and its associated header, which declares X itself.
// m.h: 1 #include "d.h", 2 class X;, 3 use.   m.cc: 1 #include "m.h", 2 #include "d.h", 3 class X;, 4 use.
extern "C" void h_assoc() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  SetVerboseLevel(3);
  AddGlobToReportIWYUViolationsFor("/w/m.h");
  all_decls = new vector<NamedDecl *>;
  bool in_h = vp_param("I", 0) & 1, in_m = vp_param("I", 0) & 2, own = vp_param("O", 0), decl_h = vp_param("H", 1);
  int m = w_file("/w/m.cc", string("#include \"m.h\"\n") + (in_m ? "#include \"d.h\"\n" : "\n") + "class X;\nint a;\n");
  int h = w_file("/w/m.h", string(in_h ? "#include \"d.h\"\n" : "\n") + "class X;\nint b;\n");
  int d = w_file("/w/d.h", "class X;\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  auto *mi = pi->FileInfoFor(w_ref(m)), *hi = pi->FileInfoFor(w_ref(h));
  clang::CXXRecordDecl *dh = nullptr, *dm = nullptr;
  bool see = in_h || in_m, keep = false;
  if (in_h) klass(d, 1, true);
  if (decl_h) { dh = klass(h, 2, false); hi->AddForwardDeclare(dh, keep = vp_sym_range("keep", 0, 1)); }
  if (in_m && !in_h) klass(d, 1, true);
  if (own) { dm = klass(m, 3, false); mi->AddForwardDeclare(dm, false); }
  bool h_use = (in_h || decl_h) && vp_sym_range("huse", 0, 1), h_full = in_h && vp_sym_range("hfull", 0, 1);
  if (h_use) hi->ReportForwardDeclareUse(w_at(h, 3), (*all_decls)[0], UF_None, nullptr);
  if (h_full) hi->ReportFullSymbolUse(w_at(h, 3), (*all_decls)[0], UF_None, nullptr);
  bool m_use = all_decls->size() && vp_sym_range("muse", 0, 1), m_full = see && vp_sym_range("mfull", 0, 1);
  int k = 0;
  if (m_use) { k = vp_sym_range("decl", 0, 2); vp_assume(k < (int)all_decls->size()); }
  if (m_use) mi->ReportForwardDeclareUse(w_at(m, 4), (*all_decls)[k], UF_None, nullptr);
  if (m_full) mi->ReportFullSymbolUse(w_at(m, 4), (*all_decls)[0], UF_None, nullptr);
  pi->HandlePreprocessingDone();
  w_err->clear();
  hi->CalculateAndReportIwyuViolations();
  vp_out("head", *w_err);
  WReport r = w_report(*w_err, "/w/m.h");
  vector<string> want;
  if (h_full) want.push_back("#include \"d.h\"");
  bool x_in_h = decl_h && (keep || (h_use && !h_full));
  bool h_extra = h_use && !h_full && !decl_h;
  if (x_in_h || h_extra) want.push_back("class X;");
  std::sort(r.full.begin(), r.full.end());
  vp_assert(r.full == want, "the associated header keeps what it uses itself");
  w_err->clear();
  mi->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  r = w_report(*w_err, "/w/m.cc");
  want.clear();
  bool d_here = m_full && (in_m || !h_full), has_x = m_full || h_full;
  if (d_here) want.push_back("#include \"d.h\"");
  want.push_back("#include \"m.h\"");
  std::sort(r.full.begin(), r.full.end());
  bool listed = !r.full.empty() && r.full.back() == "#include \"m.h\"" ? false : true;
  if (listed && !r.full.empty()) r.full.pop_back();
  vp_assert(r.full == want, "the includes of a file with an associated header are right");
  if (m_use && !has_x && !own && decl_h && !x_in_h) vp_assert(listed, "a forward declaration that the associated header drops is not relied on");
  else vp_assert(listed == (m_use && !has_x && (own || !decl_h)), "a file with an associated header declares what it needs and gets nowhere else");
  vp_cover(listed ? "declared" : "provided");
}
// The printed declaration, read back.
static string *underlying;                         // what Clang prints for the underlying type
string clang::QualType::getAsString(const clang::PrintingPolicy &) const { return *underlying; }
extern "C" void h_print() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  all_decls = new vector<NamedDecl *>;
  w_flags->cxx17ns = vp_sym_range("cxx17", 0, 1);
  int m = w_file("/w/m.cc", "#include \"f.h\"\nint a;\n");
  int f = w_file("/w/f.h", "class X;\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  DeclContext *scope = tu();
  vector<string> spaces;
  bool anon = false;
  for (int i = 0; i < vp_param("N", 2); i++) {
    string n;
    if (vp_param("A", 0) >> i & 1) anon = true;
    else { n = string(1, vp_sym_range("space", 'a', 'z')); if (vp_sym_range("long", 0, 1)) n += vp_sym_range("space", '0', 'z'); }
    scope = decl<clang::NamespaceDecl>(Decl::Namespace, scope, at(f, 1), n);
    spaces.push_back(n);
  }
  for (auto &n : spaces) for (char c : n) vp_assume((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_');
  string x(1, vp_sym_range("name", 'A', 'Z'));
  static const char *kinds[] = {"struct", "", "union", "class", "enum", "enum class", "enum struct"};   // first the order of TagTypeKind
  int kind = vp_sym_range("kind", 0, 2);
  clang::TagDecl *d;
  string type;
  if (vp_param("E", 0)) {
    auto *e = decl<clang::EnumDecl>(Decl::Enum, scope, at(f, 1), x);
    e->EnumDeclBits.IsScoped = kind > 0;
    e->EnumDeclBits.IsScopedUsingClassTag = kind == 1;
    e->TagDeclBits.TagDeclKind = llvm::to_underlying(clang::TagTypeKind::Enum);
    kind += 4;
    if (vp_sym_range("typed", 0, 1)) {                 // an unscoped one without a type cannot be declared, but Clang's extensions let it
      type = vp_choose("type", 0, 1) ? "int" : "unsigned a::b";
      e->IntegerType = (clang::TypeSourceInfo *)calloc(1, sizeof(clang::TypeSourceInfo));
    }
    underlying = new string(type);
    all_decls->push_back(e);
    d = e;
  } else {
    d = klass(f, 1, false, scope, x);
    kind = kind == 0 ? 0 : kind == 1 ? 2 : 3;
    d->TagDeclBits.TagDeclKind = kind;
  }
  pi->FileInfoFor(w_ref(m))->ReportForwardDeclareUse(w_at(m, 2), d, UF_None, nullptr);
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  WReport r = w_report(*w_err, "/w/m.cc");
  vp_out("rep", *w_err);
  vp_assert(r.add.size() == 1, "one declaration is added");
  if (r.add.size() != 1) return;
  // read it as C++ would
  string l = r.add[0], got_kind, got_name;
  size_t i = 0;
  vector<string> got;
  int open = 0, heads = 0;
  auto blank = [&] { while (i < l.size() && l[i] == ' ') i++; };
  auto word = [&] { size_t b = i; while (i < l.size() && (l[i] == '_' || (l[i] >= '0' && l[i] <= '9') || (l[i] >= 'A' && l[i] <= 'Z') || (l[i] >= 'a' && l[i] <= 'z'))) i++; string w = l.substr(b, i - b); blank(); return w; };
  bool ok = true;
  for (;;) {
    string w = word();
    if (w != "namespace") {
      got_kind = w;
      if (w == "enum" && (l.compare(i, 6, "class ") == 0 || l.compare(i, 7, "struct ") == 0)) got_kind += " " + word();
      break;
    }
    heads++;
    got.push_back(word());
    while (l.compare(i, 2, "::") == 0) { i += 2; got.push_back(word()); ok = ok && w_flags->cxx17ns; }
    ok = ok && i < l.size() && l[i] == '{';
    i++; open++;
    blank();
  }
  got_name = word();
  string got_type;
  if (vp_param("E", 0) && i < l.size() && l[i] == ':') { i++; blank(); size_t e = l.find(';', i); ok = ok && e != string::npos; got_type = l.substr(i, e - i); i = e; }
  ok = ok && i < l.size() && l[i] == ';';
  i++;
  blank();
  for (; i < l.size() && l[i] == '}'; open--) { i++; blank(); }
  vp_assert(ok && open == 0 && i == l.size(), "a printed declaration is well formed");
  vp_assert(got == spaces, "a printed declaration stands in the namespaces of the entity");
  vp_assert(got_kind == kinds[kind] && got_name == x, "a printed declaration has the kind and the name of the entity");
  vp_assert(got_type == type, "a printed enumeration has the underlying type that it is declared with");
  if (type.size()) vp_cover("enum with a type");
  if (w_flags->cxx17ns && !anon && spaces.size()) vp_assert(heads == 1, "nested namespaces are written in one when asked for");
  vp_cover(heads > 1 ? "nested" : heads ? "flat" : "global");
}
// A class template, as Clang prints it, with a default argument of any well-formed text.
extern "C" void h_template() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  all_decls = new vector<NamedDecl *>;
  int m = w_file("/w/m.cc", "#include \"f.h\"\nint a;\n");
  int f = w_file("/w/f.h", "class X;\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  string arg = vp_strn("arg", vp_param("N", 3), " :{}<>()=a");
  // brackets match, and a comparison stands in parentheses
  string open;
  bool ok = true, comparison = false;
  for (size_t i = 0; i < arg.size(); i++) {
    char c = arg[i];
    bool in = open.find_first_not_of('<') != string::npos;
    if (c == '(' || c == '{' || (c == '<' && !in)) open += c;
    else if (c == ')' || c == '}' || (c == '>' && !in)) { ok = ok && !open.empty() && open.back() == (c == ')' ? '(' : c == '}' ? '{' : '<'); if (!ok) break; open.pop_back(); }
    else comparison |= c == '<' || c == '>';
  }
  vp_assume(ok && open.empty() && (arg.empty() || (arg[0] != ' ' && arg.back() != ' ')));
  string kind = vp_param("K", 0) & 1 ? "struct" : "class", head = "template <" + string(vp_param("K", 0) & 2 ? "template <typename> " : "") + "class T = " + arg + "> " + kind;
  static const char *tails[] = {"", " {\n}", " : public B {\n    int x;\n}", " final {\n}", " final : B<T> {\n}"};
  printed = new string(head + " X" + tails[vp_sym_range("tail", 0, 4)]);
  auto *c = klass(f, 1, false);
  auto *t = (clang::ClassTemplateDecl *)calloc(1, BLOCK);
  ::new (t) WDecl(Decl::ClassTemplate, tu(), at(f, 1), name("X"));
  *(SourceRange *)((char *)t + BLOCK - sizeof(SourceRange)) = at(f, 1);
  t->TemplatedDecl = c;
  pi->FileInfoFor(w_ref(m))->ReportForwardDeclareUse(w_at(m, 2), t, UF_None, nullptr);
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  WReport r = w_report(*w_err, "/w/m.cc");
  vp_out("rep", *w_err);
  vp_assert(r.add.size() == 1, "the template is declared");
  if (r.add.size() == 1) vp_assert(r.add[0] == head + " X;", "a printed template has its parameters, with their default arguments, its kind and its name");
  vp_cover("template");
}
