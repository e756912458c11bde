// Directives that inhibit or protect something, and the files a run is about.
#include <algorithm>
#include "clang/AST/Decl.h"
#include "world.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector;
#if VP_SYMBOLIC
bool clang::Decl::StatisticsEnabled = false;
unsigned clang::Decl::getIdentifierNamespaceForKind(Kind) { return 0; }
#endif
struct WDecl : clang::NamedDecl {
  SourceRange r;
  WDecl(SourceRange r) : NamedDecl(clang::Decl::CXXRecord, nullptr, r.getBegin(), clang::DeclarationName()), r(r) {}
  SourceRange getSourceRange() const override { return r; }
};
static string q(char c) { return string("\"") + c + ".h\""; }
// no_include: which lists it changes.
extern "C" void h_include() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  bool assoc = vp_param("B", 0);                        // the header is the main file's own
  string hn = assoc ? "m.h" : "h.h";
  AddGlobToReportIWYUViolationsFor("/w/h.h");
  char named = vp_sym_range("named", 'a', 'e'), where = vp_sym_range("where", 0, 1);     // in the header or in the main file
  string dir = string("// IWYU pragma: no_include ") + (vp_param("A", 0) ? string("<") + named + ".h>" : q(named)) + "\n";
  char have = vp_sym_range("have", 'a', 'd');                                            // included by both
  bool keep = vp_sym_range("keep", 0, 1);
  string inc = "#include " + q(have) + (keep ? " // IWYU pragma: keep\n" : "\n");
  int m = w_file("/w/m.cc", "#include \"" + hn + "\"\n" + string(where ? dir : "") + inc + "int u;\n");
  int h = w_file("/w/" + hn, string(where ? "" : dir) + inc + "int v;\n");
  int f[4];
  for (int i = 0; i < 4; i++) f[i] = w_file(string("/w/") + char('a' + i) + ".h", "");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  bool used[4];
  for (int i = 0; i < 2; i++) if ((used[i] = vp_sym_range("used", 0, 1)))
    for (int g : {m, h}) pi->FileInfoFor(w_ref(g))->ReportFullSymbolUse(w_at(g, 3), w_ref(f[i]), "S");
  pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, 3), w_ref(h), "H");
  pi->HandlePreprocessingDone();
  for (int g : {h, m}) {
    w_err->clear();
    pi->FileInfoFor(w_ref(g))->CalculateAndReportIwyuViolations();
    vp_out("rep", *w_err);
    WReport r = w_report(*w_err, (*w_files)[g].path);
    std::sort(r.full.begin(), r.full.end());
    vector<string> want;
    bool here = (g == m) == where && !vp_param("A", 0);
    for (char c = 'a'; c <= 'd'; c++) {
      bool desired = (c - 'a' < 2 && used[c - 'a']) || (keep && c == have);
      if (desired && !(here && c == named)) want.push_back("#include " + q(c));
      bool present = c == have;
      bool removed = false, added = std::find(r.add.begin(), r.add.end(), "#include " + q(c)) != r.add.end();
      for (auto &l : r.remove) removed |= l.find(q(c)) != string::npos;
      if (here && c == named) vp_assert(!added && removed == present, "an inhibited include is not proposed, and removed where it is");
      vp_assert(pi->IncludeIsInhibited(w_ref(g), q(c)) == (here && c == named), "an include is inhibited exactly where a directive names it");
    }
    if (g == m) want.push_back("#include \"" + hn + "\"");
    std::sort(want.begin(), want.end());
    // what its own header has the main file need not include
    if (!assoc || g == h) vp_assert(r.full == want, "an inhibition changes nothing but the include named");
    vp_cover(here ? named == have ? "present" : "absent" : "elsewhere");
  }
}
// no_forward_declare: how names are compared.
extern "C" void h_names() {
  w_init();
  static const string anon = "(anonymous namespace)::";
  auto part = [&](const char *n, string *plain) {
    string s(1, vp_sym_range(n, 'A', 'C'));
    *plain += s;
    return s;
  };
  string np, qp, named, query;
  int parts = vp_param("P", 2);
  if (vp_sym_range("lead", 0, 1)) named = "::";
  for (int i = 0; i < parts; i++) { if (i) named += "::", np += "::"; named += part("named", &np); }
  if (vp_sym_range("lead2", 0, 1)) query = "::";
  int parts2 = vp_param("P2", 2);
  for (int i = 0; i < parts2; i++) {
    if (i) query += "::", qp += "::";
    for (int k = 0, n = vp_sym_range("anon", 0, 2); k < n; k++) query += anon;
    query += part("query", &qp);
  }
  bool two = vp_sym_range("two", 0, 1);            // a second directive for another name
  int m = w_file("/w/m.cc", "// IWYU pragma: no_forward_declare " + named + "\n" + (two ? "// IWYU pragma: no_forward_declare Z\n" : "") + "#include \"h.h\"\n");
  int h = w_file("/w/h.h", "");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  pi->HandlePreprocessingDone();
  vp_assert(pi->ForwardDeclareIsInhibited(w_ref(m), query) == (np == qp), "a forward declaration is inhibited exactly when a directive names it");
  vp_assert(!pi->ForwardDeclareIsInhibited(w_ref(h), query), "an inhibition concerns only the file it stands in");
  vp_assert(pi->ForwardDeclareIsInhibited(w_ref(m), "Z") == two, "several directives add up");
  vp_cover(np == qp ? "same" : "other");
}
// Forward declarations in regions and with directives of their own.
extern "C" void h_decl() {
  int N = vp_param("N", 4);
  w_init();
  static const char *dirs[] = {"// IWYU pragma: begin_keep", "// IWYU pragma: end_keep", "// IWYU pragma: begin_exports", "// IWYU pragma: end_exports"};
  static const char *decls[] = {"class X;", "class X; // IWYU pragma: keep", "class X; /* IWYU pragma: export */", "class // IWYU pragma: keep\nX;"};
  struct D { int b, e, kind; bool misspelt; int region; };
  vector<D> ds;
  string text;
  int open = 0;                                    // 1: keep region, 2: export region
  vector<int> pending;
  for (int i = 0; i < N; i++) {
    int k = i == 0 && vp_param("F", 9) < 9 ? vp_param("F", 0) : vp_choose("line", 0, 5);
    if (k < 4) {
      string d = dirs[k];
      char x = vp_sym_range("end", 'o', 't');
      bool ok = x == d.back();
      d.back() = x;
      text += d + "\n";
      if (open && ok && k == open * 2 - 1) { for (int j : pending) ds[j].region = open; pending.clear(); open = 0; }
      else if (!open && ok && (k == 0 || k == 2)) open = k / 2 + 1;
    } else {
      int v = k == 4 ? vp_param("V", 1) : 0;
      D d; d.kind = v; d.region = 0; d.misspelt = false;
      string t = decls[v];
      if (v == 1 || v == 2) { char x = vp_sym_range("kind", 'd', 'f'); size_t at = t.find(v == 1 ? "eep" : "expo"); d.misspelt = x != 'e'; t[at] = x; }
      d.b = text.size(); d.e = text.size() + t.find('X');
      text += t + "\n";
      if (open) pending.push_back(ds.size());
      ds.push_back(d);
    }
  }
  vp_assume(!ds.empty());
  int twice = vp_param("W", 0);                    // the file is read a second time
  string pre = "#include \"h.h\"\n#include \"h.h\"\n";
  int m = w_file("/w/m.cc", pre), h = w_file("/w/h.h", text);
  w_main = m;
  w_guards = !twice;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  pi->HandlePreprocessingDone();
  for (auto &d : ds)
    for (size_t id = 1; id < w_entries->size(); id++) {
      if ((*w_entries)[id].file != h) continue;
      WDecl *decl = ::new (calloc(1, sizeof(WDecl))) WDecl(SourceRange(w_loc(id, d.b), w_loc(id, d.e)));
      bool keep = d.region == 1 || (d.kind == 1 && !d.misspelt), exp = d.region == 2 || (d.kind == 2 && !d.misspelt);
      vp_assert(pi->ForwardDeclareIsMarkedKeep(decl) == keep, "a forward declaration is kept exactly when its line or region says so");
      vp_assert(pi->ForwardDeclareIsExported(decl) == exp, "a forward declaration is exported exactly when its line or region says so");
      vp_cover(keep ? "kept" : exp ? "exported" : "neither");
    }
}
// Which files are reported on.
extern "C" void h_owner() {
  w_init();
  int P = vp_param("P", 0);
  w_flags->pch_in_code = P;
  // the stems of the files are symbolic; the main file is s/?<suffix>.cc
  static const char *suffix[] = {"", "_test", "-inl"};
  auto sfx = [&](const char *n) { return string(suffix[vp_choose(n, 0, 2)]); };
  auto stem = [&](const char *n) { return string(1, vp_sym_range(n, 'a', 'b')); };
  string ms = stem("main") + sfx("msuffix");
  struct F { string dir, stem; bool sys; int depth; };
  vector<F> fs;
  static const char *dirs[] = {"s/", "p/", ""};
  int N = vp_param("N", 2);
  for (int i = 0; i < N; i++) {
    F f;
    f.dir = dirs[i == 0 ? vp_param("D", 0) : vp_choose("dir", 0, 2)];
    f.stem = stem("stem") + (i == 0 ? sfx("suffix") : "");
    f.sys = vp_sym_range("sys", 0, 1);
    for (auto &o : fs) vp_assume(o.dir + o.stem != f.dir + f.stem);
    fs.push_back(f);
  }
  bool nested = vp_param("X", 0);                  // the last header is included by the one before it
  char glob = vp_sym_range("glob", 'a', 'd');     // --check_also=/w/p/?.h
  bool star = vp_param("S", 0);
  AddGlobToReportIWYUViolationsFor(star ? "/w/p/*.h" : string("/w/p/") + glob + ".h");
  string text, inner;
  for (int i = 0; i < N; i++) (nested && i == N - 1 ? inner : text) += "#include \"" + fs[i].dir + fs[i].stem + ".h\"\n";
  int m = w_file("/w/s/" + ms + ".cc", text);
  int id[4];
  for (int i = 0; i < N; i++) id[i] = w_file("/w/" + fs[i].dir + fs[i].stem + ".h", nested && i == N - 2 ? inner : "", fs[i].sys);
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  pi->HandlePreprocessingDone();
  auto canon = [](string s) {                      // without -inl and _test endings (C02)
    for (const char *e : {"-inl", "_test"}) { size_t n = strlen(e); if (s.size() > n && s.compare(s.size() - n, n, e) == 0) { s.resize(s.size() - n); break; } }
    return s;
  };
  const set<OptionalFileEntryRef> *report = pi->files_to_report_iwyu_violations_for();
  vp_assert(report->count(w_ref(m)), "the main file is reported on");
  for (int i = 0; i < N; i++) {
    bool direct = !(nested && i == N - 1);
    bool same = canon(fs[i].stem) == canon(ms);
    bool mine = !fs[i].sys && same && (fs[i].dir == "s/" || (direct && i == (P ? 1 : 0)));
    bool also = fs[i].dir == "p/" && (star || fs[i].stem == string(1, glob));
    vp_assert(ShouldReportIWYUViolationsFor(w_ref(id[i])) == (mine || also), "a header is reported on exactly when it belongs to the main file or is asked for");
    vp_assert(report->count(w_ref(id[i])) == (mine || also), "the files to report are those");
    vp_cover(mine ? "mine" : also ? "also" : "foreign");
  }
}
