// Directives in comments: which comments are directives, and what each does.
#include <algorithm>
#include "world.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector;
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool quoted(const string &s) { return s.size() > 1 && ((s[0] == '<' && s.back() == '>') || (s[0] == '"' && s.back() == '"')); }
// The words of a directive: separated by blanks, except inside quotes that open a word.
static vector<string> words(const string &s) {
  vector<string> r;
  size_t i = 0;
  while (i < s.size()) {
    if (blank(s[i])) { i++; continue; }
    size_t b = i;
    char close = s[i] == '"' ? '"' : s[i] == '<' ? '>' : 0;
    for (i++; i < s.size() && (close || !blank(s[i])); i++) if (close && s[i] == close) close = 0;
    r.push_back(s.substr(b, i - b));
  }
  return r;
}
enum Kind { NONE, BAD, KEEP, EXPORT, BEGIN_KEEP, END_KEEP, BEGIN_EXPORTS, END_EXPORTS, PRIVATE, PRIVATE_FOR, NO_INCLUDE, NO_FWD, FRIEND, ASSOCIATED, ALWAYS };
struct Dir { Kind k; string arg; };
static Dir parse(const string &comment) {
  static const string p1 = "// IWYU pragma: ", p2 = "/* IWYU pragma: ";
  if (comment.compare(0, p1.size(), p1) != 0 && comment.compare(0, p2.size(), p2) != 0) return {NONE, ""};
  vector<string> w = words(comment.substr(p1.size()));
  if (w.empty()) return {BAD, ""};
  auto is = [&](const char *n, size_t k) { return w.size() >= k && w[0] == n; };
  if (is("keep", 1)) return {KEEP, ""};
  if (is("export", 1)) return {EXPORT, ""};
  if (is("begin_keep", 1)) return {BEGIN_KEEP, ""};
  if (is("end_keep", 1)) return {END_KEEP, ""};
  if (is("begin_exports", 1)) return {BEGIN_EXPORTS, ""};
  if (is("end_exports", 1)) return {END_EXPORTS, ""};
  if (is("private,", 3) && w[1] == "include") { if (quoted(w[2])) return {PRIVATE_FOR, w[2]}; return {BAD, ""}; }
  if (is("private", 1)) return {PRIVATE, ""};
  if (is("no_include", 2)) { if (quoted(w[1])) return {NO_INCLUDE, w[1]}; return {BAD, ""}; }
  if (is("no_forward_declare", 2)) return {NO_FWD, w[1]};
  if (is("friend", 2)) return {FRIEND, w[1]};
  if (is("associated", 1)) return {ASSOCIATED, ""};
  if (is("always_keep", 1)) return {ALWAYS, ""};
  return {BAD, ""};
}
static string name_of(string s) { return s.compare(0, 2, "::") == 0 ? s.substr(2) : s; }
static int warnings(const string &err, const string &at = "") {
  int n = 0;
  string what = at + ": warning: ";
  for (size_t i = err.find(what); i != string::npos; i = err.find(what, i + 1)) n++;
  return n;
}
static const char *directives[] = {"keep", "export", "begin_keep", "end_keep", "begin_exports", "end_exports", "private", "private, include \"x.h\"",
  "no_include \"a.h\"", "no_forward_declare N::S", "friend m.cc", "associated", "always_keep"};
// One comment at the head of a header; where it deviates from a directive, the deviation is symbolic.
extern "C" void h_text() {
  int T = vp_param("T", 0), mode = vp_param("M", 0), style = vp_param("C", 0);
  w_init();
  string body = directives[T], c = string(style ? "/*" : "//") + " IWYU pragma: " + body;
  int last = T == 10 ? c.find("m.cc") : c.size();        // a friend's pattern is the subject of C06 and C07
  auto any = [&](const char *n) { char x = vp_sym_range(n, 9, 126); vp_assume(x != '\n' && (x == '\t' || x >= ' ')); return x; };
  if (mode == 0) c[vp_choose("at", 2, last - 1)] = any("c");                               // replaced
  else if (mode == 1) c.insert(vp_choose("at", 2, last - (T == 10)), 1, any("c"));          // inserted
  else if (mode == 2) c.erase(vp_choose("at", 2, last - 1), 1);                             // left out
  else { c += any("c"); c += any("d"); }                                                   // more text behind it
  if (T == 10 && mode == 3) vp_assume(c[c.size() - 2] == ' ');
  string comment = c;
  if (style) comment += " */";
  bool used = vp_sym_range("used", 0, 1);
  w_flags->update_comments = w_flags->no_comments = true;
  AddGlobToReportIWYUViolationsFor("/w/h.h");
  int m = w_file("/w/m.cc", "#include \"h.h\"\nint u;\n");
  int h = w_file("/w/h.h", comment + "\n#include \"a.h\"\n#include \"b.h\"\n");
  int a = w_file("/w/a.h", ""); w_file("/w/b.h", "");
  w_main = m;
  Dir d = parse(comment);
  if (d.k == PRIVATE_FOR) vp_assume(d.arg != "\"x.c\"" && d.arg != "\"x.C\"");     // sources are never suggested (C14)
  if (d.k == FRIEND || d.k == NONE || d.k == BAD) {    // what only a friend may include
    MutableGlobalIncludePicker()->AddMapping("\"h.h\"", MappedInclude("\"pub.h\""));
    MutableGlobalIncludePicker()->MarkIncludeAsPrivate("\"h.h\"");
  }
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  if (used) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, 2), w_ref(h), "S");
  pi->HandlePreprocessingDone();
  vp_out("err", *w_err);
  bool open = d.k == BEGIN_KEEP || d.k == BEGIN_EXPORTS;
  bool badend = d.k == END_KEEP || d.k == END_EXPORTS;
  vp_assert(warnings(*w_err) == (d.k == BAD || open || badend), "a comment is warned about exactly when it is a malformed directive or leaves a region open");
  vp_assert(warnings(*w_err, "/w/h.h:1") == warnings(*w_err), "a warning names the line of the directive");
  if (d.k == ASSOCIATED) pi->FileInfoFor(w_ref(a))->CalculateAndReportIwyuViolations();
  w_err->clear();
  pi->FileInfoFor(w_ref(h))->CalculateAndReportIwyuViolations();
  vector<string> hf = w_report(*w_err, "/w/h.h").full, want;
  if (open) want = {"#include \"a.h\"", "#include \"b.h\""};
  if (d.k == ASSOCIATED) want = {"#include \"a.h\""};
  vp_assert(hf == want, "of the includes behind it, a directive keeps exactly those it speaks of");
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  vector<string> mf = w_report(*w_err, "/w/m.cc").full, mw;
  if (used) mw.push_back(d.k == PRIVATE_FOR ? "#include " + d.arg : d.k == NONE || d.k == BAD ? "#include \"pub.h\"" : "#include \"h.h\"");
  if (d.k == ALWAYS && mw.empty()) mw.push_back("#include \"h.h\"");
  vp_assert(mf == mw, "an includer is sent to another header exactly when the directive says so");
  vp_assert((w_err->find("No public header") != string::npos) == (used && (d.k == PRIVATE || (d.k == PRIVATE_FOR && d.arg == "\"h.h\""))), "a private header without a replacement is reported when it is used");
  vp_assert(pi->IncludeIsInhibited(w_ref(h), "\"a.h\"") == (d.k == NO_INCLUDE && d.arg == "\"a.h\""), "no include is inhibited but the one named");
  if (d.k == NO_INCLUDE) vp_assert(pi->IncludeIsInhibited(w_ref(h), d.arg) && !pi->IncludeIsInhibited(w_ref(m), d.arg), "an include is inhibited in the file that says so, and only there");
  vp_assert(pi->ForwardDeclareIsInhibited(w_ref(h), "N::S") == (d.k == NO_FWD && name_of(d.arg) == "N::S"), "no forward declaration is inhibited but the one named");
  if (d.k == NO_FWD && d.arg.find('(') == string::npos) vp_assert(pi->ForwardDeclareIsInhibited(w_ref(h), d.arg), "the forward declaration named is inhibited");
  vp_cover(d.k == NONE ? "none" : d.k == BAD ? "bad" : "directive");
}
// A file of includes and region directives; whether each directive is well-formed is symbolic.
extern "C" void h_region() {
  int N = vp_param("N", 4);
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  bool inner = vp_param("I", 0);          // the regions stand in a header that the main file includes
  bool cmdkeep = vp_param("K", 0) && vp_sym_range("cmdkeep", 0, 1);
  if (cmdkeep) AddGlobToKeepIncludes("/w/a.h");
  static const char *kinds[] = {"begin_keep", "end_keep", "begin_exports", "end_exports", "associated"};
  string text;
  vector<int> kind; vector<bool> ok; vector<char> inc;
  string order;
  for (int i = 0; i < N; i++) {
    int k = i == 0 && vp_param("F", 9) < 9 ? vp_param("F", 0) : vp_choose("kind", 0, 4);
    kind.push_back(k);
    if (k == 4) {
      text += string("#include \"") + char('a' + inc.size()) + ".h\"\n";
      inc.push_back(i); ok.push_back(true);
      continue;
    }
    string d = kinds[k];
    char x = vp_sym_range("end", 'o', 't');
    d.back() = x;
    ok.push_back(x == (k < 2 ? 'p' : 's'));
    text += "// IWYU pragma: " + d + "\n";
  }
  vp_assume(!inc.empty());
  int top = inner ? w_file("/w/m.cc", "// IWYU pragma: begin_keep\n#include \"h.h\"\n// IWYU pragma: end_keep\nint u;\n") : -1;
  int f = w_file(inner ? "/w/h.h" : "/w/m.cc", text + "int u;\n");
  w_main = inner ? top : f;
  string fname = (*w_files)[f].path;
  if (inner) AddGlobToReportIWYUViolationsFor("/w/h.h");
  int files[8];
  for (size_t i = 0; i < inc.size(); i++) files[i] = w_file(string("/w/") + char('a' + i) + ".h", "");
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, w_main);
  pi->HandlePreprocessingDone();
  vp_out("err", *w_err);
  // the reference: one region at a time; everything inside it but its end is refused
  set<string> kept; vector<int> warn;
  vector<bool> keeps, exports;
  int open = 0, from = 0;
  for (int i = 0; i < N; i++) {
    int k = kind[i];
    if (k == 4) { keeps.push_back(open == 1); exports.push_back(open == 2); continue; }
    if (open == 1 && k == 1 && ok[i]) { open = 0; continue; }
    if (open == 2 && k == 3 && ok[i]) { open = 0; continue; }
    if (open || !ok[i] || k == 1 || k == 3) { warn.push_back(i + 1); continue; }
    open = k == 0 ? 1 : 2; from = i;
  }
  if (open) warn.push_back(from + 1);
  vp_assert(warnings(*w_err) == (int)warn.size(), "unmatched, nested and open regions are warned about");
  for (int l : warn) vp_assert(warnings(*w_err, fname + ":" + char('0' + l)) == std::count(warn.begin(), warn.end(), l), "a warning names the line of the directive");
  w_err->clear();
  pi->FileInfoFor(w_ref(f))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  vector<string> want;
  for (size_t i = 0; i < inc.size(); i++) if (keeps[i] || exports[i] || (cmdkeep && i == 0)) want.push_back(string("#include \"") + char('a' + i) + ".h\"");
  vp_assert(w_report(*w_err, fname).full == want, "a region covers exactly the includes between its begin and its end");
  for (size_t i = 0; i < inc.size(); i++)
    vp_assert(GlobalIncludePicker().HasMapping((*w_files)[files[i]].path, fname) == exports[i], "exactly what is included in an export region is provided by the file");
  vp_cover(warn.empty() ? want.empty() ? "plain" : "region" : "refused");
  if (inner) {
    w_err->clear();
    pi->FileInfoFor(w_ref(top))->CalculateAndReportIwyuViolations();
    vp_assert(w_report(*w_err, "/w/m.cc").full == vector<string>{"#include \"h.h\""}, "a region in an included file does not end the one around the include");
  }
}
// Directives at the ends of include lines.
extern "C" void h_line() {
  int N = vp_param("N", 3);
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  static const char *dirs[] = {"", "// IWYU pragma: keep", "/* IWYU pragma: export */", "// IWYU pragma: associated"};
  bool cmdkeep = vp_sym_range("cmdkeep", 0, 1);
  string text;
  vector<int> kind;
  for (int i = 0; i < N; i++) {
    int k = i == 0 && vp_param("F", 9) < 9 ? vp_param("F", 0) : vp_choose("dir", 0, 3);
    string d = dirs[k];
    if (k) {
      char x = vp_sym_range("at", 'c', 'f');               // the directive may be misspelt
      size_t at = d.find(k == 1 ? "keep" : k == 2 ? "exp" : "ciated");
      if (k == 1) at++;
      char was = d[at];
      d[at] = x;
      if (x != was) k = 4;
    }
    kind.push_back(k);
    text += string("#include \"") + char('a' + i) + ".h\"  " + d + "\n";
  }
  bool stray = vp_sym_range("stray", 0, 1);               // a header read before with a directive that no include follows
  int m = w_file("/w/m.cc", string(stray ? "#include \"s.h\"\n" : "") + text + "int u;\n");
  w_main = m;
  int f[8];
  for (int i = 0; i < N; i++) f[i] = w_file(string("/w/") + char('a' + i) + ".h", "");
  if (stray) w_file("/w/s.h", "// IWYU pragma: associated\nint v;\n");
  if (cmdkeep) AddGlobToKeepIncludes("/w/a.h");
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  pi->HandlePreprocessingDone();
  vp_out("err", *w_err);
  vp_assert(warnings(*w_err) == std::count(kind.begin(), kind.end(), 4), "misspelt directives are warned about");
  for (int i = 0; i < N; i++) if (kind[i] == 3) pi->FileInfoFor(w_ref(f[i]))->CalculateAndReportIwyuViolations();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vector<string> got = w_report(*w_err, "/w/m.cc").full, want;
  vp_out("rep", *w_err);
  for (int i = 0; i < N; i++) if ((kind[i] > 0 && kind[i] < 4) || (cmdkeep && i == 0)) want.push_back(string("#include \"") + char('a' + i) + ".h\"");
  std::sort(got.begin(), got.end());
  vp_assert(got == want, "exactly the includes that carry a directive are kept");
  for (int i = 0; i < N; i++) {
    vp_assert(GlobalIncludePicker().HasMapping((*w_files)[f[i]].path, "/w/m.cc") == (kind[i] == 2), "exactly the includes marked so are exported");
    vp_assert(ShouldReportIWYUViolationsFor(w_ref(f[i])) == (kind[i] == 3), "exactly the includes marked so are associated");
  }
  vp_cover(want.empty() ? "plain" : "directive");
}
