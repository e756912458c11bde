// Which uses lead to a demand, which are violations, and what a prefix header changes.
#include <algorithm>
#include "world.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector;
static string q(const string &n) { return "\"" + n + "\""; }
static bool has(const vector<string> &v, const string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
// One use of a symbol, in a small graph of includes whose targets are symbolic.
extern "C" void h_use() {
  w_init();
  SetVerboseLevel(3);
  w_flags->update_comments = w_flags->no_comments = true;
  bool only = vp_sym_range("only", 0, 1);
  w_flags->transitive_includes_only = only;
  bool in_main = vp_param("U", 0), assoc = vp_param("A", 0), priv = vp_param("P", 0);
  // 0 m.cc, 1 a.h, 2 b.h, 3 c.h, 4 e.h (nothing inside), 5 z.h (never included), 6 s.cc (a source), 7 m.h
  const char *names[] = {"m.cc", "a.h", "b.h", "c.h", "e.h", "z.h", "s.cc", "m.h"};
  vector<vector<int>> inc(8);
  vector<string> text(8, "");
  auto edge = [&](int f) {
    int t = vp_sym_range("to", 'a', 'd') - 'a';       // a.h, b.h, c.h, e.h
    inc[f].push_back(1 + t);
    text[f] += string("#include \"") + (t == 3 ? 'e' : char('a' + t)) + ".h\"\n";
  };
  if (assoc) { inc[0].push_back(7); text[0] += "#include \"m.h\"\n"; edge(7); }
  edge(0); edge(1); edge(2);
  if (vp_sym_range("source", 0, 1)) { int f = in_main ? 0 : 1; inc[f].push_back(6); text[f] += "#include \"s.cc\"\n"; }
  for (int i = 0; i < 8; i++) w_file(string("/w/") + names[i], text[i] + "int v;\n");
  w_main = 0;
  AddGlobToReportIWYUViolationsFor("/w/a.h");
  if (priv) {                                        // b.h is private, and c.h stands before it
    MutableGlobalIncludePicker()->AddMapping("\"b.h\"", MappedInclude("\"c.h\""));
    MutableGlobalIncludePicker()->MarkIncludeAsPrivate("\"b.h\"");
  }
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, 0);
  bool reach[8][8] = {};
  for (int i = 0; i < 8; i++) { reach[i][i] = true; for (int j : inc[i]) reach[i][j] = true; }
  for (int k = 0; k < 8; k++) for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  int user = in_main ? 0 : 1;
  vp_assume(reach[0][user]);
  int def = vp_choose("defined", 0, 6);
  char sym = vp_sym_range("symbol", 'S', 'Z');
  pi->FileInfoFor(w_ref(user))->ReportFullSymbolUse(w_at(user, 1 + inc[user].size()), w_ref(def), string(1, sym));
  pi->HandlePreprocessingDone();
  if (assoc && in_main) pi->FileInfoFor(w_ref(7))->CalculateAndReportIwyuViolations();
  w_err->clear();
  pi->FileInfoFor(w_ref(user))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  bool seen = reach[0][def];
  bool dropped = def == user || (seen && reach[def][user]) || (only && !(seen && reach[user][def]));
  int from = priv && def == 2 ? 3 : def;
  bool present = std::count(inc[user].begin(), inc[user].end(), from);
  bool source = from == 0 || from == 6;
  bool demand = !dropped && from != user && !(source && !present);
  vector<string> want;
  if (demand) want.push_back("#include " + q(names[from]));
  auto add = [&](int f) { string l = "#include " + q(names[f]); if (std::count(inc[user].begin(), inc[user].end(), f) && !has(want, l)) want.push_back(l); };
  add(6);                                            // sources are left alone
  add(7);                                            // and so is the associated header
  if (priv && user == 3) add(2);
  vector<string> got = w_report(*w_err, (*w_files)[user].path).full;
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  vp_assert(got == want, "a use is demanded exactly unless its own file, a file that includes it back, or a source defines it");
  bool effective = present || (assoc && in_main && std::count(inc[7].begin(), inc[7].end(), from));
  string msg = (*w_files)[user].path + ":" + std::to_string(1 + inc[user].size()) + ": warning: " + sym + " is defined in " + q(names[from]);
  int n = 0;
  for (size_t i = w_err->find(": warning: "); i != string::npos; i = w_err->find(": warning: ", i + 1)) n++;
  vp_assert(n == (demand && !effective), "a use is a violation exactly when nothing directly included provides it");
  if (n) vp_assert(w_err->find(msg) != string::npos, "a violation names the place, the symbol and the header");
  vp_cover(demand ? effective ? "present" : "violation" : "dropped");
}
// Headers that come from the command line, or that the first include brings in precompiled.
extern "C" void h_prefix() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  int mode = vp_param("M", 0), pch = vp_param("P", 0);
  typedef CommandlineFlags CF;
  w_flags->prefix_header_include_policy = mode == 0 ? CF::kAdd : mode == 1 ? CF::kKeep : CF::kRemove;
  w_flags->pch_in_code = pch;
  // p.h comes first and includes q.h or a.h; a.h may include b.h; the main file includes some of them itself
  char under = vp_sym_range("under", 'a', 'c');
  char next = vp_sym_range("next", 'b', 'd');
  string text = pch ? "#include \"p.h\"\n" : "";
  vector<char> own;
  for (int i = 0; i < vp_param("N", 2); i++) {
    char c = vp_sym_range("own", 'a', 'd');
    for (char o : own) vp_assume(c != o);
    own.push_back(c);
    text += string("#include \"") + c + ".h\"\n";
  }
  int m = w_file("/w/m.cc", text + "int u;\n");
  bool sys = !pch && vp_sym_range("system", 0, 1);      // where the command-line header comes from
  int p = w_file(sys ? "/s/p.h" : "/w/p.h", string("#include \"") + under + ".h\"\n", sys);
  int f[4];
  for (int i = 0; i < 4; i++) f[i] = w_file(string("/w/") + char('a' + i) + ".h", i == 0 ? string("#include \"") + next + ".h\"\n" : "");
  w_main = m;
  if (!pch) { w_prefix = new vector<int>; w_prefix->push_back(p); }
  w_guards = vp_param("G", 1);
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  bool used[5];
  for (int i = 0; i < 4; i++) if ((used[i] = vp_sym_range("used", 0, 1))) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, 1 + own.size() + pch), w_ref(f[i]), "S");
  if ((used[4] = !pch && vp_sym_range("used", 0, 1))) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, 1 + own.size()), w_ref(p), "S");
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  vector<string> got = w_report(*w_err, "/w/m.cc").full, want;
  for (int i = 0; i < 5; i++) {
    char c = i < 4 ? 'a' + i : 'p';
    bool present = std::count(own.begin(), own.end(), c);
    bool prefixed = i == 4 || c == under || (under == 'a' && c == next);
    bool desired = used[i] && (!prefixed || mode == 0 || (mode == 1 && present));
    if (desired) want.push_back(i == 4 && sys ? "#include <p.h>" : string("#include \"") + c + ".h\"");
  }
  if (pch) want.push_back("#include \"p.h\"");       // it can never be removed
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  vp_assert(got == want, "what a prefix header brings in is added, kept or removed as the mode says");
  vp_cover(want.size() == 0 ? "none" : want.size() == 1 ? "one" : "more");
}
