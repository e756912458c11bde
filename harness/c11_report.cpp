// The report about one file: its lists, their order, and the comments on their lines.
#include <algorithm>
#include "world.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector;
static string strip(const string &l) { size_t i = l.find("  // for "); return i == string::npos ? l : l.substr(0, i); }
static bool has(const vector<string> &v, const string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static vector<string> sorted(vector<string> v) { std::sort(v.begin(), v.end()); return v; }
// C11: which lines are in which list.
extern "C" void h_lists() {
  int L = vp_param("L", 3), H = 3, verb = vp_param("V", 1);
  w_init();
  SetVerboseLevel(verb);
  bool upd = vp_sym_range("update", 0, 1);
  w_flags->update_comments = upd;
  char n[4];
  for (int i = 0; i < H; i++) { n[i] = vp_sym_range("name", 'a', 'e'); for (int j = 0; j < i; j++) vp_assume(n[i] != n[j]); }
  auto quoted = [&](int i) { return string("\"") + n[i] + ".h\""; };
  string text;
  int next = 0;
  vector<int> inc(L, -1); vector<bool> keep(L, false);
  for (int l = 0; l < L; l++) {
    // the first line always is an include; the headers are numbered in the order in which they appear
    int h = l == 0 ? 0 : l == 1 ? vp_param("S", 0) - 1 : vp_choose("line", 0, std::min(next + 1, H)) - 1;
    if (h == next) next++;
    if (h >= 0) {
      inc[l] = h;
      keep[l] = vp_sym_range("keep", 0, 1);
      text += "#include " + quoted(h) + (keep[l] ? " // IWYU pragma: keep" : "");
    }
    text += "\n";
  }
  text += "int x;\n";
  int m = w_file("/w/m.cc", text);
  int f[4];
  for (int i = 0; i < H; i++) f[i] = w_file(string("/w/") + n[i] + ".h", "");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  bool used[4];
  for (int i = 0; i < H; i++)
    if ((used[i] = vp_sym_range("used", 0, 1))) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, L + 1), w_ref(f[i]), "S");
  pi->HandlePreprocessingDone();
  w_err->clear();
  size_t edits = pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("err", *w_err);
  vp_out_u64("edits", edits);
  vector<string> add, remove, full;
  for (int i = 0; i < H; i++) {
    bool kept = false, first = true, present = false;
    for (int l = 0; l < L; l++) kept |= inc[l] == i && keep[l];
    for (int l = 0; l < L; l++) {
      if (inc[l] != i) continue;
      present = true;
      if (kept || (used[i] && first)) full.push_back("#include " + quoted(i));
      else remove.push_back("- #include " + quoted(i) + "  // lines " + char('1' + l) + "-" + char('1' + l));
      first = false;
    }
    if (used[i] && !present) { add.push_back("#include " + quoted(i)); full.push_back(add.back()); }
  }
  WReport r = w_report(*w_err, "/w/m.cc");
  vp_assert(r.found, "every file that is checked gets a report");
  vp_assert(r.correct == (add.empty() && remove.empty() && !upd), "a file is called correct exactly when nothing is to be added or removed");
  vp_assert(edits == add.size() + remove.size(), "the number of edits is that of the lines to add and to remove");
  vector<string> ga, gf;
  for (auto &l : r.add) ga.push_back(strip(l));
  for (auto &l : r.full) gf.push_back(strip(l));
  if (!r.correct) {
    if (verb >= 1) {
      vp_assert(sorted(ga) == sorted(add), "the add list is what is needed and not there");
      vp_assert(sorted(r.remove) == sorted(remove), "the remove list is what is there and not needed, with its line");
    } else {
      vp_assert(r.add.empty() && r.remove.empty(), "the lowest level prints only the full list");
    }
    vp_assert(sorted(gf) == sorted(full), "the full list is what is needed, once");
    vp_cover(remove.empty() ? add.empty() ? "same" : "add" : add.empty() ? "remove" : "both");
  } else {
    vp_cover("correct");
  }
}
// C12: the order of the lines.
struct Hdr { string written; int kind; int file; };
static int kind_of(const string &w, bool pch, bool assoc, bool qfirst) {
  bool angled = w[0] == '<';
  auto ends = [&](const string &e) { return w.size() >= e.size() && w.compare(w.size() - e.size(), e.size(), e) == 0; };
  if (pch) return 0;
  if (assoc) return ends("-inl.h\"") ? 2 : 1;
  if (qfirst && !angled) return 3;
  if (ends(".h>")) return 4;
  return angled ? 5 : 6;
}
extern "C" void h_order() {
  w_init();
  w_flags->no_comments = true; w_flags->update_comments = true;
  int N = vp_param("N", 3);
  bool qfirst = vp_param("Q", 0), pch = vp_param("P", 0);
  w_flags->quoted_includes_first = qfirst;
  w_flags->pch_in_code = pch;
  vector<Hdr> hs;
  string text, rest;
  static const char *forms[] = {"\"?.h\"", "<?.h>", "<?>", "\"m.h\"", "\"m-inl.h\"", "\"?-inl.h\"", "\"m/?\"", "\"a?inl.h\""};
  vector<bool> present, marked;
  if (pch) marked.push_back(false);
  if (pch) hs.push_back(Hdr{"\"zz.h\"", 0, -1}), present.push_back(true);
  for (int i = 0; i < N; i++) {
    int k = i == 0 && vp_param("F", 9) < 9 ? vp_param("F", 0) : vp_choose("form", 0, 7);
    string w = forms[k];
    size_t q = w.find('?');
    if (k == 7) w[q] = vp_sym_range("dash", ',', '/');
    else if (q != string::npos) w[q] = vp_sym_range("name", 'a', 'd');
    for (auto &h : hs) vp_assume(h.written != w);
    if (k == 7) vp_assume(w[q] != '.' && w[q] != '/');
    bool assoc = k == 3 || k == 4 || k == 7;
    marked.push_back(k == 7);
    hs.push_back(Hdr{w, kind_of(w, false, assoc, qfirst), -1});
    present.push_back(assoc || vp_sym_range("present", 0, 1));
  }
  // an associated header has the name of the main file; it is included directly
  for (size_t i = 0; i < hs.size(); i++) if (present[i]) text += "#include " + hs[i].written + (marked[i] ? " // IWYU pragma: associated\n" : "\n");
  int m = w_file("/w/m.cc", text + "int x;\n");
  w_main = m;
  for (auto &h : hs) h.file = w_file((h.written[0] == '<' ? "/s/" : "/w/") + h.written.substr(1, h.written.size() - 2), "", h.written[0] == '<');
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  int n = std::count(text.begin(), text.end(), '\n') + 1;
  for (size_t i = hs.size(); i-- > 0;) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, n), w_ref(hs[i].file), "S");
  pi->HandlePreprocessingDone();
  for (auto &h : hs) if (h.kind == 1 || h.kind == 2) pi->FileInfoFor(w_ref(h.file))->CalculateAndReportIwyuViolations();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("err", *w_err);
  WReport r = w_report(*w_err, "/w/m.cc");
  vector<std::pair<int, string>> full, add;
  for (size_t i = 0; i < hs.size(); i++) {
    full.push_back({hs[i].kind, "#include " + hs[i].written});
    if (!present[i]) add.push_back(full.back());
  }
  std::sort(full.begin(), full.end()); std::sort(add.begin(), add.end());
  vp_assert(full.size() == r.full.size() && add.size() == r.add.size(), "each include is listed once");
  for (size_t i = 0; i < r.full.size(); i++) vp_assert(r.full[i] == full[i].second, "the full list is sorted by kind, then by text");
  for (size_t i = 0; i < r.add.size(); i++) vp_assert(r.add[i] == add[i].second, "the add list is sorted by kind, then by text");
  for (auto &x : full) if (x.first == 2) vp_cover("inl");
  vp_cover("order");
}
// C12: comments.
static string cut(const string &s, size_t room) { return s.size() <= room ? s : room < 6 ? string() : s.substr(0, room - 3) + "..."; }
extern "C" void h_comment() {
  w_init();
  w_flags->update_comments = true;
  int verb = vp_param("V", 1), H = vp_param("H", 2), S = vp_param("S", 2);
  SetVerboseLevel(verb);
  int max = vp_sym_range("max", S > 3 ? 30 : 0, 60);
  w_flags->max_line_length = max;
  static const char *names[] = {"a.h", "longer.h"};
  static const int lens[] = {1, 5, 9, 14};
  string text;
  vector<string> hn; vector<vector<string>> sy(H); vector<vector<int>> ct(H);
  int m = -1; vector<int> f;
  bool there[2];
  for (int h = 0; h < H; h++) { there[h] = H == 1 || vp_sym_range("there", 0, 1); if (there[h]) text += string("#include \"") + names[h] + "\"\n"; }
  m = w_file("/w/m.cc", text + "int x;\n");
  w_main = m;
  for (int h = 0; h < H; h++) f.push_back(w_file(string("/w/") + names[h], ""));
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  int n = std::count(text.begin(), text.end(), '\n') + 1;
  for (int h = 0; h < H; h++) {
    int k = h == 0 ? S : 1;
    for (int s = 0; s < k; s++) {
      string name(lens[S > 3 ? 0 : vp_choose("len", 0, 3)], 'a' + h);
      name[0] = vp_sym_range("sym", 'P', 'P' + std::max(2, S - 1));
      for (auto &o : sy[h]) vp_assume(o != name);
      int c = 1 + (S > 3 && s ? 0 : vp_sym_range("twice", 0, 1));
      sy[h].push_back(name); ct[h].push_back(c);
      for (int i = 0; i < c; i++) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, n), w_ref(f[h]), name);
    }
  }
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("err", *w_err);
  WReport r = w_report(*w_err, "/w/m.cc");
  vp_assert(r.full.size() == (size_t)H, "every include is listed");
  size_t width = 0;
  for (int h = 0; h < H; h++) width = std::max(width, strlen(names[h]) + 11);
  for (int h = 0; h < H && h < (int)r.full.size(); h++) {
    string inc = string("#include \"") + names[h] + "\"", want = inc;
    // most used first, then by name
    vector<int> o(sy[h].size());
    for (size_t i = 0; i < o.size(); i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int a, int b) { return ct[h][a] != ct[h][b] ? ct[h][a] > ct[h][b] : sy[h][a] < sy[h][b]; });
    string lead = string(width - inc.size(), ' ') + "  // for ";
    size_t room = max > 0 ? max - 1 : 0;
    for (int i : o) {
      string s = sy[h][i];
      if (verb < 3) { size_t used = want.size() + lead.size(); s = cut(s, used < room ? room - used : 0); if (s.empty()) break; }
      want += lead + s; lead = ", ";
    }
    vp_assert(r.full[h] == want, "a comment names the symbols, most used first, as far as they fit");
    if (verb < 3) vp_assert(r.full[h] == inc || (int)r.full[h].size() < max, "a comment never makes a line longer than allowed");
    if (verb) vp_assert(there[h] == !has(r.add, want), "the line reads the same in every list");
    vp_cover(want == inc ? "bare" : want.find("...") != string::npos ? "cut" : "whole");
  }
}
