// Which headers are demanded for the uses in a file.
#include <algorithm>
#include "world.h"
using namespace include_what_you_use;
using std::map; using std::set; using std::string; using std::vector;
static string q(char c) { return string("\"") + c + ".h\""; }
typedef vector<char> L;
// The documented choice: candidates of each use, the file itself, what is included already, what the associated headers will have.
struct Ref {
  set<char> desired; vector<char> pick;
  Ref(const vector<L> &uses, char self, const set<char> &direct, const set<char> &assoc, const vector<char> &pinned) {
    pick.assign(uses.size(), 0);
    for (char c : pinned) desired.insert(c);
    for (size_t i = 0; i < uses.size(); i++)   // a header that re-exports what it includes keeps the include
      if (std::count(uses[i].begin(), uses[i].end(), self) && direct.count('0' + i)) desired.insert(pick[i] = '0' + i);
    for (size_t i = 0; i < uses.size(); i++) if (!pick[i] && uses[i].size() == 1) desired.insert(pick[i] = uses[i][0]);
    for (size_t i = 0; i < uses.size(); i++) {
      if (pick[i]) continue;
      auto first = [&](auto ok) { if (!pick[i]) for (char c : uses[i]) if (!pick[i] && ok(c)) pick[i] = c; };
      first([&](char c) { return c == self; });
      if (pick[i]) continue;
      first([&](char c) { return assoc.count(c); });
      first([&](char c) { return direct.count(c) && desired.count(c); });
      first([&](char c) { return desired.count(c); });
      first([&](char c) { return direct.count(c); });
      if (pick[i]) desired.insert(pick[i]);
    }
    for (;;) {
      char best = 0; int bn = 0, bf = 0;
      for (char c = 'a'; c <= 'z'; c++) {
        int n = 0, f = 0;
        for (size_t i = 0; i < uses.size(); i++) if (!pick[i]) { n += std::count(uses[i].begin(), uses[i].end(), c) > 0; f += uses[i][0] == c; }
        if (n > bn || (n == bn && f > bf)) { best = c; bn = n; bf = f; }
      }
      if (!bn) break;
      desired.insert(best);
      for (size_t i = 0; i < uses.size(); i++) if (!pick[i] && std::count(uses[i].begin(), uses[i].end(), best)) pick[i] = best;
    }
  }
};
static set<char> includes_of(const WReport &r, map<char, string> *why = nullptr) {
  set<char> s;
  for (string l : r.full) {
    size_t c = l.find(" // for ");
    string w = c == string::npos ? "" : l.substr(c + 8);
    l = l.substr(0, c);
    while (!l.empty() && l.back() == ' ') l.pop_back();
    bool priv = l.compare(0, 13, "#include \"/p/") == 0;
    vp_assert((priv && l.size() == 17) || (l.size() == 14 && l.compare(0, 10, "#include \"") == 0), "the full list consists of the demanded includes");
    if (why) (*why)[l[priv ? 13 : 10]] = w;
    vp_assert(s.insert(l[priv ? 13 : 10]).second, "no include is demanded twice");
  }
  return s;
}
static void run(bool assoc_mode) {
  int U = vp_param("U", 3), K = vp_param("K", 2), A = vp_param("A", 3);
  w_init();
  bool comments = vp_param("C", 0);
  w_flags->no_comments = !comments;
  w_flags->update_comments = true;     // always print the lists
  unsigned dmask = vp_param("D", 0);
  set<char> direct, assoc;
  string text;
  char self = assoc_mode ? 'm' : 'a' + A;
  for (int i = 0; i < A; i++) if (dmask >> i & 1) { direct.insert('a' + i); text += "#include " + q('a' + i) + "\n"; }
  if (!assoc_mode && vp_sym_range("own", 0, 1)) { direct.insert('0'); text += "#include \"/p/0.h\"\n"; }
  string mtext = (assoc_mode ? "#include \"m.h\"\n" : "") + text + "int u;\n";
  int lines = std::count(mtext.begin(), mtext.end(), '\n');
  int m = w_file(assoc_mode ? string("/w/m.cc") : string("/w/") + self + ".h", mtext);
  int h = assoc_mode ? w_file("/w/m.h", "int v;\n") : -1;
  int pub[8], priv[8];
  for (int i = 0; i < A; i++) pub[i] = w_file(string("/w/") + char('a' + i) + ".h", "");
  for (int i = 0; i < U; i++) priv[i] = w_file(string("/p/") + char('0' + i) + ".h", "");
  w_main = m;
  vector<L> uses;
  for (int i = 0; i < U; i++) {
    int n = 1; for (int k = 1; k < K; k++) n += vp_sym_range("more", 0, 1) && n == k;
    L l;
    for (int k = 0; k < n; k++) {
      char c = vp_sym_range("cand", 'a', 'a' + A - assoc_mode);   // symbolic: the code's own comparisons decide how the names relate
      vp_assume(std::find(l.begin(), l.end(), c) == l.end());
      l.push_back(c);
    }
    uses.push_back(l);
    string from = "\"/p/" + string(1, '0' + i) + ".h\"";
    for (char c : l) MutableGlobalIncludePicker()->AddMapping(from, MappedInclude(q(c)));
    MutableGlobalIncludePicker()->MarkIncludeAsPrivate(from);
  }
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  for (int i = 0; i < U; i++) pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, lines), w_ref(priv[i]), string("S") + char('0' + i));
  vector<char> pinned;
  if (assoc_mode) {
    pinned.push_back('m');
    unsigned am = vp_param("H", 0);
    for (int i = 0; i < A; i++) if (am >> i & 1) { assoc.insert('a' + i); pi->FileInfoFor(w_ref(h))->ReportFullSymbolUse(w_at(h, 1), w_ref(pub[i]), "T"); }
  }
  pi->HandlePreprocessingDone();
  if (assoc_mode) {
    pi->FileInfoFor(w_ref(h))->CalculateAndReportIwyuViolations();
    vp_assert(includes_of(w_report(*w_err, "/w/m.h")) == assoc, "a header that is used and has no alternative is demanded");
  }
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("err", *w_err);
  map<char, string> why;
  set<char> got = includes_of(w_report(*w_err, (*w_files)[m].path), &why);
  Ref ref(uses, self, direct, assoc, pinned);
  set<char> want;
  for (char c : pinned) want.insert(c);
  for (char c : ref.pick) if (c != self && (direct.count(c) || !assoc.count(c))) want.insert(c);
  for (size_t i = 0; i < uses.size(); i++) {
    bool ok = false;
    for (char c : uses[i]) ok |= c == self || got.count(c) || assoc.count(c);
    ok &= !(std::count(uses[i].begin(), uses[i].end(), self) && direct.count('0' + i)) || got.count('0' + i);
    vp_assert(ok, "every use is covered by an include that provides it");
  }
  for (char c : got) {
    bool need = c >= '0' && c <= '9' && direct.count(c) && std::count(uses[c - '0'].begin(), uses[c - '0'].end(), self);
    need |= std::find(pinned.begin(), pinned.end(), c) != pinned.end();
    for (auto &l : uses) need |= std::find(l.begin(), l.end(), c) != l.end();
    vp_assert(need, "no include is demanded that no use needs");
  }
  vp_assert(got == want, "among several providers the documented preference decides");
  if (comments) for (char c : got) {
    string names;
    for (size_t i = 0; i < uses.size(); i++) if (ref.pick[i] == c) names += string(names.empty() ? "S" : ", S") + char('0' + i);
    vp_assert(why[c] == names, "each include is credited with the uses it was chosen for");
  }
  vp_cover(got.size() - pinned.size() == 1 ? "one" : got.size() - pinned.size() ? "many" : "none");
}
extern "C" void h_self() { run(false); }
extern "C" void h_assoc() { run(true); }
