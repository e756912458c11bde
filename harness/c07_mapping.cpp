// Mapping graphs: which headers provide a file or a symbol.
#include "vp.h"
#include <algorithm>
#include <set>
#include <string>
#include <vector>
#include "iwyu_include_picker.h"
#include "iwyu_path_util.h"
#include "iwyu_regex.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector; using std::pair;
static const int kMax = 5;
// Nodes are named by one symbolic character each, so that the tree lookups in the code decide what is known about them.
static string path(char c) { return string("/") + c; }
static string quoted(char c) { return "\"" + path(c) + "\""; }
struct Graph {
  int n; vector<pair<char, char>> e; int v[kMax];
  IncludeVisibility vis(char c) const { int r = v[0]; for (int i = 1; i < n; i++) r = c == 'a' + i ? v[i] : r; return (IncludeVisibility)r; }
  // every node reachable by at least one edge, each before what it maps to, in mapping order
  void walk(char i, vector<char> *r) const { for (auto &x : e) if (x.first == i && std::find(r->begin(), r->end(), x.second) == r->end()) { r->push_back(x.second); walk(x.second, r); } }
  vector<char> reach(char i) const { vector<char> r; walk(i, &r); return r; }
};
static Graph build(IncludePicker &p, int n, int m, bool distinct) {
  Graph g; g.n = n;
  for (int i = 0; i < n; i++) g.v[i] = vp_sym_range("vis", kPublic, kPrivate);
  for (int k = 0; k < m; k++) {
    char from = k == 0 && vp_param("F", 99) < 99 ? 'a' + vp_param("F", 0) : vp_sym_range("from", 'a', 'a' + n - 1);
    char to = k == 0 && vp_param("T", 99) < 99 ? 'a' + vp_param("T", 0) : vp_sym_range("to", 'a', 'a' + n - 1);
    if (distinct) for (auto &x : g.e) vp_assume(x.first != from || x.second != to);
    g.e.push_back({from, to});
    p.AddIncludeMapping(quoted(from), g.vis(from), MappedInclude(quoted(to)), g.vis(to));
  }
  return g;
}
static void check(const Graph &g, const IncludePicker &p, char i) {
  // visibility is only known for headers that occur in a mapping; the others count as public
  vector<string> want;
  vector<char> r = g.reach(i);
  for (char c : r) if (g.vis(c) == kPublic) want.push_back(quoted(c));
  bool known = false;
  for (auto &x : g.e) known |= x.first == i || x.second == i;
  bool selfpub = !known || g.vis(i) == kPublic;
  bool self = selfpub || want.empty();
  vector<MappedInclude> got = p.GetCandidateHeadersForFilepath(path(i));
  vector<string> q;
  for (auto &m : got) q.push_back(m.quoted_include);
  vp_out("got", q);
  if (self) { vp_assert(!q.empty() && q[0] == quoted(i), "a header that is public, or has no public alternative, comes first"); q.erase(q.begin()); }
  else for (auto &x : q) vp_assert(x != quoted(i), "a private header is not proposed while a public one is reachable");
  vp_assert(q.size() == want.size(), "every public header reachable through the mappings is proposed, once");
  for (size_t k = 0; k < q.size() && k < want.size(); k++)
    vp_assert(std::find(want.begin(), want.end(), q[k]) != want.end(), "only public headers reachable through the mappings are proposed");
  vp_assert(q == want, "proposals come in mapping order");
  char j = vp_sym_range("j", 'a', 'a' + g.n - 1);
  bool reach = i == j || std::find(r.begin(), r.end(), j) != r.end();
  vp_assert(p.HasMapping(path(i), path(j)) == reach, "one header stands in for another exactly when a chain of mappings leads to it");
  if (r.size() >= 3 && !self) vp_cover("chain-private");
  for (char c : r) if (c == i) vp_cover("cycle");
}
extern "C" void h_graph() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  Graph g = build(p, vp_param("N", 4), vp_param("M", 4), true);
  p.FinalizeAddedIncludes();
  check(g, p, vp_sym_range("q", 'a', 'a' + g.n - 1));
}
extern "C" void h_dup() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  Graph g = build(p, 3, 3, false);
  p.FinalizeAddedIncludes();
  check(g, p, vp_sym_range("q", 'a', 'c'));
}
// Symbols: mapped headers and everything they lead to.
extern "C" void h_symbol() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  Graph g = build(p, 4, vp_param("M", 2), true);
  size_t k = vp_choose("k", 0, 2);
  vector<char> s;
  for (size_t i = 0; i < k; i++) { s.push_back(vp_sym_range("s", 'a', 'd')); p.AddSymbolMapping("sym", MappedInclude(quoted(s.back())), g.vis(s.back())); }
  p.AddSymbolMapping("other", MappedInclude("<o>"), kPublic);
  p.FinalizeAddedIncludes();
  vector<MappedInclude> got = p.GetCandidateHeadersForSymbol("sym");
  vector<string> q, want;
  for (auto &m : got) q.push_back(m.quoted_include);
  vp_out("got", q);
  vector<char> all;
  auto add = [&](char c) { if (std::find(all.begin(), all.end(), c) == all.end()) all.push_back(c); };
  for (char x : s) { add(x); for (char c : g.reach(x)) add(c); }
  for (char c : all) if (g.vis(c) == kPublic) want.push_back(quoted(c));
  vp_assert(q == want, "a symbol is provided by the public headers it is mapped to and those they are mapped to, in that order");
  vp_assert(p.GetCandidateHeadersForSymbol("none").empty(), "an unmapped symbol has no candidates");
  if (q.size() == 3) vp_cover("symbol");
  // the symbol wins over the file of the declaration
  vector<string> mp = p.GetMappedPublicHeaders("sym", "/use", "/zz");
  vp_assert(want.empty() ? mp == vector<string>{"\"zz\""} || mp == vector<string>{"\"/zz\""} : mp == want, "a symbol mapping takes precedence over the declaring file");
}
// Regex keys apply to every header seen that they match.
extern "C" void h_regex() {
  IncludePicker p(vp_choose("ecma", 0, 1) ? RegexDialect::ECMAScript : RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  string dir = vp_strn("d", 2, "xy/");
  string seen = "/r/" + dir + "h";
  static const char *pat[] = {"@\"/r/x.*\"", "@\"/r/.y.*\"", "@\"/r/(.*)/h\""};
  static const char *to[] = {"\"/pub\"", "\"/pub2\"", "\"/g/\\1\""};
  int k = vp_choose("pat", 0, 2);
  bool ecma = p.regex_dialect == RegexDialect::ECMAScript;
  string target = k == 2 && ecma ? "\"/g/$1\"" : to[k];
  bool priv = vp_choose("priv", 0, 1);
  p.AddIncludeMapping(pat[k], priv ? kPrivate : kPublic, MappedInclude(target), kPublic);
  p.AddDirectInclude("/main", seen, "\"h\"");
  p.FinalizeAddedIncludes();
  bool match; string want;
  if (k == 0) { match = dir[0] == 'x'; want = "\"/pub\""; }
  else if (k == 1) { match = dir[1] == 'y'; want = "\"/pub2\""; }
  else { match = dir[1] == '/'; want = string("\"/g/") + dir[0] + "\""; }
  vp_assume(dir != "//" && dir[0] != '/');
  vector<MappedInclude> got = p.GetCandidateHeadersForFilepath(seen);
  vector<string> q, w;
  for (auto &m : got) q.push_back(m.quoted_include);
  vp_out("got", q);
  if (!(match && priv)) w.push_back("\"" + seen + "\"");
  if (match) w.push_back(want);
  vp_assert(q == w, "a pattern mapping applies exactly to the headers its pattern matches");
  if (match && k == 2) vp_cover("regex-group"); if (!match) vp_cover("regex-no");
}
