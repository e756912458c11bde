// Which spelling is proposed for a header, given what the includer already writes.
#include "vp.h"
#include <algorithm>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "iwyu_include_picker.h"
#include "iwyu_path_util.h"
#include "iwyu_regex.h"
using namespace include_what_you_use;
using std::string; using std::vector; using std::map; using std::pair;
static bool starts(const string &s, const string &e) { return s.size() >= e.size() && s.compare(0, e.size(), e) == 0; }
// Search paths used: /i/s/ (system) and /i/ (user); everything else is found next to the includer or by its full path.
static void paths() { SetHeaderSearchPaths({HeaderSearchPath("/i/s/", HeaderSearchPath::kSystemPath), HeaderSearchPath("/i/", HeaderSearchPath::kUserPath)}); }
static string spell(const string &f, const string &dir) {
  if (starts(f, "/i/s/")) return "<" + f.substr(5) + ">";
  if (starts(f, "/i/")) return "\"" + f.substr(3) + "\"";
  if (!dir.empty() && starts(f, dir)) return "\"" + f.substr(dir.size()) + "\"";
  return "\"" + f + "\"";
}
static string dirOf(const string &f) { return f.substr(0, f.rfind('/') + 1); }
static string anyPath(const char *name) {
  static const char *d[] = {"/i/s/", "/i/", "/q/", "/q/r/"};
  return string(d[vp_choose((string(name) + ".dir").c_str(), 0, 3)]) + vp_strn(name, 1, "xyz");
}
// What the includer writes for p, out of the history.
struct Seen { string from, to, text; };
static bool written(const vector<Seen> &h, const string &from, const string &to, const string &got, bool *any) {
  bool ok = false;
  for (auto &s : h) if (s.from == from && s.to == to) { *any = true; ok |= s.text == got; }
  return ok;
}
static void judge(const vector<Seen> &h, const string &user, const string &file, const string &fallback, const string &got) {
  bool any = false, ok = written(h, user, file, got, &any);
  if (any) { vp_assert(ok, "a header the file already includes is proposed under a spelling the file uses"); vp_cover("as-written"); }
  else { vp_assert(got == fallback, "a header the file does not include is proposed as the search path spells it"); vp_cover("by-path"); }
}
extern "C" void h_history() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  paths();
  string user = anyPath("u") + ".c", file = anyPath("f");
  vector<Seen> h;
  size_t n = vp_choose("n", 0, vp_param("K", 2));
  static const char *texts[] = {"\"w1\"", "<w2>"};
  for (size_t i = 0; i < n; i++) {
    Seen s;
    int w = vp_choose("who", 0, 2);
    s.from = w == 0 ? user : w == 1 ? "/q/o.c" : "/i/o.c";
    s.to = vp_choose("same", 0, 1) ? file : anyPath("t");
    s.text = texts[vp_choose("text", 0, 1)];
    s.text[2] = (char)vp_sym_char("txt", "xyz/");
    p.AddDirectInclude(s.from, s.to, s.text);
    h.push_back(s);
  }
  p.FinalizeAddedIncludes();
  vector<string> got = p.GetMappedPublicHeaders("none", user, file);
  vp_out("got", got);
  vp_assert(got.size() == 1, "a header without mappings is its own only candidate");
  judge(h, user, file, spell(file, dirOf(user)), got[0]);
}
// A private header mapped to another file (export or mapping), to a text, or with a friend.
extern "C" void h_mapped() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  paths();
  string user = anyPath("u") + ".c", priv = anyPath("f") + ".p", pub = anyPath("g") + ".h";
  bool priv_said = vp_choose("private", 0, 1), by_path = vp_choose("by-path", 0, 1);
  bool text = vp_choose("text", 0, 1), fr = vp_choose("friend", 0, 1);
  p.AddMapping(spell(priv, ""), text ? MappedInclude(spell(pub, "")) : MappedInclude(spell(pub, ""), pub));
  if (priv_said) { if (by_path) p.MarkPathAsPrivate(priv); else p.MarkIncludeAsPrivate(spell(priv, "")); }
  if (fr) p.AddFriendRegex(priv, "\"(.*\\.c)\"");
  vector<Seen> h;
  p.AddDirectInclude("<built-in>", user, "");
  for (int i = 0; i < 2; i++) if (vp_choose("included", 0, 1)) {
    Seen s{user, i ? pub : priv, i ? "\"../b\"" : "\"../a\""};
    p.AddDirectInclude(s.from, s.to, s.text);
    h.push_back(s);
  }
  p.FinalizeAddedIncludes();
  vector<string> got = p.GetMappedPublicHeaders("none", user, priv);
  vp_out("got", got);
  string dir = dirOf(user);
  bool isfriend = fr && !starts(user, "/i/s/");
  size_t k = 0;
  if (isfriend || !priv_said) {
    vp_assert(!got.empty(), "there is a candidate");
    judge(h, user, priv, spell(priv, dir), got[k++]);
    if (isfriend) vp_cover("friend");
  }
  if (!isfriend) {
    vp_assert(got.size() == k + 1, "the mapped header is a candidate");
    if (text) { vp_assert(got[k] == spell(pub, ""), "a mapping to a text is proposed as written"); vp_cover("text"); }
    else judge(h, user, pub, spell(pub, dir), got[k]);
    if (priv_said && !text) vp_cover("private-mapped");
  } else vp_assert(got.size() == 1, "a friend needs no other header");
}
// Symbols mapped to headers.
extern "C" void h_symbol() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  paths();
  string user = anyPath("u") + ".c", file = anyPath("f");
  string to = "\"s?\""; to[2] = (char)vp_sym_char("to", "ab");
  p.AddSymbolMapping("sym", MappedInclude(to), kPublic);
  bool inc = vp_choose("included", 0, 1);
  if (inc) p.AddDirectInclude(user, file, to);
  p.FinalizeAddedIncludes();
  vector<string> got = p.GetMappedPublicHeaders("sym", user, file);
  vp_out("got", got);
  vp_assert(got == vector<string>{to}, "a mapped symbol is provided by the header its mapping names");
  vector<string> other = p.GetMappedPublicHeaders("sum", user, file);
  vp_assert(other.size() == 1 && other[0] == (inc ? to : spell(file, dirOf(user))), "an unmapped symbol is provided by its file");
  vp_cover("symbol");
}
// Equivalent paths of one file give the same answers.
static string equivalent(const string &f) {
  size_t i = f.rfind('/');
  switch (vp_choose("eq", 0, 3)) {
    case 0: return f;
    case 1: return f.substr(0, i) + "/./" + f.substr(i + 1);
    case 2: return f.substr(0, i) + "/zz/../" + f.substr(i + 1);
    default: return f.substr(0, i) + "//" + f.substr(i + 1);
  }
}
extern "C" void h_equiv() {
  IncludePicker p(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  paths();
  string a = anyPath("a"), b = anyPath("b");
  vp_assume(a != b);
  bool mapped = vp_choose("mapped", 0, 1), priv = vp_choose("private", 0, 1);
  if (mapped) p.AddMapping(spell(a, ""), MappedInclude(spell(b, ""), b));
  if (priv) p.MarkIncludeAsPrivate(spell(a, ""));
  p.FinalizeAddedIncludes();
  string ea = equivalent(a), eb = equivalent(b);
  vp_assert(p.HasMapping(ea, eb) == mapped, "one file stands in for another under every equivalent path");
  vp_assert(p.HasMapping(ea, a) && !p.HasMapping(eb, ea), "a file stands in for itself, not the other way round");
  vector<string> x;
  for (auto &m : p.GetCandidateHeadersForFilepath(ea)) x.push_back(m.quoted_include);
  vp_out("x", x);
  vector<string> want;
  if (!(mapped && priv)) want.push_back(spell(a, ""));
  if (mapped) want.push_back(spell(b, ""));
  vp_assert(x == want, "the candidates are the same for every equivalent path");
  if (ea != a && mapped) vp_cover("equivalent");
}
