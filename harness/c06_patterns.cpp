// Regular expressions in options and mappings; globs.
#include "vp.h"
#include <cstdlib>
#include <string>
#include <vector>
#include "fakeclang.h"
#include "iwyu_globals.h"
#include "iwyu_location_util.h"
#include "iwyu_path_util.h"
#include "iwyu_port.h"
#include "iwyu_regex.h"
using namespace include_what_you_use;
using std::string; using std::vector;
static bool starts(const string &s, const string &e) { return s.size() >= e.size() && s.compare(0, e.size(), e) == 0; }
static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static bool all(const string &s, size_t from, const char *set) { for (size_t i = from; i < s.size(); i++) if (!strchr(set, s[i])) return false; return true; }
// Pattern k and what its language is.
static const int kPats = 15;
static string pat(int k, bool *in, const string &s) {
  switch (k) {
    case 0: *in = s == "ab"; return "ab";
    case 1: *in = starts(s, "a"); return "a.*";
    case 2: *in = s.size() >= 2 && s[0] == 'a' && s.back() == 'b'; return "a.*b";
    case 3: *in = s == "a" || s == "b"; return "a|b";
    case 4: *in = s == "ab" || s == "bb"; return "(a|b)b";
    case 5: *in = !s.empty() && s[0] == 'a' && all(s, 1, "b"); return "ab*";
    case 6: *in = !s.empty() && all(s, 0, "a"); return "a+";
    case 7: *in = s == "a" || s == "ab"; return "ab?";
    case 8: *in = s == "a.b"; return "a\\.b";
    case 9: *in = s == "a$"; return "a\\$";
    case 10: *in = s.size() == 3 && s[0] == 'a' && s[2] == 'b'; return "^a.b$";
    case 11: *in = s.size() == 2 && (s[0] == 'a' || s[0] == 'b') && s[1] == '.'; return "[ab][.]";
    case 12: *in = s == "a" || s == "ab" || s == "abb"; return "a|ab|abb";
    case 13: *in = s == "a" || s == "b"; return "^a|b$";
    default: *in = s.size() >= 2 && s[0] == '<' && s.back() == '>'; return "<.*>";
  }
}
static RegexDialect dialect() { return vp_choose("ecma", 0, 1) ? RegexDialect::ECMAScript : RegexDialect::LLVM; }
extern "C" void h_match() {
  int k = vp_choose("k", 0, kPats - 1);
  RegexDialect d = dialect();
  string s = vp_str("s", 0, vp_param("N", 4), k == 14 ? "<>a" : "ab.$");
  bool in = false;
  string p = pat(k, &in, s);
  bool got = RegexMatch(d, s, p);
  vp_out_u64("got", got);
  vp_assert(got == in, "a pattern matches exactly the names it describes as a whole");
  if (in) vp_cover("match"); if (!in && s.size() == 4 && starts(s, "ab")) vp_cover("partial");
}
extern "C" void h_replace() {
  int k = vp_choose("k", 0, kPats - 1);
  RegexDialect d = dialect();
  string s = vp_str("s", 0, vp_param("N", 4), k == 14 ? "<>a" : "ab.$");
  bool in = false;
  string p = pat(k, &in, s);
  string r = "\"" + vp_strn("r", 1, "xab.") + "\"";
  string got = RegexReplace(d, s, p, r);
  vp_out("got", got);
  vp_assert(got == (in ? r : s), "a replacement rewrites the whole matched name and leaves other names alone");
  if (in && s.size() > 1) vp_cover("replaced");
}
// Groups keep their numbers.
extern "C" void h_groups() {
  RegexDialect d = dialect();
  bool e = d == RegexDialect::ECMAScript;
  string body = vp_str("s", 0, vp_param("N", 4), "a/.");
  string s = "<" + body + ">";
  string got;
  switch (vp_choose("form", 0, 2)) {
    case 0: {
      got = RegexReplace(d, s, "<a/(.*)>", e ? "<b/$1>" : "<b/\\1>");
      string want = starts(body, "a/") ? "<b/" + body.substr(2) + ">" : s;
      vp_assert(got == want, "a group is filled in with the text it matched");
      if (starts(body, "a/") && body.size() == 4) vp_cover("group");
      break;
    }
    case 1: {
      got = RegexReplace(d, s, "<(a|/)([^/]*)>", e ? "\"$2-$1\"" : "\"\\2-\\1\"");
      bool in = !body.empty() && body[0] != '.' && body.find('/', 1) == string::npos;
      vp_assert(got == (in ? "\"" + body.substr(1) + "-" + body[0] + "\"" : s), "groups keep their numbers");
      if (in && body.size() == 3) vp_cover("two-groups");
      break;
    }
    default: {
      // a top-level alternative with groups
      got = RegexReplace(d, s, "<(a)>|<(/.*)>", e ? "[$1$2]" : "[\\1\\2]");
      bool in = body == "a" || starts(body, "/");
      vp_assert(got == (in ? "[" + body + "]" : s), "alternatives with groups rewrite the whole name");
    }
  }
  vp_out("got", got);
}
// ---- globs
static bool glob(const string &g, size_t i, const string &p, size_t j) {
  if (i == g.size()) return j == p.size();
  if (g[i] == '*') { for (size_t k = j; k <= p.size(); k++) if (glob(g, i + 1, p, k)) return true; return false; }
  return j < p.size() && (g[i] == '?' || g[i] == p[j]) && glob(g, i + 1, p, j + 1);
}
#if VP_SYMBOLIC
extern "C" char *getenv(const char *) { return nullptr; }
// fnmatch without flags: '*' and '?' also match '/'.
extern "C" __attribute__((noinline)) int fnmatch(const char *g, const char *p, int f) {
  if (f) vp_trace("fnmatch-flags", "unmodelled");
  for (; *g; g++) {
    if (*g == '*') { for (;; p++) { if (!fnmatch(g + 1, p, 0)) return 0; if (!*p) return 1; } }
    if (!*p) return 1;
    if (*g != '?' && *g != *p) return 1;
    p++;
  }
  return *p ? 1 : 0;
}
#endif
// drops "." components and resolves ".." textually
static string norm(const string &p) {
  vector<string> c; bool abs = !p.empty() && p[0] == '/';
  size_t i = 0;
  while (i < p.size()) {
    size_t e = p.find('/', i); if (e == string::npos) e = p.size();
    string x = p.substr(i, e - i); i = e + 1;
    if (x.empty() || x == ".") continue;
    if (x == ".." && !c.empty() && c.back() != "..") { c.pop_back(); continue; }
    if (x == ".." && abs) continue;
    c.push_back(x);
  }
  string r = abs ? "/" : "";
  for (size_t k = 0; k < c.size(); k++) r += (k ? "/" : "") + c[k];
  return r;
}
static void globs(bool keep) {
  InitGlobalsAndFlagsForTesting();
  vector<string> gs;
  size_t n = vp_choose("n", 0, 2);
  for (size_t i = 0; i < n; i++) {
    static const char *pre[] = {"", "./", "a/../", "/"};
    string g = i ? vp_strn("h", 1, "*b") : string(pre[vp_choose("pre", 0, 3)]) + vp_str("g", 1, vp_param("N", 3), "a*?/");
    vp_assume(g.find("//") == string::npos && g.back() != '/');
    (keep ? AddGlobToKeepIncludes : AddGlobToReportIWYUViolationsFor)(g);
    gs.push_back(norm(g));
  }
  static const char *fpre[] = {"", "./", "/"};
  string f = string(fpre[vp_choose("fpre", 0, 2)]) + vp_str("f", 1, vp_param("N", 3), "ab/");
  vp_assume(f.find("//") == string::npos && f.back() != '/');
  string nf = norm(f);
  bool want = keep && ends(nf, ".moc");
  for (auto &g : gs) want |= glob(g, 0, nf, 0);
  bool got = (keep ? ShouldKeepIncludeFor : ShouldReportIWYUViolationsFor)(fake_file(f));
  vp_out_u64("got", got);
  vp_assert(got == want, "a glob option applies exactly to the paths its pattern matches");
  bool other = (keep ? ShouldReportIWYUViolationsFor : ShouldKeepIncludeFor)(fake_file(f));
  vp_assert(!other, "each glob option affects its own decision only");
  if (want && n == 2) vp_cover(keep ? "kept" : "also-checked");
  if (!want && n) vp_cover("glob-no");
}
extern "C" void h_keep() { globs(true); }
extern "C" void h_also() { globs(false); }
extern "C" void h_moc() {
  InitGlobalsAndFlagsForTesting();
  string f = vp_str("f", 0, 2, "a/m") + ".m" + vp_strn("x", 2, "oca");
  vp_assert(ShouldKeepIncludeFor(fake_file(f)) == ends(f, ".moc"), "moc output is always kept");
  vp_assert(!ShouldKeepIncludeFor(clang::OptionalFileEntryRef()), "no pattern matches the built-in pseudo file");
  if (ends(f, ".moc")) vp_cover("moc");
}
