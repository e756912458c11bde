// String utilities: independent oracles, arbitrary bytes.
#include "vp.h"
#include "iwyu_string_util.h"
using namespace include_what_you_use;
using std::string; using std::vector;
static bool ws(unsigned char c) { return (c == ' ') | (c == 9) | (c == 10) | (c == 11) | (c == 12) | (c == 13); }
static size_t refFind(const string &s, const string &p, size_t from) {
  for (size_t i = from; i + p.size() <= s.size(); i++) { bool eq = true; for (size_t k = 0; k < p.size(); k++) eq &= s[i + k] == p[k]; if (eq) return i; }
  return string::npos;
}
static bool eqv(const vector<string> &a, const vector<string> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false;
  return true;
}
static const char *AB = "ab.";

extern "C" void h_split_ws() {
  string s = vp_str("s", 0, vp_param("N", 5), nullptr);
  size_t maxs = vp_choose("max", 0, 3);
  vector<string> got = SplitOnWhiteSpace(s, maxs), exp;
  size_t i = 0;
  while (i < s.size() && !(maxs && exp.size() == maxs)) {
    if (ws(s[i])) { i++; continue; }
    size_t j = i;
    while (j < s.size() && !ws(s[j])) j++;
    exp.push_back(s.substr(i, j - i));
    i = j;
  }
  vp_out("got", got);
  vp_assert(eqv(got, exp), "splitting on white space yields the maximal non-space runs, in order, up to the limit");
  if (exp.size() == 2) vp_cover("split_ws 2 words");
}
// Quoted runs: a word starting with " or < extends through white space up to the first matching close.
extern "C" void h_split_quotes() {
  string s = vp_str("s", 0, vp_param("N", 5), vp_param("A", 0) ? nullptr : "a \t\"<>");
  size_t maxs = vp_choose("max", 0, 2);
  vector<string> got = SplitOnWhiteSpacePreservingQuotes(s, maxs), exp;
  size_t i = 0;
  while (i < s.size() && !(maxs && exp.size() == maxs)) {
    if (ws(s[i])) { i++; continue; }
    size_t j = i + 1;
    if (s[i] == '"' || s[i] == '<') {
      char close = s[i] == '"' ? '"' : '>';
      while (j < s.size() && s[j] != close) j++;
    }
    while (j < s.size() && !ws(s[j])) j++;
    exp.push_back(s.substr(i, j - i));
    if (s[i] == '"' && j - i > 2) vp_cover("quoted word");
    i = j;
  }
  vp_out("got", got);
  vp_assert(eqv(got, exp), "quoted and bracketed words survive white-space splitting whole");
}
extern "C" void h_split() {
  string s = vp_str("s", 0, vp_param("N", 5), AB);
  string d = vp_str("d", 1, 2, AB);
  size_t maxs = vp_choose("max", 0, 3);
  vector<string> got = Split(s, d, maxs);
  vp_out("got", got);
  // joining the pieces with the divider gives the input back
  string j;
  for (size_t i = 0; i < got.size(); i++) { if (i) j += d; j += got[i]; }
  vp_assert(j == s, "joining split pieces with the divider restores the input");
  vp_assert(got.size() >= 1, "split yields at least one piece");
  if (maxs) vp_assert(got.size() <= maxs, "split honours the segment limit");
  for (size_t i = 0; i + 1 < got.size(); i++) vp_assert(refFind(got[i] + d, d, 0) == got[i].size(), "split cuts at the first divider");
  if (!maxs || got.size() < maxs) vp_assert(refFind(got.back(), d, 0) == string::npos, "no divider left in the last piece below the limit");
  if (got.size() == 3) vp_cover("split 3");
}
extern "C" void h_strip_ws() {
  string s = vp_str("s", 0, vp_param("N", 5), nullptr);
  size_t a = 0, b = s.size();
  while (a < b && ws(s[a])) a++;
  string l = s; StripWhiteSpaceLeft(&l);
  vp_assert(l == s.substr(a), "left strip removes exactly the leading white space");
  while (b > a && ws(s[b - 1])) b--;
  string r = s; StripWhiteSpaceRight(&r);
  vp_assert(r == (a == s.size() ? string() : s.substr(0, b)), "right strip removes exactly the trailing white space");
  string t = s; StripWhiteSpace(&t);
  vp_assert(t == s.substr(a, b - a), "strip removes white space on both sides only");
  vp_out("t", t);
  if (a && b < s.size() && a < b) vp_cover("strip both");
}
extern "C" void h_affix() {
  string s = vp_str("s", 0, vp_param("N", 4), AB);
  string p = vp_str("p", 0, 3, AB);
  bool pre = p.size() <= s.size(), suf = pre;
  if (pre) { pre = s.compare(0, p.size(), p) == 0; suf = s.compare(s.size() - p.size(), p.size(), p) == 0; }
  vp_assert(StartsWith(s, p) == pre, "StartsWith");
  vp_assert(EndsWith(s, p) == suf, "EndsWith");
  string t = s;
  vp_assert(StripLeft(&t, p) == pre, "strip prefix reports whether it was there");
  vp_assert(pre ? p + t == s : t == s, "strip prefix removes exactly the prefix");
  string u = s;
  vp_assert(StripRight(&u, p) == suf, "strip suffix reports whether it was there");
  vp_assert(suf ? u + p == s : u == s, "strip suffix removes exactly the suffix");
  vp_out("t", t); vp_out("u", u);
  if (pre && p.size()) vp_cover("prefix"); if (suf && p.size()) vp_cover("suffix");
}
extern "C" void h_past() {
  string s = vp_str("s", 0, vp_param("N", 5), AB);
  string p = vp_str("p", 0, 2, AB);
  size_t pos = refFind(s, p, 0);
  string t = s, u = s;
  bool a = StripPast(&t, p), b = DropFrom(&u, p);
  vp_assert(a == (pos != string::npos) && b == a, "strip-past and drop-from report whether the text occurs");
  if (pos == string::npos) vp_assert(t == s && u == s, "absent text leaves the string alone");
  else vp_assert(u + p + t == s && u.size() == pos, "strip-past and drop-from cut at the first occurrence");
  vp_out("t", t);
  if (a && p.size() && pos) vp_cover("past");
}
extern "C" void h_replace() {
  string s = vp_str("s", 0, vp_param("N", 5), AB);
  string f = vp_str("f", 1, 2, AB);
  string to = vp_str("to", 0, 2, AB);
  string exp;
  for (size_t i = 0; i < s.size();) {
    if (refFind(s, f, i) == i) { exp += to; i += f.size(); } else exp += s[i++];
  }
  string t = s;
  ReplaceAll(&t, f, to);
  vp_out("t", t);
  vp_assert(t == exp, "replace-all replaces every non-overlapping occurrence, left to right, once");
  if (exp != s) vp_cover("replaced");
}
extern "C" void h_ellipsize() {
  string s = vp_str("s", 0, vp_param("N", 9), "ab");
  size_t w = vp_choose("width", 0, 11);
  string t = Ellipsize(s, w);
  vp_out("t", t);
  vp_assert(t.size() <= w || t == s, "ellipsized text fits the width");
  vp_assert(t.size() <= w, "ellipsized text never exceeds the width");
  if (s.size() <= w) vp_assert(t == s, "text that fits is unchanged");
  else if (w < 6) vp_assert(t.empty(), "too narrow a width gives the empty string");
  else { vp_assert(t == s.substr(0, w - 3) + "...", "truncation keeps a prefix and marks it"); vp_cover("ellipsis"); }
}
