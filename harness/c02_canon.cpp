// File naming: header test, base name, canonical names, quoting.
#include "vp.h"
#include "iwyu_path_util.h"
using namespace include_what_you_use;
using std::string; using std::vector;
static const char *kSrc[] = {".c", ".C", ".cc", ".CC", ".cxx", ".CXX", ".cpp", ".CPP", ".c++", ".C++", ".cp"};
static const char *kHdr[] = {".h", ".H", ".hpp", ".hxx", ".hh", ".inl"};
static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static bool starts(const string &s, const string &e) { return s.size() >= e.size() && s.compare(0, e.size(), e) == 0; }
static string cutr(const string &s, const char *e, bool *did) {
  string x = e;
  if (!*did && ends(s, x)) { *did = true; return s.substr(0, s.size() - x.size()); }
  return s;
}
// Reference canonical name of an already normalized path.
static string refCanon(string p) {
  bool d = false;
  for (const char *e : kHdr) p = cutr(p, e, &d);
  if (!d) for (const char *e : kSrc) p = cutr(p, e, &d);
  bool t = false;
  p = cutr(p, "_unittest", &t); p = cutr(p, "_regtest", &t); p = cutr(p, "_test", &t);
  if (!t && starts(p, "test_headercompile_")) p = p.substr(19);
  bool i = false;
  p = cutr(p, "-inl", &i);
  size_t k = p.find("/internal/");
  if (k != string::npos) p = p.substr(0, k) + "/public/" + p.substr(k + 10);
  k = p.find("/include/");
  if (k != string::npos) p = p.substr(0, k) + "/src/" + p.substr(k + 9);
  return p;
}
// Arbitrary short paths.
extern "C" void h_canon_raw() {
  string s = vp_str("s", 0, vp_param("N", 6), "ch.+/pxCl");
  vp_assume(s.find('.') == string::npos || true);
  // keep clear of dot components: normalization is checked separately
  for (size_t i = 0; i + 1 <= s.size(); i++) {
    if (s[i] == '/' && (i + 1 == s.size() || s[i + 1] == '/' || s[i + 1] == '.')) vp_end();
  }
  if (!s.empty() && s[0] == '.') vp_end();
  string got = GetCanonicalName(s);
  vp_out("got", got);
  vp_assert(got == refCanon(s), "canonical name follows the documented naming conventions");
  if (got != s) vp_cover("stripped");
}
extern "C" void h_norm() {
  string s = vp_str("s", 0, vp_param("N", 6), "a./");
  string n = NormalizeFilePath(s), d = NormalizeDirPath(s);
  vp_out("n", n); vp_out("d", d);
  // resolve by components
  vector<string> comp;
  // a leading "//x" names a network root for LLVM; outside the claim
  if (s.size() >= 2 && s[0] == '/' && s[1] == '/') vp_end();
  bool abs = !s.empty() && s[0] == '/';
  size_t i = 0;
  bool messy = false;
  while (i <= s.size()) {
    size_t j = s.find('/', i);
    if (j == string::npos) j = s.size();
    string c = s.substr(i, j - i);
    if (c == "..") { if (!comp.empty() && comp.back() != "..") comp.pop_back(); else if (!abs) comp.push_back(c); }
    else if (!c.empty() && c != ".") comp.push_back(c);
    i = j + 1;
  }
  string exp = abs ? "/" : "";
  for (size_t k = 0; k < comp.size(); k++) { if (k) exp += "/"; exp += comp[k]; }
  vp_assert(n == exp, "normalizing a path resolves every dot and dot-dot component and duplicate slash");
  vp_assert(NormalizeFilePath(n) == n, "normalizing twice changes nothing more");
  vp_assert(d == exp || (d.size() == exp.size() + 1 && d.back() == '/' && starts(d, exp)), "directory normalization only adds a slash");
  vp_assert(d.empty() || d.back() == '/', "normalized directories end in a slash");
  if (n != s && comp.size() > 1) vp_cover("normalized");
}
// Every spelling of one component maps to one canonical name.
extern "C" void h_canon_family() {
  static const char *dirs[] = {"", "x/", "/p/internal/", "q/internal/", "/p/include/", "a/./", "b/../", "/p/internal/include/", "internal/"};
  static const char *cdirs[] = {"", "x/", "/p/public/", "q/public/", "/p/src/", "a/", "", "/p/public/include/", "internal/"};
  static const char *suf[] = {"", "-inl", "_unittest", "_regtest", "_test", "-inl_test"};
  uint64_t d = vp_choose("dir", 0, 8), u = vp_choose("suf", 0, 5), e = vp_choose("ext", 0, 17);
  size_t n = vp_choose("name.len", 1, vp_param("N", 3));
  string name = vp_strn("name", n, "abc_-.h");
  vp_assume(name[0] != '.' && name[0] != '-' && name[0] != '_');
  string ext = e < 6 ? kHdr[e] : e < 17 ? kSrc[e - 6] : "";
  // the bare name must not itself look like it carries a suffix
  string got = GetCanonicalName(string(dirs[d]) + name + suf[u] + ext);
  vp_out("got", got);
  string full = string(cdirs[d]) + name;
  if (e == 17 && u == 0) { vp_assert(got == refCanon(full), "extension-less names"); vp_end(); }
  if (e == 17 && d == 7) full = string("/p/public/src/") + name;
  if (e == 17) { vp_assert(got == full, "test and -inl suffixes are dropped without an extension too"); vp_end(); }
  if (d == 7) { vp_assert(got == string("/p/public/src/") + name, "nested internal/include directories"); vp_end(); }
  vp_assert(got == full, "header, source, -inl and test spellings of a component share its canonical name");
  if (d == 2 && u == 2) vp_cover("family");
}
extern "C" void h_header() {
  size_t n = vp_choose("s.len", 0, vp_param("N", 5));
  string s = vp_strn("s", n, ".cChHpx+/\"><");
  bool hdr = true;
  string t = s;
  if (!t.empty() && (t.back() == '"' || t.back() == '>')) t = t.substr(0, t.size() - 1);
  for (const char *e : kSrc) if (ends(t, e)) hdr = false;
  vp_out_u64("hdr", IsHeaderFile(s));
  vp_assert(IsHeaderFile(s) == hdr, "a file is a header unless it has a source extension");
  size_t k = s.size();
  while (k > 0 && s[k - 1] != '/') k--;
  vp_assert(Basename(s) == s.substr(k), "base name is what follows the last slash");
  bool q = s.size() >= 2 && ((s[0] == '<' && s.back() == '>') || (s[0] == '"' && s.back() == '"'));
  vp_assert(IsQuotedInclude(s) == q, "quoted includes are recognised by their delimiters");
  if (!hdr) vp_cover("source"); if (q) vp_cover("quoted");
}
extern "C" void h_special() {
  static const char *sp[] = {"<built-in>", "<command line>", "<scratch space>", "<inline asm>", "<stdin>"};
  uint64_t i = vp_choose("i", 0, 4);
  vp_assert(GetCanonicalName(sp[i]) == sp[i], "compiler-generated file names are canonical already");
  vp_cover("special");
}
