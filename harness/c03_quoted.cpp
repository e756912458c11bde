// Spelling of include lines from file paths and search directories.
#include "vp.h"
#include <map>
#include <utility>
#include "iwyu_globals.cc"
using namespace include_what_you_use;
using std::string; using std::vector; using std::map;
static bool starts(const string &s, const string &e) { return s.size() >= e.size() && s.compare(0, e.size(), e) == 0; }
// Directory entries fed through the real search-path computation.
struct Dirs {
  vector<clang::DirectoryLookup> v;
};
static clang::DirectoryEntryRef mkdirref(const string &name) {
  auto *de = new clang::DirectoryEntry;
  typedef llvm::StringMapEntry<llvm::ErrorOr<clang::DirectoryEntry &>> ME;
  void *mem = malloc(sizeof(ME) + name.size() + 1);
  auto *me = new (mem) ME(name.size(), *de);
  memcpy((char *)mem + sizeof(ME), name.data(), name.size());
  ((char *)mem)[sizeof(ME) + name.size()] = 0;
  return clang::DirectoryEntryRef(*me);
}
static vector<HeaderSearchPath> compute(const vector<string> &user, const vector<string> &sys) {
  // Only the members the computation reads are constructed.
  static char raw[sizeof(clang::HeaderSearch)];
  memset(raw, 0, sizeof raw);
  auto *hs = reinterpret_cast<clang::HeaderSearch *>(raw);
  new (&hs->SearchDirs) std::vector<clang::DirectoryLookup>();
  for (auto &u : user) hs->SearchDirs.push_back(clang::DirectoryLookup(mkdirref(u), clang::SrcMgr::C_User, false));
  for (auto &u : sys) hs->SearchDirs.push_back(clang::DirectoryLookup(mkdirref(u), clang::SrcMgr::C_System, false));
  hs->AngledDirIdx = user.size();
  hs->SystemDirIdx = user.size();
  return ComputeHeaderSearchPaths(hs);
}
static const char *kDirs[] = {"/a", "/a/b", "/a/b/", "/ab", "/a/./c/../b", "/a/b/c", "a"};
static const char *kNorm[] = {"/a/", "/a/b/", "/a/b/", "/ab/", "/a/b/", "/a/b/c/", "/usr/a/"};

extern "C" void h_quoted() {
  size_t nu = vp_choose("nuser", 0, 2), ns = vp_choose("nsys", 0, vp_param("S", 1));
  vector<string> user, sys; vector<int> ui, si;
  for (size_t i = 0; i < nu; i++) { ui.push_back(vp_choose("u", 0, 6)); user.push_back(kDirs[ui.back()]); }
  for (size_t i = 0; i < ns; i++) { si.push_back(vp_choose("s", 0, 6)); sys.push_back(kDirs[si.back()]); }
  vector<HeaderSearchPath> hp = compute(user, sys);
  vp_out_u64("n", hp.size());
  SetHeaderSearchPaths(hp);
  // a path under /a, /a/b, /ab, ... with symbolic characters
  static const char *pre[] = {"/a", "/a/b/", "/usr/a/", "b/../", "/ab"};
  string path = string(pre[vp_choose("pre", 0, 4)]) + vp_str("p", 1, vp_param("N", 2), "/bc.");
  vp_assume(path.find("//") == string::npos);
  string full = path[0] == '/' ? path : "/usr/" + path;
  full = NormalizeFilePath(full);
  vp_assume(full.size() > 1);
  string got = ConvertToQuotedInclude(path, "");
  vp_out("got", got);
  // reference: the longest search directory that is a prefix; system wins over user for the same directory
  int best = -1; bool bestsys = false; size_t bl = 0;
  for (size_t i = 0; i < ns; i++) { string d = kNorm[si[i]]; if (starts(full, d) && d.size() > bl) { best = 1; bl = d.size(); bestsys = true; } }
  for (size_t i = 0; i < nu; i++) { string d = kNorm[ui[i]]; if (starts(full, d) && d.size() > bl) { best = 1; bl = d.size(); bestsys = false; } }
  string exp = best < 0 ? "\"" + full + "\"" : bestsys ? "<" + full.substr(bl) + ">" : "\"" + full.substr(bl) + "\"";
  vp_assert(got == exp, "an include is spelled relative to the longest search directory holding the file, angled exactly for system directories");
  vp_assert(IsQuotedInclude(got), "a spelled include is a quoted include");
  if (best >= 0 && bestsys) vp_cover("system"); if (best >= 0 && !bestsys && nu == 2) vp_cover("user"); if (best < 0) vp_cover("none");
}
extern "C" void h_includer() {
  // no search directory matches: relative to the including directory, else the full path
  vector<string> user, sys;
  bool has = vp_choose("has", 0, 1);
  if (has) sys.push_back("/z");
  SetHeaderSearchPaths(compute(user, sys));
  string inc = "/" + vp_str("inc", 1, vp_param("N", 3), "a/.");
  vp_assume(inc.find("//") == string::npos);
  string path = "/" + vp_str("p", 1, vp_param("N", 3), "a/c");
  vp_assume(path.find("//") == string::npos && path.back() != '/');
  string ni = NormalizeDirPath(inc);
  string got = ConvertToQuotedInclude(path, inc);
  vp_out("got", got);
  string exp = starts(path, ni) ? path.substr(ni.size()) : path;
  vp_assert(got == "\"" + exp + "\"", "outside every search directory the spelling is relative to the includer's directory when the file is below it");
  if (exp.size() < path.size() - 1) vp_cover("includer");
}
extern "C" void h_quote_misc() {
  string s = vp_str("s", 0, 4, nullptr);
  bool angled = vp_choose("angled", 0, 1);
  string q = AddQuotes(s, angled);
  vp_assert(q.size() == s.size() + 2 && q.substr(1, s.size()) == s && q[0] == (angled ? '<' : '"') && q.back() == (angled ? '>' : '"'), "quoting wraps the name and keeps it");
  vp_assert(ConvertToQuotedInclude("<built-in>") == "<built-in>", "the built-in pseudo file is not quoted");
  vp_cover("quote");
}
// The computed search list: every directory once, system flag correct, longest first.
extern "C" void h_searchlist() {
  size_t nu = vp_choose("nuser", 0, 2), ns = vp_choose("nsys", 0, 2);
  vector<string> user, sys; vector<int> ui, si;
  for (size_t i = 0; i < nu; i++) { ui.push_back(vp_choose("u", 0, 6)); user.push_back(kDirs[ui.back()]); }
  for (size_t i = 0; i < ns; i++) { si.push_back(vp_choose("s", 0, 6)); sys.push_back(kDirs[si.back()]); }
  vector<HeaderSearchPath> hp = compute(user, sys);
  map<string, bool> want;
  for (int i : ui) want[kNorm[i]] = false;
  for (int i : si) want[kNorm[i]] = true;
  vp_assert(hp.size() == want.size(), "each search directory is listed once");
  for (size_t i = 0; i < hp.size(); i++) {
    if (i) vp_assert(hp[i - 1].path.size() >= hp[i].path.size(), "search directories are ordered longest first");
    vp_assert(want.count(hp[i].path) == 1, "listed directory was given");
    vp_assert((hp[i].path_type == HeaderSearchPath::kSystemPath) == want[hp[i].path], "system directories are marked as such");
  }
  if (hp.size() == 3) vp_cover("list3");
}
