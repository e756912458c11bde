// Command-line options: routing of words and effect of each option.
#include "vp.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <getopt.h>
// The end of the process is observed, not suffered.
static int g_expect_exit = -1;      // -1: the program must not end
static bool g_quiet_exit;
[[noreturn]] static void h_exit(int code) {
  vp_out_u64("exit", (unsigned)code);
  if (g_expect_exit < 0) vp_assert(false, "the program ends although every option is good");
  else if (g_expect_exit == 0) vp_assert(code == 0, "asking for help or version ends the program with success");
  else vp_assert(code != 0, "a bad option ends the program with a failure status");
  vp_cover(code ? "exit-bad" : "exit-ok");
  vp_end();
  abort();
}
#define exit h_exit
#define printf(...) ((void)0)
#include "iwyu_globals.cc"
#undef exit
#undef printf
using namespace include_what_you_use;
using std::string; using std::vector; using std::map; using std::set;
#if VP_SYMBOLIC
// getopt_long from its documented contract (GNU rules: unique prefixes, permutation).
extern "C" {
char *optarg; int optind = 1, opterr = 1, optopt;
char *getenv(const char *) { return nullptr; }
static char *h_cur; static int h_first = 1, h_last = 1;
static void h_rot(char **a, int f, int l, int e) {  // move [l,e) in front of [f,l)
  for (int k = l; k < e; k++) { char *x = a[k]; for (int i = k; i > f + (k - l); i--) a[i] = a[i - 1]; a[f + (k - l)] = x; }
}
__attribute__((noinline)) int getopt_long(int argc, char *const *cargv, const char *so, const struct option *lo, int *) {
  char **argv = (char **)cargv;
  optarg = nullptr;
  if (!h_cur || !*h_cur) {
    if (h_first != h_last && h_last != optind) { h_rot(argv, h_first, h_last, optind); h_first += optind - h_last; h_last = optind; }
    else if (h_last != optind) h_first = optind;
    while (optind < argc && (argv[optind][0] != '-' || !argv[optind][1])) optind++;
    h_last = optind;
    if (optind != argc && !strcmp(argv[optind], "--")) {
      optind++;
      if (h_first != h_last && h_last != optind) { h_rot(argv, h_first, h_last, optind); h_first += optind - h_last; }
      else if (h_first == h_last) h_first = optind;
      h_last = argc; optind = argc;
    }
    if (optind == argc) { if (h_first != h_last) optind = h_first; return -1; }
    if (argv[optind][1] == '-') {
      char *n = argv[optind] + 2; size_t l = 0;
      while (n[l] && n[l] != '=') l++;
      const struct option *f = nullptr; bool amb = false, exact = false;
      for (const struct option *o = lo; o->name; o++)
        if (!strncmp(o->name, n, l)) {
          if (strlen(o->name) == l) { f = o; exact = true; break; }
          if (!f) f = o; else if (f->has_arg != o->has_arg || f->flag != o->flag || f->val != o->val) amb = true;
        }
      optind++;
      if (!f || (amb && !exact)) return '?';
      if (n[l] == '=') { if (!f->has_arg) return '?'; optarg = n + l + 1; }
      else if (f->has_arg == 1) { if (optind < argc) optarg = argv[optind++]; else return '?'; }
      return f->val;
    }
    h_cur = argv[optind] + 1;
  }
  char c = *h_cur++;
  const char *t = strchr(so, c);
  if (!*h_cur) optind++;
  if (!t || c == ':' || c == ';') { optopt = c; return '?'; }
  if (t[1] == ':') {
    if (*h_cur) { optarg = h_cur; optind++; }
    else if (optind == argc) { optopt = c; h_cur = nullptr; return '?'; }
    else optarg = argv[optind++];
    h_cur = nullptr;
  }
  return c;
}
}
namespace clang { string getClangFullVersion() { return "clang"; } }
#endif
namespace {
struct Want {
  set<string> check_also, keep{"*.moc"}, dbg, exp;
  bool transitive = false, nodefault = false, pch = false, nocomm = false, upd = false, ns = false, nofwd = false, quoted = false, cxx17 = false;
  int verbose = 1, len = 80, prefix = 0, err = 0, always = 0, regex = 0;
  vector<string> maps;
  bool bad = false, mayabort = false;
};
enum Arg { NO, REQ, OPT };
struct Opt { const char *name; Arg arg; };
const Opt kOpts[] = {{"check_also", REQ}, {"keep", REQ}, {"transitive_includes_only", NO}, {"verbose", REQ}, {"mapping_file", REQ}, {"no_default_mappings", NO},
  {"prefix_header_includes", REQ}, {"pch_in_code", NO}, {"max_line_length", REQ}, {"comment_style", REQ}, {"no_comments", NO}, {"update_comments", NO},
  {"no_fwd_decls", NO}, {"quoted_includes_first", NO}, {"cxx17ns", NO}, {"error", OPT}, {"error_always", OPT}, {"debug", REQ}, {"regex", REQ}, {"experimental", REQ}};
const int kN = 20;
// decimal integer in int range, as strtol reads it
bool decint(const string &s, int *out) {
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  long v = 0;
  for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > 1l << 40) v = 1l << 40; }
  if (neg) v = -v;
  if (v > INT_MAX || v < INT_MIN) return false;
  *out = (int)v;
  return true;
}
void addlist(set<string> &s, const string &v) {
  string cur;
  for (size_t i = 0; i <= v.size(); i++) {
    if (i == v.size() || v[i] == ',') { if (!cur.empty()) s.insert(cur); cur.clear(); }
    else cur += v[i];
  }
}
// What the documentation says option k does.
void apply(Want &w, int k, bool has, const string &v) {
  switch (k) {
    case 0: w.check_also.insert(v); break;
    case 1: w.keep.insert(v); break;
    case 2: w.transitive = true; break;
    case 3: decint(v, &w.verbose); break;
    case 4: w.maps.push_back(v); break;
    case 5: w.nodefault = true; break;
    case 6: if (v == "add") w.prefix = 0; else if (v == "keep") w.prefix = 1; else if (v == "remove") w.prefix = 2; else w.bad = true; break;
    case 7: w.pch = true; break;
    case 8: decint(v, &w.len); if (w.len < 0) w.bad = w.mayabort = true; break;
    case 9: if (v == "none") w.nocomm = true; else if (v == "short") w.ns = false; else if (v == "long") w.ns = true; else w.bad = true; break;
    case 10: w.nocomm = true; break;
    case 11: w.upd = true; break;
    case 12: w.nofwd = true; break;
    case 13: w.quoted = true; break;
    case 14: w.cxx17 = true; break;
    case 15: if (!has) w.err = 1; else if (!decint(v, &w.err)) w.bad = true; break;
    case 16: if (!has) w.always = 1; else if (!decint(v, &w.always)) w.bad = true; break;
    case 17: addlist(w.dbg, v); break;
    case 18: if (v == "llvm") w.regex = 0; else if (v == "ecmascript") w.regex = 1; else w.bad = true; break;
    case 19: addlist(w.exp, v); break;
  }
}
void compare(const Want &w) {
  const CommandlineFlags &f = GlobalFlags();
  vp_assert(!w.bad, "a bad value or an unknown option is refused");
  vp_assert(f.check_also == w.check_also && f.keep == w.keep, "the path patterns given are exactly the ones stored");
  vp_assert(f.mapping_files == w.maps, "the mapping files given are stored in order");
  vp_assert(f.transitive_includes_only == w.transitive && f.no_default_mappings == w.nodefault && f.pch_in_code == w.pch && f.no_comments == w.nocomm &&
            f.update_comments == w.upd && f.comments_with_namespace == w.ns && f.no_fwd_decls == w.nofwd && f.quoted_includes_first == w.quoted &&
            f.cxx17ns == w.cxx17, "each switch is on exactly when its option was given");
  vp_assert(f.verbose == w.verbose && f.max_line_length == w.len, "numbers are taken as given");
  vp_assert(f.exit_code_error == w.err && f.exit_code_always == w.always, "exit codes are taken as given");
  vp_assert((int)f.prefix_header_include_policy == (w.prefix == 0 ? CommandlineFlags::kAdd : w.prefix == 1 ? CommandlineFlags::kKeep : CommandlineFlags::kRemove), "prefix-header policy is the one named");
  vp_assert((f.regex_dialect == RegexDialect::LLVM) == (w.regex == 0), "regex dialect is the one named");
  vp_assert(f.dbg_flags == w.dbg && f.exp_flags == w.exp, "list options hold exactly the comma-separated items");
  for (auto &d : w.dbg) vp_assert(f.HasDebugFlag(d.c_str()), "debug flag visible");
  for (auto &d : w.exp) vp_assert(f.HasExperimentalFlag(d.c_str()), "experimental flag visible");
}
char *dup(const string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
struct Args {
  vector<string> w{"iwyu"};
  void tool(const string &s) { w.push_back("-Xiwyu"); w.push_back(s); }
  OptionsParser *parse() {
    char **a = (char **)malloc(sizeof(char *) * (w.size() + 1));
    for (size_t i = 0; i < w.size(); i++) a[i] = dup(w[i]);
    a[w.size()] = nullptr;
    OptionsParser *p = new OptionsParser((int)w.size(), a);
    return p;
  }
};
string value(int k, size_t n) {
  switch (k) {
    case 0: case 1: return vp_str("v", 1, n, "*a_");
    case 4: return vp_str("v", 0, n, "a=- ");
    case 3: return vp_strn("v", 1, "0123456789");
    case 8: { static const char *t[] = {"", "1", "-"}; string d = t[vp_choose("pre", 0, 2)]; return d + vp_strn("v", 2, "0123456789"); }
    case 6: { static const char *t[] = {"add", "keep", "remove", "ad", "", "removed"}; string d = t[vp_choose("pre", 0, 5)]; if (!d.empty()) d[0] = vp_sym_byte("v"); return d; }
    case 9: { static const char *t[] = {"none", "short", "long", "lon", "", "shorts"}; string d = t[vp_choose("pre", 0, 5)]; if (!d.empty()) d[1] = vp_sym_byte("v"); return d; }
    case 18: { static const char *t[] = {"llvm", "ecmascript", "llv", "", "llvmx"}; string d = t[vp_choose("pre", 0, 4)]; if (!d.empty()) d[0] = vp_sym_byte("v"); return d; }
    case 15: case 16: { static const char *t[] = {"", "214748364", "-214748364", "9999999999999999999", "0x"}; return string(t[vp_choose("pre", 0, 4)]) + vp_str("v", 0, n, "-+ 0379x"); }
    case 17: case 19: return vp_str("v", 0, n + 1, ",ab");
  }
  return "";
}
}
// One option with a symbolic value, alone or followed by a second fixed one.
static void one(int k, Args &a, Want &w, size_t n) {
  if (kOpts[k].arg == NO) { a.tool(string("--") + kOpts[k].name); apply(w, k, false, ""); return; }
  bool has = kOpts[k].arg == REQ || vp_choose("has", 0, 1);
  if (!has) { a.tool(string("--") + kOpts[k].name); apply(w, k, false, ""); return; }
  string v = value(k, n);
  for (char c : v) vp_assume(c != 0);
  bool sep = kOpts[k].arg == REQ && vp_choose("sep", 0, 1);
  if (sep) { a.tool(string("--") + kOpts[k].name); a.tool(v); }
  else a.tool(string("--") + kOpts[k].name + "=" + v);
  apply(w, k, true, v);
}
static void go(Args &a, Want &w) {
  if (w.bad) g_expect_exit = 1;
  if (w.mayabort) vp_may_abort(true);
  a.parse();
  vp_out_u64("opt", GlobalFlags().exit_code_error * 1000 + GlobalFlags().max_line_length);
  compare(w);
}
extern "C" void h_option() {
  Args a; Want w;
  int k = vp_choose("k", 0, kN - 1);
  one(k, a, w, vp_param("N", 2));
  a.w.push_back("x.cc");
  go(a, w);
  if (k == 16 && w.always < 0) vp_cover("negative-exit");
  if (k == 17 && w.dbg.size() == 2) vp_cover("two-flags");
  if (k == 18 && w.regex) vp_cover("ecmascript");
}
// Two options in either order, possibly the same one twice.
extern "C" void h_two() {
  Args a; Want w;
  static const int cand[] = {0, 3, 4, 6, 9, 10, 15, 16, 17, 2, 12};
  int i = cand[vp_choose("i", 0, 10)], j = cand[vp_choose("j", 0, 10)];
  static const char *va[] = {"a", "5", "m1", "keep", "long", "", "7", "0", "x,y", "", ""};
  static const char *vb[] = {"b", "2", "m1", "remove", "short", "", "-3", "2", "y,z", "", ""};
  auto put = [&](int k, const char **t) {
    int ix = 0; while (cand[ix] != k) ix++;
    if (kOpts[k].arg == NO) { a.tool(string("--") + kOpts[k].name); apply(w, k, false, ""); }
    else { a.tool(string("--") + kOpts[k].name + "=" + t[ix]); apply(w, k, true, t[ix]); }
  };
  put(i, va);
  if (vp_choose("between", 0, 1)) a.w.push_back("-Iinc");
  put(j, vb);
  go(a, w);
  if (i == j) vp_cover("same-twice");
}
// Unknown and abbreviated option text.
extern "C" void h_unknown() {
  Args a; Want w;
  string t;
  if (vp_choose("lng", 0, 1)) {
    static const char *pre[] = {"--", "--no_", "--no_de", "--erro", "--pch_in_cod", "--cxx17n", "--e"};
    t = string(pre[vp_choose("pre", 0, 6)]) + vp_str("t", 0, vp_param("N", 2), "aefhkqrs_c=0");
    string n = t.substr(2);
    if (n.empty()) { a.tool(t); go(a, w); return; }   // "--" ends the options
    size_t e = n.find('=');
    string name = n.substr(0, e), v = e == string::npos ? "" : n.substr(e + 1);
    int hit = -1, cnt = 0; bool exact = false;
    for (int k = 0; k < kN; k++) {
      string o = kOpts[k].name;
      if (o == name) { hit = k; exact = true; }
      if (o.compare(0, name.size(), name) == 0) { cnt++; if (!exact) hit = k; }
    }
    if (cnt == 0 || (cnt > 1 && !exact)) w.bad = true;
    else if (e == string::npos && kOpts[hit].arg == REQ) w.bad = true;     // nothing follows
    else if (e != string::npos && kOpts[hit].arg == NO) w.bad = true;
    else apply(w, hit, e != string::npos, v);
    if (w.bad) vp_cover("refused"); else vp_cover("abbreviated");
  } else {
    // short options: only -v -c -m -d -n (and -r) exist
    t = "-" + vp_strn("t", 1, nullptr);
    vp_assume(t[1] != '-');
    w.bad = t[1] != 'n';
    if (!w.bad) w.nodefault = true;
    if (t[1] == 'r') vp_cover("short-r");
  }
  a.tool(t);
  go(a, w);
}
// Which words go where.
extern "C" void h_route() {
  size_t n = vp_choose("n", 0, vp_param("W", 4));
  Args a; Want w; vector<string> clang{"iwyu"};
  bool ends = false;
  size_t i = 0;
  vector<string> words;
  for (size_t j = 0; j < n; j++) {
    switch (vp_choose("w", 0, 5)) {
      case 0: words.push_back("-Xiwyu"); break;
      case 1: words.push_back("--no_comments"); break;
      case 2: words.push_back("--verbose=3"); break;
      case 3: words.push_back(vp_choose("hv", 0, 1) ? "--help" : "--version"); break;
      case 4: words.push_back(vp_strn("s", 2, nullptr)); break;
      default: words.push_back("x.cc");
    }
  }
  bool pastend = false;
  vector<string> tool;
  for (; i < n; i++) {
    if (words[i] == "-Xiwyu" && i + 1 < n) tool.push_back(words[++i]);
    else if (words[i] == "--help" || words[i] == "--version") ends = true;
    else clang.push_back(words[i]);
  }
  for (auto &t : tool) {
    if (t[0] != '-' || t == "--verbose=3" || t == "--no_comments") continue;
    vp_assume(t == "-Xiwyu" || t == "--help" || t == "--version");   // other texts: h_unknown
    w.bad = true;
  }
  for (auto &t : tool) { if (t == "--verbose=3") w.verbose = 3; if (t == "--no_comments") w.nocomm = true; }
  for (auto &s : words) a.w.push_back(s);
  if (ends) { g_expect_exit = 0; vp_cover("help"); }
  else if (w.bad) g_expect_exit = 1;
  OptionsParser *p = a.parse();
  vp_assert(!ends, "asking for help or version ends the program");
  compare(w);
  vp_assert(p->clang_argc() == (int)clang.size(), "the compiler gets exactly the words not meant for the tool");
  for (size_t k = 0; k < clang.size(); k++) vp_assert(string(p->clang_argv()[k]) == clang[k], "compiler words keep their text and order");
  vp_assert(p->clang_argv()[clang.size()] == nullptr, "the compiler's word list is terminated");
  if (tool.size() == 2 && clang.size() == 1) vp_cover("two-tool-words");
  if (n && words.back() == "-Xiwyu" && tool.size() * 2 + clang.size() - 1 == n && clang.back() == "-Xiwyu") vp_cover("dangling-Xiwyu");
}
