// Visibility statements, friends, automatic rules and mapping files.
#include "vp.h"
#include <algorithm>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/YAMLParser.h"
#include "fakeclang.h"
#include "iwyu_include_picker.h"
#include "iwyu_path_util.h"
#include "iwyu_regex.h"
#include "iwyu_verrs.h"
using namespace include_what_you_use;
using std::string; using std::vector; using std::map; using std::pair;
typedef llvm::yaml::Node YNode;
// ---- mapping files: an abstract document per file
struct Item { string directive; int shape; vector<string> val; };   // shape 0: sequence, 1: scalar, 2: mapping
struct Doc { bool array = true; vector<pair<int, vector<Item>>> entries; };  // entry kind 0: object, 1: scalar
static map<string, Doc> *g_docs;
static int g_errors;
static string jstr(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static string render(const Doc &d) {
  string r = d.array ? "[" : "{\"x\": [";
  bool f1 = true;
  for (auto &e : d.entries) {
    if (!f1) r += ","; f1 = false;
    if (e.first) { r += "\"s\""; continue; }
    r += "{";
    bool f2 = true;
    for (auto &i : e.second) {
      if (!f2) r += ","; f2 = false;
      r += jstr(i.directive) + ": ";
      if (i.shape == 1) r += jstr(i.val.empty() ? "" : i.val[0]);
      else if (i.shape == 2) r += "{\"x\": \"y\"}";
      else { r += "["; for (size_t k = 0; k < i.val.size(); k++) r += (k ? "," : "") + jstr(i.val[k]); r += "]"; }
    }
    r += "}";
  }
  return r + (d.array ? "]" : "]}");
}
static string key(const llvm::Twine &t) { return t.str(); }
namespace {
struct Buf : llvm::MemoryBuffer {
  Buf(const string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); BufferStart = p; BufferEnd = p + s.size(); }
  ~Buf() override { free((void *)BufferStart); }
  llvm::StringRef getBufferIdentifier() const override { return "m"; }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; }
};
}
namespace llvm {
ErrorOr<std::unique_ptr<MemoryBuffer>> MemoryBuffer::getFile(const Twine &N, bool, bool, bool, std::optional<Align>) {
  auto i = g_docs->find(key(N));
  if (i == g_docs->end()) return std::make_error_code(std::errc::no_such_file_or_directory);
#if VP_SYMBOLIC
  return std::unique_ptr<MemoryBuffer>(new Buf(i->first));
#else
  return std::unique_ptr<MemoryBuffer>(new Buf(render(i->second)));
#endif
}
namespace sys { namespace fs {
std::error_code access(const Twine &P, AccessMode) {
  if (g_docs->count(key(P))) return std::error_code();
  return std::make_error_code(std::errc::no_such_file_or_directory);
}
} }
}
#if VP_SYMBOLIC
void h_yaml_error() { g_errors++; }
YNode *h_yaml_root(llvm::StringRef t) {
  const Doc &d = (*g_docs)[t.str()];
  if (!d.array) { YNode *m = new YNode(YNode::NK_Mapping); return m; }
  YNode *r = new YNode(YNode::NK_Sequence);
  for (auto &e : d.entries) {
    if (e.first) { r->kids.push_back(new YNode(YNode::NK_Scalar, "s")); continue; }
    YNode *m = new YNode(YNode::NK_Mapping);
    for (auto &i : e.second) {
      YNode *kv = new YNode(YNode::NK_KeyValue);
      kv->kids.push_back(new YNode(YNode::NK_Scalar, i.directive));
      YNode *v;
      if (i.shape == 1) v = new YNode(YNode::NK_Scalar, i.val.empty() ? string() : i.val[0]);
      else if (i.shape == 2) v = new YNode(YNode::NK_Mapping);
      else { v = new YNode(YNode::NK_Sequence); for (auto &s : i.val) v->kids.push_back(new YNode(YNode::NK_Scalar, s)); }
      kv->kids.push_back(v);
      m->kids.push_back(kv);
    }
    r->kids.push_back(m);
  }
  return r;
}
namespace llvm {
MemoryBuffer::~MemoryBuffer() {}
MemoryBufferRef MemoryBuffer::getMemBufferRef() const { return MemoryBufferRef(getBuffer(), "m"); }
SourceMgr::SrcBuffer::~SrcBuffer() {}
}
#else
namespace llvm { namespace yaml {
void Stream::printError(Node *, const Twine &, SourceMgr::DiagKind) { g_errors++; }
} }
#endif
static IncludePicker *picker() { return new IncludePicker(RegexDialect::LLVM, CStdLib::None, CXXStdLib::None); }
static vector<string> cand(const IncludePicker &p, const string &path) { vector<string> r; for (auto &m : p.GetCandidateHeadersForFilepath(path)) r.push_back(m.quoted_include); return r; }
static vector<string> sym(const IncludePicker &p, const string &s) { vector<string> r; for (auto &m : p.GetCandidateHeadersForSymbol(s)) r.push_back(m.quoted_include); return r; }
// ---- reference for mapping files
struct Op { bool symbol; string from, to; int fv, tv; };
static int visOf(const string &s) { return s == "private" ? kPrivate : s == "public" ? kPublic : 0; }
static bool quoted(const string &s) { return s.size() >= 2 && ((s[0] == '<' && s.back() == '>') || (s[0] == '"' && s.back() == '"')); }
static string dirOf(const string &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static void apply(const string &path, const vector<string> &search, vector<string> up, vector<Op> *ops, int *errors, int *self) {
  if (std::find(up.begin(), up.end(), path) != up.end()) { ++*self; return; }
  if (!g_docs->count(path)) return;
  up.push_back(path);
  const Doc d = (*g_docs)[path];
  if (!d.array) { ++*errors; return; }
  vector<string> s2 = search;
  if (std::find(s2.begin(), s2.end(), dirOf(path)) == s2.end()) s2.push_back(dirOf(path));
  for (auto &e : d.entries) {
    if (e.first) { ++*errors; return; }
    for (auto &i : e.second) {
      if (i.directive == "ref") {
        if (i.shape != 1 || i.val.empty() || i.val[0].empty()) { ++*errors; return; }
        string f = i.val[0], full = f;
        if (!g_docs->count(f) && f[0] != '/') for (auto &b : s2) if (g_docs->count(b + (b == "/" ? "" : "/") + f)) { full = b + (b == "/" ? "" : "/") + f; break; }
        apply(full, s2, up, ops, errors, self);
        continue;
      }
      bool sy = i.directive == "symbol";
      if (!sy && i.directive != "include") { ++*errors; return; }
      const vector<string> &v = i.val;
      if (i.shape != 0 || v.size() != 4 || !visOf(v[3]) || !quoted(v[2])) { ++*errors; return; }
      if (!sy && (!visOf(v[1]) || !(quoted(v[0]) || (!v[0].empty() && v[0][0] == '@')))) { ++*errors; return; }
      ops->push_back({sy, v[0], v[2], visOf(v[1]), visOf(v[3])});
    }
  }
}
static bool consistent(const vector<Op> &ops) {
  map<string, int> vis;
  for (auto &o : ops) {
    if (!o.symbol) { int &v = vis[o.from]; if (v && v != o.fv) return false; v = o.fv; }
    int &w = vis[o.to]; if (w && w != o.tv) return false; w = o.tv;
  }
  return true;
}
static void run(const string &file) {
  SetVerboseLevel(-1);
  vector<Op> ops; int errors = 0, self = 0;
  apply(file, {}, {}, &ops, &errors, &self);
  vp_assume(consistent(ops));
  IncludePicker *p = picker(), *q = picker();
  g_errors = 0;
  p->AddMappingsFromFile(file);
  vp_out_u64("errors", g_errors);
  vp_assert(g_errors == errors, "every malformed entry met is reported, and nothing else");
  for (auto &o : ops) {
    if (o.symbol) q->AddSymbolMapping(o.from, MappedInclude(o.to), (IncludeVisibility)o.tv);
    else q->AddIncludeMapping(o.from, (IncludeVisibility)o.fv, MappedInclude(o.to), (IncludeVisibility)o.tv);
  }
  for (IncludePicker *x : {p, q}) {
    x->AddDirectInclude("/m/u.cc", "/ax", "\"ax\"");
    x->FinalizeAddedIncludes();
  }
  vp_cover("file");
  if (errors) vp_cover("error"); if (self) vp_cover("self"); if (ops.size() > 1) vp_cover("two"); if (ops.size() == 1 && errors) vp_cover("one-then-error");
  for (const char *n : {"/a", "/b", "/ax", "/c1", "/c2"}) {
    vector<string> x = cand(*p, n), y = cand(*q, n);
    vp_out(n, x);
    vp_assert(x == y, "include entries take effect exactly as written");
  }
  for (const char *n : {"a", "\"/a\"", ""}) vp_assert(sym(*p, n) == sym(*q, n), "symbol entries take effect exactly as written");
}
static string visStr(const char *name) { static const char *v[] = {"private", "public", "Public", ""}; return v[vp_choose(name, 0, 3)]; }
static Item good(const string &from, const string &to) { return Item{"include", 0, {from, "private", to, "public"}}; }
// One entry, every field symbolic; optionally a well-formed neighbour before and after it.
extern "C" void h_entry() {
  g_docs = new map<string, Doc>;
  Item it;
  static const char *dirs[] = {"symbol", "include", "ref", "Symbol", ""};
  it.directive = dirs[vp_param("D", 0)];
  it.shape = vp_choose("shape", 0, 2);
  size_t n = it.shape ? 1 : vp_choose("n", 0, 5);
  if (it.shape == 1) { it.val.push_back(vp_strn("w", vp_choose("wl", 0, 1), "ax")); }
  else if (it.shape == 0) for (size_t i = 0; i < n; i++) {
    if (n != 4 || it.directive == "ref" || vp_param("D", 0) > 2) { it.val.push_back("x"); continue; }
    if (i == 1) it.val.push_back(visStr("fv"));
    else if (i == 3) it.val.push_back(visStr("tv"));
    else if (i == 0) it.val.push_back(vp_choose("long", 0, 1) ? vp_strn("f", 1, "\"<@a") + (vp_choose("rx", 0, 1) ? "\"/a.\"" : "/a") + vp_strn("g", 1, "\">a") : vp_str("f1", 0, 1, "@a\""));
    else it.val.push_back(vp_choose("longt", 0, 1) ? vp_strn("t", 1, "\"<@b") + "/b" + vp_strn("u", 1, "\">b") : vp_str("t1", 0, 2, "\"<"));
  }
  Doc d;
  int nb = vp_choose("neighbours", 0, 2);
  if (nb == 1) d.entries.push_back({0, {good("\"/c1\"", "\"/d\"")}});
  d.entries.push_back({0, {it}});
  if (nb == 2) d.entries.push_back({0, {good("\"/c2\"", "\"/d\"")}});
  (*g_docs)["/m/a.imp"] = d;
  run("/m/a.imp");
}
// Shapes of a file: several entries, several directives in one object, bad roots and entries.
extern "C" void h_shape() {
  g_docs = new map<string, Doc>;
  Doc d;
  d.array = vp_choose("array", 0, 3) != 0;
  size_t n = vp_choose("n", 0, 3);
  static const char *fr[] = {"\"/a\"", "\"/b\"", "\"/c1\""};
  for (size_t i = 0; i < n; i++) {
    int kind = vp_choose("kind", 0, 4);
    string to = "\"/d\"";
    to[2] = (char)vp_sym_char("to", "dbe");
    if (kind == 0) d.entries.push_back({1, {}});
    else if (kind == 1) d.entries.push_back({0, {}});
    else if (kind == 2) d.entries.push_back({0, {Item{"include", 0, {fr[i], "public", to, "public"}}}});
    else if (kind == 3) d.entries.push_back({0, {Item{"symbol", 0, {"a", "x", to, "public"}}, Item{"include", 0, {fr[i], "public", to, "public"}}}});
    else d.entries.push_back({0, {Item{"bad", 0, {"a"}}, Item{"include", 0, {fr[i], "public", to, "public"}}}});
  }
  (*g_docs)["/m/a.imp"] = d;
  run("/m/a.imp");
}
// Files referring to others, to missing ones and to themselves.
extern "C" void h_ref() {
  g_docs = new map<string, Doc>;
  static const char *names[] = {"/m/a.imp", "/m/s/b.imp", "/m/c.imp", "/m/s/c.imp"};
  static const char *fr[] = {"\"/a\"", "\"/b\"", "\"/c1\"", "\"/c2\""};
  static const char *refs[] = {"s/b.imp", "c.imp", "/m/a.imp", "none.imp", "a.imp", "b.imp", ""};
  for (int i = 0; i < 4; i++) {
    if (i >= 2 && !vp_choose("exists", 0, 1)) continue;
    Doc d;
    int k = vp_choose("what", 0, i < 2 ? 4 : 2);
    if (k == 1 || k == 3) d.entries.push_back({0, {Item{"ref", 1, {refs[vp_choose("ref", 0, i < 2 ? 6 : 2)]}}}});
    if (k == 4) d.entries.push_back({1, {}});
    if (k != 1) d.entries.push_back({0, {Item{"include", 0, {fr[i], "private", "\"/z\"", "public"}}}});
    if (k == 2 && i < 2) d.entries.push_back({0, {Item{"ref", 1, {refs[vp_choose("ref2", 0, 1)]}}}});
    (*g_docs)[names[i]] = d;
  }
  run("/m/a.imp");
}
// ---- visibility statements
extern "C" void h_vis() {
  SetHeaderSearchPaths({HeaderSearchPath("/i/", HeaderSearchPath::kUserPath)});
  IncludePicker *p = picker();
  static const char *path[] = {"/i/x.h", "/q/y.h"}, *q[] = {"\"x.h\"", "\"/q/y.h\""};
  int inc[2] = {}, pp[2] = {};
  size_t n = vp_choose("n", 0, vp_param("K", 3));
  bool stop = false;
  auto mark = [&](int *slot, int v) { if (*slot && *slot != v) stop = true; else if (!*slot) *slot = v; };
  for (size_t i = 0; i < n && !stop; i++) {
    int op = vp_choose("op", 0, 3), h = vp_choose("h", 0, 1);
    IncludeVisibility a = (IncludeVisibility)vp_sym_range("a", kPublic, kPrivate), b = (IncludeVisibility)vp_sym_range("b", kPublic, kPrivate);
    if (op == 0) mark(&inc[h], kPrivate);
    else if (op == 1) mark(&pp[h], kPrivate);
    else if (op == 2) { mark(&inc[h], a); mark(&inc[1 - h], b); }
    else mark(&inc[h], a);
    if (stop) vp_may_abort(true);    // contradictory statements end the program
    if (op == 0) p->MarkIncludeAsPrivate(q[h]);
    else if (op == 1) p->MarkPathAsPrivate(path[h]);
    else if (op == 2) p->AddIncludeMapping(q[h], a, MappedInclude(q[1 - h]), b);
    else p->AddSymbolMapping("s", MappedInclude(q[h]), a);
    vp_assert(!stop, "contradictory statements about one header are not passed over");
  }
  p->FinalizeAddedIncludes();
  for (int h = 0; h < 2; h++) {
    bool pub = inc[h] ? inc[h] == kPublic : false;
    bool got = p->IsPublic(fake_file(path[h]));
    vp_out_u64("public", got);
    vp_assert(got == pub, "a header counts as declared public exactly when a statement names it public");
    bool priv = inc[h] ? inc[h] == kPrivate : pp[h] == kPrivate;
    vector<string> c = cand(*p, path[h]);
    vp_assert(priv || c[0] == q[h], "a header not stated to be private provides itself");
    if (priv) vp_cover(inc[h] ? "private-include" : "private-path");
    if (inc[h] == kPublic && pp[h]) vp_cover("public-over-path");
  }
}
// ---- friends
extern "C" void h_friend() {
  bool ecma = vp_choose("ecma", 0, 1);
  IncludePicker p(ecma ? RegexDialect::ECMAScript : RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  SetHeaderSearchPaths({HeaderSearchPath("/i/", HeaderSearchPath::kUserPath)});
  string dir = vp_choose("in-path", 0, 1) ? "/i/" : "/q/";
  string base = vp_strn("n", 2, "ab/");
  vp_assume(base[0] != '/' && base[1] != '/');
  string user = dir + base;
  bool hin = vp_choose("h-in-path", 0, 1);
  string hdr = hin ? "/i/h" : "/q/h", other = hin ? "/i/o" : "/q/o";
  string uq = dir == "/i/" ? "\"" + base + "\"" : "\"" + user + "\"";    // the name patterns are about
  string hq = hin ? "\"h\"" : "\"/q/h\"";
  int k = vp_choose("pat", 0, 4); bool in;
  string pat;
  switch (k) {
    case 0: pat = "a.*"; in = dir == "/i/" && base[0] == 'a'; break;
    case 1: pat = ".*b"; in = base[1] == 'b'; break;
    case 2: pat = "/q/a.*"; in = dir == "/q/" && base[0] == 'a'; break;
    case 3: pat = "aa|.*bb"; in = (dir == "/i/" && base == "aa") || base == "bb"; break;
    default: pat = ".*"; in = true;
  }
  p.AddFriendRegex(hdr, "\"(" + pat + ")\"");
  bool both = vp_choose("both", 0, 1);
  if (both) p.AddFriendRegex(hdr, "\"(zz)\"");
  int how = vp_choose("how", 0, 1);
  if (how) { p.MarkIncludeAsPrivate(hq); p.AddMapping(hq, MappedInclude("\"pub\"")); }
  else { p.MarkPathAsPrivate(hdr); p.AddMapping(hq, MappedInclude("\"pub\"")); }
  p.AddDirectInclude("<built-in>", user, "");
  bool included = vp_choose("included", 0, 1);
  if (included) p.AddDirectInclude(user, hdr, "\"../h\"");
  p.FinalizeAddedIncludes();
  vector<string> got = p.GetMappedPublicHeaders("none", user, hdr);
  vp_out("got", got);
  if (in) {
    vp_assert(got.size() == 1 && got[0] != "\"pub\"", "a friend is given the private header itself");
    if (!included) vp_assert(got[0] == hq || (!hin && dir == "/q/" && got[0] == "\"h\""), "a friend is given the private header under its own name");
    vp_cover(dir == "/i/" ? "friend" : "friend-outside");
  } else {
    vp_assert(got == vector<string>{"\"pub\""}, "others are given the public header only");
    vp_cover("stranger");
  }
  vector<string> oth = p.GetMappedPublicHeaders("none", user, other);
  vp_assert(oth.size() == 1 && (oth[0] == "\"o\"" || oth[0] == "\"/q/o\""), "friendship says nothing about other headers");
}
// Files below an internal/ directory are private to the directory around it.
extern "C" void h_internal() {
  bool ecma = vp_choose("ecma", 0, 1);
  IncludePicker p(ecma ? RegexDialect::ECMAScript : RegexDialect::LLVM, CStdLib::None, CXXStdLib::None);
  SetHeaderSearchPaths({HeaderSearchPath("/i/", HeaderSearchPath::kUserPath)});
  string d = vp_strn("d", vp_param("L", 2), "a+(.");
  vp_assume(d[0] != '.' && d.back() != '.');
  string e = vp_strn("e", vp_param("L", 2), "a+(.");
  vp_assume(e[0] != '.' && e.back() != '.');
  string hdr = "/i/" + d + "/internal/h", user = "/i/" + e + "/u", pub = "/i/" + d + "/p";
  p.AddDirectInclude("<built-in>", user, "");
  p.AddDirectInclude(user, pub, "\"x\"");
  p.AddDirectInclude(pub, hdr, "\"y\"");
  p.FinalizeAddedIncludes();
  vector<string> got = p.GetMappedPublicHeaders("none", user, hdr);
  vp_out("got", got);
  if (d == e) { vp_assert(got == vector<string>{"\"" + d + "/internal/h\""}, "files around an internal directory may include its headers"); vp_cover("internal-friend"); }
  else { vp_assert(got == vector<string>{"\"x\""}, "files elsewhere are given the headers that include the internal one"); vp_cover("internal-stranger"); }
}
extern "C" void h_asm() {
  IncludePicker *p = picker();
  SetHeaderSearchPaths({HeaderSearchPath("/s/", HeaderSearchPath::kSystemPath), HeaderSearchPath("/u/", HeaderSearchPath::kUserPath)});
  string a = vp_strn("a", 1, "xg"), rest = vp_strn("r", 3, "ab/");
  vp_assume(rest[0] != '/' && rest[2] != '/');
  bool sys = vp_choose("sys", 0, 1);
  string hdr = (sys ? "/s/asm-" : "/u/asm-") + a + "/" + rest;
  p->AddDirectInclude("/u/m", hdr, "");
  p->FinalizeAddedIncludes();
  vector<string> got = cand(*p, hdr);
  vp_out("got", got);
  vp_assert(got == vector<string>{sys ? "<asm/" + rest + ">" : "\"asm-" + a + "/" + rest + "\""}, "architecture headers are replaced by the generic ones");
  vp_cover(sys ? "asm" : "asm-user");
}
