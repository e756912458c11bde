// Response files and the words handed to the compiler driver.
#include "vp.h"
#include <map>
#include <string>
#include <vector>
#include "iwyu_driver.cc"
using std::string; using std::vector; using std::map;
static map<string, string> g_files;
namespace {
struct FakeBuf : llvm::MemoryBuffer {
  FakeBuf(const string &s) {
    char *p = (char *)malloc(s.size() + 1);     // exactly the text and its terminator
    memcpy(p, s.c_str(), s.size() + 1);
    BufferStart = p; BufferEnd = p + s.size();
  }
  ~FakeBuf() override { free((void *)BufferStart); }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; }
};
}
namespace llvm {
// The only source of file text: an in-memory table.
ErrorOr<std::unique_ptr<MemoryBuffer>> MemoryBuffer::getFile(const Twine &N, bool, bool, bool, std::optional<Align>) {
  string n = N.str();
  for (auto &e : g_files) if (e.first == n) return std::unique_ptr<MemoryBuffer>(new FakeBuf(e.second));
  return std::make_error_code(std::errc::no_such_file_or_directory);
}
}
static vector<string> g_seen; static bool g_built;
static void (*g_after)();
namespace clang { namespace driver {
Compilation *Driver::BuildCompilation(llvm::ArrayRef<const char *> a) {
  for (const char *x : a) g_seen.push_back(x);
  g_built = true;
  g_after();
  vp_end();
  return nullptr;
}
#if VP_SYMBOLIC
std::string Driver::GetResourcesPath(llvm::StringRef) { return "/res"; }
Driver::Driver(llvm::StringRef E, llvm::StringRef T, DiagnosticsEngine &D, std::string, llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem>) : Diags(D), Saver(Alloc) {}
#endif
} }
#if VP_SYMBOLIC
namespace clang {
llvm::IntrusiveRefCntPtr<DiagnosticsEngine> CompilerInstance::createDiagnostics(llvm::vfs::FileSystem &, DiagnosticOptions *, DiagnosticConsumer *, bool, const CodeGenOptions *) { return nullptr; }
}
namespace llvm {
MemoryBuffer::~MemoryBuffer() {}
IntrusiveRefCntPtr<vfs::FileSystem> vfs::getRealFileSystem() { return nullptr; }
namespace sys { std::string getDefaultTargetTriple() { return "x86_64-linux-gnu"; }
namespace fs { std::string getMainExecutable(const char *, void *) { return "/bin/iwyu"; } } }
}
#endif
using namespace include_what_you_use;
// ---- reference
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static vector<string> words(const string &t) {
  vector<string> r; size_t i = 0, n = t.size();
  for (;;) {
    while (i < n && blank(t[i])) i++;
    if (i == n) return r;
    string w; bool any = false;
    while (i < n && !blank(t[i])) {
      char c = t[i++];
      if (c == '"' || c == '\'') {
        while (i < n && t[i] != c) { if (t[i] == '\\') { i++; if (i == n) break; } w += t[i++]; }
        if (i < n) i++;
      } else if (c == '\\') { if (i < n) w += t[i++]; }
      else w += c;
    }
    if (!w.empty()) r.push_back(w);
  }
}
static void expand(const string &arg, vector<string> &out, vector<string> &active) {
  string name = arg.substr(1);
  bool busy = false;
  for (auto &a : active) busy |= a == name;
  auto it = g_files.find(name);
  if (busy || it == g_files.end()) { if (busy) vp_cover("self-reference"); else vp_cover("unreadable"); out.push_back(arg); return; }
  active.push_back(name);
  for (auto &w : words(it->second)) { if (w[0] == '@') expand(w, out, active); else out.push_back(w); }
  active.pop_back();
}
static void run(const vector<string> &args) {
  vector<string> want, active;
  for (auto &a : args) { if (!a.empty() && a[0] == '@') expand(a, want, active); else want.push_back(a); }
  const char **av = (const char **)malloc(sizeof(char *) * args.size());
  for (size_t i = 0; i < args.size(); i++) { char *p = (char *)malloc(args[i].size() + 1); memcpy(p, args[i].c_str(), args[i].size() + 1); av[i] = p; }
  llvm::SmallVector<const char *, 256> got; std::set<string> saved;
  ExpandArgv((int)args.size(), av, got, saved);
  vector<string> g;
  for (const char *x : got) g.push_back(x);
  vp_out("got", g);
  vp_assert(g.size() == want.size(), "response files expand to as many words as their text holds");
  for (size_t i = 0; i < g.size() && i < want.size(); i++) vp_assert(g[i] == want[i], "each expanded word has the text quoted or escaped in the file, in place");
}
// Text of one file, symbolic.
extern "C" void h_text() {
  g_files["f"] = vp_str("t", 0, vp_param("N", 5), "a \n'\"\\");
  if (g_files["f"].find('"') != string::npos && g_files["f"].find('\\') != string::npos) vp_cover("quote-and-escape");
  if (!g_files["f"].empty() && g_files["f"].back() == '\\') vp_cover("ends-in-backslash");
  run({"iwyu", "@f", "x.cc"});
}
// Any byte in a word.
extern "C" void h_bytes() {
  g_files["f"] = "a" + vp_strn("t", vp_param("N", 2), nullptr) + "b";
  run({"iwyu", "@f"});
}
// Nested and self-referring files.
extern "C" void h_nested() {
  g_files["f"] = vp_str("f", 0, vp_param("N", 4), "@fg ");
  g_files["g"] = vp_str("g", 0, vp_param("M", 3), "@fa ");
  if (g_files["f"] == "@g g" && g_files["g"] == "a a") vp_cover("nested");
  run({"iwyu", "@f", "@g"});
}
// Arguments on the command line itself.
extern "C" void h_argv() {
  g_files["f"] = "p q";
  size_t n = vp_choose("n", 0, 3);
  vector<string> a{"iwyu"};
  for (size_t i = 0; i < n; i++) { if (vp_choose("isf", 0, 1)) a.push_back("@f"); else a.push_back(vp_str("a", 0, 2, "@f\\ \"")); }
  if (n == 3 && a[2] == "@f") vp_cover("middle");
  run(a);
}
// The whole path to the driver: extra words go before "--", -save-temps is dropped, all else is kept in order.
static vector<string> g_in;
static void after() {
  vector<string> base; bool pre = false, res = false;
  for (auto &a : g_in) {
    if (a.compare(0, 11, "-save-temps") == 0 || a.compare(0, 12, "--save-temps") == 0) continue;
    base.push_back(a);
  }
  for (auto &a : base) { if (a == "-E" || a == "/E" || a == "/EP" || a == "/P") pre = true; if (a == "-resource-dir") res = true; }
  size_t pos = 0;
  while (pos < base.size() && base[pos] != "--") pos++;
  size_t extra = g_seen.size() - base.size();
  vp_out_u64("extra", extra);
  vp_assert(g_seen.size() >= base.size(), "no word is lost on the way to the driver");
  for (size_t i = 0; i < pos; i++) vp_assert(g_seen[i] == base[i], "words before -- reach the driver in order");
  for (size_t i = pos; i < base.size(); i++) vp_assert(g_seen[i + extra] == base[i], "words from -- on reach the driver in order, after the added ones");
  bool syn = false, rd = false;
  for (size_t i = pos; i < pos + extra; i++) { if (g_seen[i] == "-fsyntax-only") syn = true; if (g_seen[i] == "-resource-dir") rd = true; }
  vp_assert(syn == !pre, "code generation is switched off exactly unless only preprocessing was asked for");
  vp_assert(!(rd && res), "a resource directory given by the user is not overridden");
  if (pre) vp_cover("preprocess"); if (res) vp_cover("resource"); if (pos < base.size()) vp_cover("dashdash"); if (base.size() < g_in.size()) vp_cover("savetemps");
}
extern "C" void h_driver() {
  size_t n = vp_choose("n", 1, vp_param("W", 3));
  g_in.push_back("iwyu");
  static const char *t[] = {"--", "-resource-dir", "-save-temps=obj", "--save-temps", "-E", "a.cc"};
  for (size_t i = 0; i < n; i++) {
    size_t k = vp_choose("w", 0, 6);
    g_in.push_back(k < 6 ? t[k] : vp_choose("l", 0, 1) ? vp_strn("s", 2, "-/EPa") : "/E" + vp_strn("s", 1, "PQ"));
  }
  const char **av = (const char **)malloc(sizeof(char *) * g_in.size());
  for (size_t i = 0; i < g_in.size(); i++) { char *p = (char *)malloc(g_in[i].size() + 1); memcpy(p, g_in[i].c_str(), g_in[i].size() + 1); av[i] = p; }
  g_after = after;
  ExecuteAction((int)g_in.size(), av, nullptr);
  vp_assert(false, "the driver is asked to build the compilation");
}
