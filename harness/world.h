// A source manager over texts made up by the harness, and the tool's globals on top of it.
// The tables that Clang's inline functions read are genuine; the out-of-line functions are defined here.
#pragma once
#include "vp.h"
#include <cstdlib>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>
#include "clang/Basic/FileEntry.h"
#include "clang/Basic/SourceLocation.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Driver/ToolChain.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Lex/HeaderSearch.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Lex/Token.h"
#include "llvm/Support/raw_ostream.h"
#include "fakeclang.h"
#include "iwyu_globals.h"
#include "iwyu_include_picker.h"
#include "iwyu_location_util.h"
#include "iwyu_output.h"
#include "iwyu_path_util.h"
#include "iwyu_preprocessor.h"
#include "iwyu_verrs.h"
using clang::FileID;
using clang::OptionalFileEntryRef;
using clang::SourceLocation;
using clang::SourceManager;
using clang::SourceRange;
struct WFile {
  std::string path, text;
  bool system = false;
  clang::FileEntryRef ref;
  char *buf;
};
struct WEntry { int file; unsigned base; SourceLocation includer; };  // one inclusion of a file
static const int WMAX = 12;
static std::vector<WFile> *w_files;
static std::vector<WEntry> *w_entries;            // index = FileID
static SourceManager *w_sm;
static std::string *w_err;                        // everything written to the error stream
static char *w_fe;                                // file entries, in the order of their creation
static unsigned w_next = 1;
static int w_main = -1;
namespace llvm {
raw_fd_ostream &errs() {
  static raw_string_ostream *o;
  if (!o) { if (!w_err) w_err = new std::string; o = new raw_string_ostream(*w_err); o->SetUnbuffered(); }
  return *reinterpret_cast<raw_fd_ostream *>(o);
}
}
// slot: place in the order of addresses, which decides the iteration order of the tool's sets
static int w_file(const std::string &path, const std::string &text = "", bool system = false, int slot = -1) {
  if (slot < 0) slot = w_files->size();
  auto *fe = (clang::FileEntry *)(w_fe + slot * sizeof(clang::FileEntry));
  new (&fe->RealPathName) std::string();
  fe->UID = slot;
  typedef clang::FileEntryRef::MapEntry ME;
  void *mem = malloc(sizeof(ME) + path.size() + 1);
  static clang::DirectoryEntryRef dir = fake_dir(".");
  auto *me = new (mem) ME(path.size(), clang::FileEntryRef::MapValue(*fe, dir));
  memcpy((char *)mem + sizeof(ME), path.data(), path.size());
  ((char *)mem)[sizeof(ME) + path.size()] = 0;
  char *buf = (char *)malloc(text.size() + 1);
  memcpy(buf, text.data(), text.size());
  buf[text.size()] = 0;
  w_files->push_back(WFile{path, text, system, clang::FileEntryRef(*me), buf});
  return w_files->size() - 1;
}
static OptionalFileEntryRef w_ref(int f) { return OptionalFileEntryRef((*w_files)[f].ref); }
// A new inclusion of file f; returns its FileID number.
static int w_enter(int f, SourceLocation includer = SourceLocation()) {
  unsigned base = w_next;
  w_next += (*w_files)[f].text.size() + 1;
  auto *cc = (clang::SrcMgr::ContentCache *)calloc(1, sizeof(clang::SrcMgr::ContentCache));
  new (&cc->OrigEntry) OptionalFileEntryRef((*w_files)[f].ref);
  new (&cc->ContentsEntry) OptionalFileEntryRef((*w_files)[f].ref);
  clang::SrcMgr::SLocEntry e;
  e.Offset = base; e.IsExpansion = 0;
  e.File = clang::SrcMgr::FileInfo::get(includer, *cc, (*w_files)[f].system ? clang::SrcMgr::C_System : clang::SrcMgr::C_User, (*w_files)[f].path);
  w_sm->LocalSLocEntryTable.push_back(e);
  w_sm->NextLocalOffset = w_next;
  w_entries->push_back(WEntry{f, base, includer});
  return w_entries->size() - 1;
}
static SourceLocation w_loc(int id, size_t off) { return SourceLocation::getFromRawEncoding((*w_entries)[id].base + off); }
static FileID w_id(int id) { return FileID::get(id); }
static int w_find(SourceLocation l) {
  unsigned o = l.getRawEncoding();
  for (size_t i = w_entries->size(); i-- > 1;)
    if (o >= (*w_entries)[i].base) return o <= (*w_entries)[i].base + (*w_files)[(*w_entries)[i].file].text.size() ? (int)i : 0;
  return 0;
}
static unsigned w_line(SourceLocation l) {
  int id = w_find(l);
  if (!id) return 0;
  unsigned n = 1, o = l.getRawEncoding() - (*w_entries)[id].base;
  const std::string &t = (*w_files)[(*w_entries)[id].file].text;
  for (unsigned i = 0; i < o; i++) n += t[i] == '\n';
  return n;
}
static int w_depth(int id) { int d = 0; while (id && (*w_entries)[id].includer.isValid()) { id = w_find((*w_entries)[id].includer); d++; } return d; }
namespace clang {
FileID SourceManager::getFileIDSlow(SourceLocation::UIntTy o) const { return FileID::get(w_find(SourceLocation::getFromRawEncoding(o))); }
unsigned SourceManager::getSpellingLineNumber(SourceLocation l, bool *inv) const { unsigned n = w_line(l); if (inv) *inv = !n; return n; }
unsigned SourceManager::getExpansionLineNumber(SourceLocation l, bool *inv) const { unsigned n = w_line(l); if (inv) *inv = !n; return n; }
const char *SourceManager::getCharacterData(SourceLocation l, bool *inv) const {
  int id = w_find(l);
  vp_assert(id != 0, "text was read at a location that is in no file");
  if (inv) *inv = false;
  return (*w_files)[(*w_entries)[id].file].buf + (l.getRawEncoding() - (*w_entries)[id].base);
}
FileID SourceManager::translateFile(const FileEntry *f) const {
  for (size_t i = 1; i < w_entries->size(); i++) if (&(*w_files)[(*w_entries)[i].file].ref.getFileEntry() == f) return FileID::get(i);
  return FileID();
}
SrcMgr::CharacteristicKind SourceManager::getFileCharacteristic(SourceLocation l) const {
  int id = w_find(l);
  return id && (*w_files)[(*w_entries)[id].file].system ? SrcMgr::C_System : SrcMgr::C_User;
}
bool SourceManager::isMainFile(const FileEntry &f) { return w_main >= 0 && &(*w_files)[w_main].ref.getFileEntry() == &f; }
bool SourceManager::isBeforeInTranslationUnit(SourceLocation a, SourceLocation b) const {
  if (a == b) return false;
  int x = w_find(a), y = w_find(b);
  int dx = w_depth(x), dy = w_depth(y), ox = x, oy = y;
  while (x != y) {                       // climb to the file that contains both
    if (dx >= dy) { a = (*w_entries)[x].includer; x = w_find(a); dx--; if (!x) break; }
    else { b = (*w_entries)[y].includer; y = w_find(b); dy--; if (!y) break; }
  }
  if (x != y) return ox < oy;
  if (a == b) return ox == x;            // the include directive itself comes before what it includes
  return a < b;
}
HeaderSearchOptions *w_hso;
}
#if VP_SYMBOLIC
extern "C" __attribute__((noinline)) int fnmatch(const char *g, const char *p, int) noexcept {
  for (; *g; g++, p++) {
    if (*g == '*') { for (;; p++) { if (!fnmatch(g + 1, p, 0)) return 0; if (!*p) return 1; } }
    if (!*p || (*g != '?' && *g != *p)) return 1;
  }
  return *p != 0;
}
extern "C" char *getenv(const char *) noexcept { return nullptr; }
namespace clang {
PPCallbacks::~PPCallbacks() {}
CommentHandler::~CommentHandler() {}
void PPCallbacks::HasInclude(SourceLocation, StringRef, bool, OptionalFileEntryRef, SrcMgr::CharacteristicKind) {}
}
#endif
namespace include_what_you_use {
std::string PrintableLoc(SourceLocation l) {
  int id = w_find(l);
  if (!id) return "<invalid loc>";
  return (*w_files)[(*w_entries)[id].file].path + ":" + std::to_string(w_line(l));
}
}
alignas(16) static char w_ci[sizeof(clang::CompilerInstance)], w_tc[sizeof(clang::driver::ToolChain)], w_smmem[sizeof(SourceManager)];
alignas(16) static char w_hs[sizeof(clang::HeaderSearch)];
alignas(16) static char w_pp[sizeof(clang::Preprocessor)];
static clang::Preprocessor &w_preproc() { return *(clang::Preprocessor *)w_pp; }
static include_what_you_use::CommandlineFlags *w_flags;
static void w_init() {
  using namespace include_what_you_use;
  SetVerboseLevel(1);
  if (!w_err) w_err = new std::string;
  w_files = new std::vector<WFile>; w_entries = new std::vector<WEntry>;
  w_files->reserve(WMAX);
  w_entries->reserve(64);
  w_fe = (char *)calloc(WMAX, sizeof(clang::FileEntry));
  w_sm = (SourceManager *)w_smmem;
  new (&w_sm->LocalSLocEntryTable) llvm::SmallVector<clang::SrcMgr::SLocEntry, 0>();
  w_sm->LocalSLocEntryTable.reserve(64);
  w_sm->CurrentLoadedOffset = 1u << 31;
  clang::SrcMgr::SLocEntry dummy;
  dummy.Offset = 0; dummy.IsExpansion = 1;
  w_sm->LocalSLocEntryTable.push_back(dummy);
  w_sm->NextLocalOffset = 1;
  w_entries->push_back(WEntry{-1, 0, SourceLocation()});
  for (size_t i = 0; i + 8 <= sizeof w_pp; i += 8) { void *p = w_hs; memcpy(w_pp + i, &p, 8); }
  auto *ci = (clang::CompilerInstance *)w_ci;
  void *p = w_sm; memcpy((void *)&ci->SourceMgr, &p, 8);
  p = w_pp; memcpy((void *)&ci->PP, &p, 8);
  InitGlobalsAndFlagsForTesting();
  w_flags = MutableGlobalFlagsForTesting();
  w_flags->no_default_mappings = true;
  InitGlobals(*ci, *(clang::driver::ToolChain *)w_tc);
  SetHeaderSearchPaths({HeaderSearchPath("/w/", HeaderSearchPath::kUserPath), HeaderSearchPath("/s/", HeaderSearchPath::kSystemPath)});
}

// How an include is looked up: below /w for user headers and below /s for system headers.
static int w_lookup(const std::string &name, bool angled = false) {
  for (size_t i = 0; i < w_files->size(); i++) if ((*w_files)[i].path == (angled ? "/s/" : "/w/") + name) return i;
  for (size_t i = 0; i < w_files->size(); i++) if ((*w_files)[i].path == name || (*w_files)[i].path == "/w/" + name || (*w_files)[i].path == "/s/" + name) return i;
  vp_assert(false, "the harness includes a file that does not exist");
  return 0;
}
// Feeds one file (whose text is concrete) to the tool in the order in which the preprocessor would.
static std::vector<int> *w_of;   // the first inclusion of each file; 0 if there is none
static bool w_guards = true;     // whether a second inclusion is skipped
static std::vector<int> *w_prefix;   // files included from the command line
static int w_of_file(int f) { return f < (int)w_of->size() ? (*w_of)[f] : 0; }
static void w_run(include_what_you_use::IwyuPreprocessorInfo *pi, int f, SourceLocation from = SourceLocation()) {
  using clang::PPCallbacks;
  PPCallbacks *cb = pi;
  if (!w_of) w_of = new std::vector<int>;
  int id = w_enter(f, from);
  if ((int)w_of->size() < WMAX) w_of->resize(WMAX);
  if (!(*w_of)[f]) (*w_of)[f] = id;
  auto kind = [&](int g) { return (*w_files)[g].system ? clang::SrcMgr::C_System : clang::SrcMgr::C_User; };
  cb->FileChanged(w_loc(id, 0), PPCallbacks::EnterFile, kind(f), FileID());
  if (f == w_main && w_prefix) {         // -include: as if at the head of the main file, but from no file
    std::vector<int> l;
    l.swap(*w_prefix);
    for (int g : l) w_run(pi, g);
  }
  const std::string &t = (*w_files)[f].text;
  size_t o = 0, inc = std::string::npos;
  while (o <= t.size()) {
    if (o == t.size() || t[o] == '\n') {
      if (inc != std::string::npos) {     // the directive ends: only now is the file entered
        char close = t[inc] == '<' ? '>' : '"';
        size_t e = t.find(close, inc + 1);
        std::string name = t.substr(inc + 1, e - inc - 1);
        int g = w_lookup(name, close == '>');
        clang::Token tok; tok.startToken(); tok.setLocation(w_loc(id, inc));
        clang::Token inctok; inctok.startToken();
        cb->InclusionDirective(w_loc(id, inc - 9), inctok, name, close == '>', clang::CharSourceRange::getCharRange(w_loc(id, inc), w_loc(id, e + 1)),
                               w_ref(g), "", "", nullptr, false, kind(g));
        if (w_of_file(g) && w_guards) cb->FileSkipped((*w_files)[g].ref, tok, kind(g));
        else {
          int back = (int)w_entries->size();
          w_run(pi, g, w_loc(id, inc));
          cb->FileChanged(w_loc(id, o), PPCallbacks::ExitFile, kind(f), w_id(back));
        }
        inc = std::string::npos;
      }
      o++;
      continue;
    }
    if (t.compare(o, 9, "#include ") == 0) { inc = o + 9; o = inc; continue; }
    if (t.compare(o, 2, "//") == 0) {
      size_t e = t.find('\n', o);
      if (e == std::string::npos) e = t.size();
      pi->HandleComment(w_preproc(), SourceRange(w_loc(id, o), w_loc(id, e)));
      o = e;
      continue;
    }
    if (t.compare(o, 2, "/*") == 0) {
      size_t e = t.find("*/", o + 2) + 2;
      pi->HandleComment(w_preproc(), SourceRange(w_loc(id, o), w_loc(id, e)));
      o = e;
      continue;
    }
    o++;
  }
}
// The start of line n (from 1) of a file that has been entered.
static SourceLocation w_at(int f, int n) {
  int id = w_of_file(f);
  const std::string &t = (*w_files)[f].text;
  size_t o = 0;
  for (; n > 1; n--) o = t.find('\n', o) + 1;
  return w_loc(id, o);
}
// A report for one file, taken apart by its headings.
struct WReport { bool found = false, correct = false; std::vector<std::string> add, remove, full; };
static WReport w_report(const std::string &text, const std::string &file) {
  WReport r;
  std::vector<std::string> *cur = nullptr;
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) e = text.size();
    std::string l = text.substr(i, e - i);
    i = e + 1;
    if (l == file + " should add these lines:") { r.found = true; cur = &r.add; }
    else if (l == file + " should remove these lines:") { r.found = true; cur = &r.remove; }
    else if (l == "The full include-list for " + file + ":") { r.found = true; cur = &r.full; }
    else if (l == "(" + file + " has correct #includes/fwd-decls)") { r.found = r.correct = true; cur = nullptr; }
    else if (l == "---" || l.empty()) cur = nullptr;
    else if (cur) cur->push_back(l);
  }
  return r;
}
