// Bitcode models of the LLVM library functions the code under test calls
// out of line (POSIX path rules, streams, small vectors, POSIX regex).
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/Twine.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/Format.h>
#include <llvm/Support/MemAlloc.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/raw_ostream.h>
#include "vp.h"
extern "C" void vp_abort(const char *);
#define WEAK __attribute__((weak, used))
namespace llvm {
int DisableABIBreakingChecks = 1;
// ---- streams: unbuffered, everything through write_impl
WEAK raw_ostream::~raw_ostream() {}
WEAK raw_ostream &raw_ostream::changeColor(enum Colors, bool, bool) { return *this; }
WEAK raw_ostream &raw_ostream::resetColor() { return *this; }
WEAK raw_ostream &raw_ostream::reverseColor() { return *this; }
WEAK size_t raw_ostream::preferred_buffer_size() const { return 0; }
WEAK void raw_ostream::anchor() {}
WEAK void raw_ostream::SetBufferAndMode(char *B, size_t S, BufferKind M) { OutBufStart = B; OutBufEnd = B + S; OutBufCur = B; BufferMode = M; }
WEAK void raw_ostream::flush_nonempty() { OutBufCur = OutBufStart; }
WEAK raw_ostream &raw_ostream::write(unsigned char C) { char c = C; write_impl(&c, 1); return *this; }
WEAK raw_ostream &raw_ostream::write(const char *P, size_t S) { if (S) write_impl(P, S); return *this; }
static void putnum(raw_ostream &o, unsigned long v, bool neg) {
  char b[24]; int n = 24;
  do { b[--n] = '0' + v % 10; v /= 10; } while (v);
  if (neg) b[--n] = '-';
  o.write(b + n, 24 - n);
}
WEAK raw_ostream &raw_ostream::operator<<(unsigned long N) { putnum(*this, N, false); return *this; }
WEAK raw_ostream &raw_ostream::operator<<(long N) { putnum(*this, N < 0 ? 0ul - N : N, N < 0); return *this; }
WEAK raw_ostream &raw_ostream::operator<<(unsigned long long N) { putnum(*this, N, false); return *this; }
WEAK raw_ostream &raw_ostream::operator<<(long long N) { putnum(*this, N < 0 ? 0ul - N : N, N < 0); return *this; }
WEAK raw_ostream &raw_ostream::operator<<(const void *) { return *this; }
WEAK raw_ostream &raw_ostream::operator<<(double) { return *this; }
WEAK raw_ostream &raw_ostream::operator<<(const format_object_base &Fmt) {
  char buf[128]; int n = Fmt.print(buf, sizeof buf); write(buf, n); return *this; }
WEAK void format_object_base::home() {}
WEAK void raw_string_ostream::write_impl(const char *P, size_t S) { OS.append(P, S); }
struct VpNull : raw_ostream {
  VpNull() : raw_ostream(true) {}
  void write_impl(const char *, size_t) override {}
  uint64_t current_pos() const override { return 0; }
};
extern "C" { std::string *vp_outs_capture; }
struct VpOuts : VpNull {
  void write_impl(const char *p, size_t n) override { if (vp_outs_capture) vp_outs_capture->append(p, n); }
};
static char nullbuf[sizeof(VpNull)], outbuf[sizeof(VpOuts)];
WEAK raw_fd_ostream &errs() { static VpOuts *n = new (nullbuf) VpOuts; return *reinterpret_cast<raw_fd_ostream *>(n); }
WEAK raw_fd_ostream &outs() { static VpOuts *n = new (outbuf) VpOuts; return *reinterpret_cast<raw_fd_ostream *>(n); }
// ---- containers
WEAK void *allocate_buffer(size_t n, size_t) { return malloc(n); }
WEAK void deallocate_buffer(void *p, size_t, size_t) { free(p); }
template <class T> struct SV { void *B; T size, cap; };
template <class T> static void growpod(SV<T> *v, void *first, size_t min, size_t ts) {
  size_t nc = 2 * (size_t)v->cap + 1;
  if (nc < min) nc = min;
  void *n = malloc(nc * ts);
  memcpy(n, v->B, (size_t)v->size * ts);
  if (v->B != first) free(v->B);
  v->B = n; v->cap = nc;
}
WEAK void vp_grow32(SV<uint32_t> *v, void *F, size_t M, size_t T) asm("_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm");
WEAK void vp_grow32(SV<uint32_t> *v, void *F, size_t M, size_t T) { growpod(v, F, M, T); }
WEAK void vp_grow64(SV<uint64_t> *v, void *F, size_t M, size_t T) asm("_ZN4llvm15SmallVectorBaseImE8grow_podEPvmm");
WEAK void vp_grow64(SV<uint64_t> *v, void *F, size_t M, size_t T) { growpod(v, F, M, T); }
WEAK void *vp_mfg32(SV<uint32_t> *v, void *F, size_t M, size_t T, size_t &N) asm("_ZN4llvm15SmallVectorBaseIjE13mallocForGrowEPvmmRm");
WEAK void *vp_mfg32(SV<uint32_t> *v, void *F, size_t M, size_t T, size_t &N) { N = 2 * (size_t)v->cap + 1; if (N < M) N = M; return malloc(N * T); }
// ---- StringRef / Twine
WEAK size_t StringRef::find(StringRef s, size_t from) const {
  if (from > size()) return npos;
  for (size_t i = from; i + s.size() <= size(); i++) if (!memcmp(data() + i, s.data(), s.size())) return i;
  return npos;
}
WEAK size_t StringRef::find_first_of(StringRef c, size_t from) const { for (size_t i = from; i < size(); i++) for (char x : c) if (data()[i] == x) return i; return npos; }
WEAK size_t StringRef::find_first_not_of(StringRef c, size_t from) const { for (size_t i = from; i < size(); i++) { bool in = false; for (char x : c) if (data()[i] == x) in = true; if (!in) return i; } return npos; }
WEAK size_t StringRef::find_last_of(StringRef c, size_t from) const { for (size_t i = std::min(from, size()); i-- > 0;) for (char x : c) if (data()[i] == x) return i; return npos; }
WEAK std::string Twine::str() const {
  if (isSingleStringRef()) return getSingleStringRef().str();
  vp_abort("twine"); return "";
}
static StringRef tw(const Twine &t) { if (t.isTriviallyEmpty()) return StringRef(); if (!t.isSingleStringRef()) vp_abort("twine"); return t.getSingleStringRef(); }
// ---- POSIX paths
namespace sys { namespace path {
static size_t rootNameLen(StringRef p) {
  if (p.size() > 2 && p[0] == '/' && p[1] == '/' && p[2] != '/') { size_t i = 2; while (i < p.size() && p[i] != '/') i++; return i; }
  return 0;
}
WEAK bool is_absolute(const Twine &t, Style) { StringRef p = tw(t); size_t r = rootNameLen(p); return p.size() > r && p[r] == '/'; }
WEAK bool is_relative(const Twine &t, Style s) { return !is_absolute(t, s); }
static bool isAbs(StringRef p) { size_t r = rootNameLen(p); return p.size() > r && p[r] == '/'; }
WEAK bool remove_dots(SmallVectorImpl<char> &P, bool dd, Style) {
  StringRef rem(P.data(), P.size());
  size_t r = rootNameLen(rem);
  if (rem.size() > r && rem[r] == '/') r++;
  StringRef root = rem.take_front(r);
  rem = rem.drop_front(r);
  bool absolute = r != 0, change = false;
  std::vector<std::string> comps;
  while (!rem.empty()) {
    size_t n = 0;
    while (n < rem.size() && rem[n] != '/') n++;
    StringRef c = rem.take_front(n);
    rem = rem.drop_front(n);
    if (!rem.empty()) { rem = rem.drop_front(); change |= rem.empty(); }
    if (c.empty() || c == ".") change = true;
    else if (dd && c == "..") {
      change = true;
      if (!comps.empty() && comps.back() != "..") comps.pop_back();
      else if (!absolute) comps.push_back(c.str());
    } else comps.push_back(c.str());
  }
  if (!change) return false;
  std::string b = root.str();
  for (size_t i = 0; i < comps.size(); i++) { if (i) b += '/'; b += comps[i]; }
  P.clear();
  P.append(b.begin(), b.end());
  return true;
}
WEAK std::string convert_to_slash(StringRef p, Style) { return p.str(); }
static void append1(SmallVectorImpl<char> &P, StringRef c) {
  bool psep = !P.empty() && P.back() == '/';
  if (psep) { size_t i = 0; while (i < c.size() && c[i] == '/') i++; c = c.drop_front(i); P.append(c.begin(), c.end()); return; }
  bool csep = !c.empty() && c[0] == '/';
  if (!csep && !(P.empty() || rootNameLen(c))) P.push_back('/');
  P.append(c.begin(), c.end());
}
WEAK void append(SmallVectorImpl<char> &P, const Twine &a, const Twine &b, const Twine &c, const Twine &d) {
  for (const Twine *t : {&a, &b, &c, &d}) if (!t->isTriviallyEmpty()) append1(P, tw(*t));
}
WEAK StringRef parent_path(StringRef p, Style) {
  size_t end;
  if (!p.empty() && p.back() == '/') end = p.size() - 1;
  else { size_t i = p.size(); while (i > 0 && p[i - 1] != '/') i--; end = (i == 0 || (i == 2 && p[0] == '/')) ? 0 : i; }
  bool wassep = !p.empty() && p[end] == '/';
  size_t rd = StringRef::npos;
  if (p.size() > 3 && p[0] == '/' && p[1] == '/' && p[2] != '/') { size_t i = 2; while (i < p.size() && p[i] != '/') i++; if (i < p.size()) rd = i; }
  else if (!p.empty() && p[0] == '/') rd = 0;
  while (end > 0 && (rd == StringRef::npos || end > rd) && p[end - 1] == '/') --end;
  if (end == rd && !wassep) return p.substr(0, rd + 1);
  return p.substr(0, end);
}
WEAK StringRef filename(StringRef p, Style) {
  if (p.empty()) return p;
  if (p.back() == '/') { size_t i = p.size(); while (i > 1 && p[i - 1] == '/') i--; if (i == 1 && p[0] == '/') return "/"; return "."; }
  size_t i = p.size(); while (i > 0 && p[i - 1] != '/') i--;
  return p.drop_front(i);
}
}  // namespace path
namespace fs {
// The replay build runs with this working directory.
WEAK std::error_code make_absolute(SmallVectorImpl<char> &P) {
  StringRef p(P.data(), P.size());
  if (path::isAbs(p)) return std::error_code();
  std::string s = p.str();
  P.clear();
  StringRef cwd("/usr");
  P.append(cwd.begin(), cwd.end());
  path::append1(P, s);
  return std::error_code();
}
}  // namespace fs
}  // namespace sys
// ---- POSIX extended regular expressions: leftmost-longest.  Stored behind Regex::preg.
}
#include "miniregex.h"
namespace llvm {
typedef vpre::Parser VpParsed;
WEAK Regex::Regex(StringRef r, RegexFlags) {
  auto *p = new vpre::Parser(r.str(), false);
  preg = reinterpret_cast<llvm_regex *>(p);
  error = p->err;
}
WEAK Regex::~Regex() {}
WEAK std::string Regex::escape(StringRef s) { std::string r; for (char c : s) { if (strchr("()^$|*+?.[]\\{}", c)) r += '\\'; r += c; } return r; }
WEAK bool Regex::match(StringRef s, SmallVectorImpl<StringRef> *m, std::string *) const {
  auto *p = reinterpret_cast<vpre::Parser *>(preg);
  if (!p || p->err) return false;
  for (size_t i = 0; i <= s.size(); i++) {
    vpre::Matcher mt(*p, s.data(), s.size(), m ? vpre::Matcher::Longest : vpre::Matcher::First);
    if (!mt.run(i)) continue;
    if (m) { m->clear(); for (auto &c : mt.bestcap) m->push_back(c.first == vpre::npos ? StringRef() : s.substr(c.first, c.second - c.first)); }
    return true;
  }
  return false;
}
WEAK std::string Regex::sub(StringRef repl, StringRef s, std::string *) const {
  SmallVector<StringRef, 8> m;
  if (!match(s, &m)) return s.str();
  std::string r(s.data(), m[0].data());
  for (size_t i = 0; i < repl.size();) {
    char c = repl[i++];
    if (c != '\\') { r += c; continue; }
    if (i == repl.size()) break;
    c = repl[i];
    if (c == 't') { r += '\t'; i++; }
    else if (c == 'n') { r += '\n'; i++; }
    else if (c >= '0' && c <= '9') {
      size_t v = 0;
      while (i < repl.size() && repl[i] >= '0' && repl[i] <= '9') v = v * 10 + (repl[i++] - '0');
      if (v < m.size()) r.append(m[v].data(), m[v].size());
    } else { r += c; i++; }
  }
  r.append(m[0].data() + m[0].size(), s.data() + s.size());
  return r;
}
}  // namespace llvm
