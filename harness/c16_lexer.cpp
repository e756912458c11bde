// Reading source text back.
#include "vp.h"
#include <cstdlib>
#include <string>
#include <vector>
#include "clang/Basic/SourceLocation.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Lex/MacroInfo.h"
#include "clang/Lex/Token.h"
#include "iwyu_globals.h"
#include "iwyu_lexer_utils.h"
using namespace include_what_you_use;
using std::string;
using clang::SourceLocation;
static const unsigned BASE = 100;
static char *g_buf; static size_t g_len; static int g_calls;
static const char *data_at(SourceLocation l) {
  unsigned o = l.getRawEncoding() - BASE;
  vp_assert(l.isValid() && o <= g_len, "a location outside the text was asked for");
  g_calls++;
  return g_buf + o;
}
struct Getter : CharacterDataGetterInterface {
  const char *GetCharacterData(SourceLocation l) const override { return data_at(l); }
};
namespace clang {
const char *SourceManager::getCharacterData(SourceLocation L, bool *Invalid) const { if (Invalid) *Invalid = false; return data_at(L); }
}
alignas(16) static char g_sm[sizeof(clang::SourceManager)];
static SourceManagerCharacterDataGetter *g_smg;
namespace include_what_you_use {
const SourceManagerCharacterDataGetter &DefaultDataGetter() {
  if (!g_smg) g_smg = new SourceManagerCharacterDataGetter(*(clang::SourceManager *)g_sm);
  return *g_smg;
}
}
// A buffer of exactly the needed size, so that reading past its terminator is an error.
static string text(const char *alpha, size_t n) {
  string s = vp_str("t", 0, n, alpha);
  g_len = s.size();
  g_buf = (char *)malloc(g_len + 1);
  memcpy(g_buf, s.data(), g_len);
  g_buf[g_len] = 0;
  return s;
}
static SourceLocation at(size_t o) { return SourceLocation::getFromRawEncoding(BASE + o); }
static size_t lineEnd(const string &s, size_t p) { while (p < s.size() && s[p] != '\r' && s[p] != '\n') p++; return p; }
static bool matches(const string &s, size_t p, const string &n) {
  if (p + n.size() > s.size()) return false;
  for (size_t i = 0; i < n.size(); i++) if (s[p + i] != n[i]) return false;
  return true;
}
extern "C" void h_line() {
  string s = text("ab\r\n\t", vp_param("N", 4));
  size_t p = vp_choose("p", 0, s.size());
  Getter g;
  llvm::StringRef r = GetSourceTextUntilEndOfLine(at(p), g);
  size_t e = lineEnd(s, p);
  vp_assert(r.size() == e - p, "the text to the end of the line has the wrong length");
  vp_assert(r.data() == g_buf + p, "the text does not start at the location");
  if (e < s.size()) vp_cover("terminated"); else vp_cover("to-the-end");
  vp_out_u64("n", r.size());
}
extern "C" void h_after() {
  string s = text("ab\n", vp_param("N", 5));
  string n = vp_str("n", 1, 2, "ab\n");
  size_t p = vp_choose("p", 0, s.size());
  Getter g;
  SourceLocation l = GetLocationAfter(at(p), n, g);
  size_t q = p;
  while (q <= s.size() && !matches(s, q, n)) q++;
  if (q > s.size()) { vp_cover("absent"); vp_assert(l.isInvalid(), "found text that is not there"); }
  else { vp_cover("found"); vp_assert(l.getRawEncoding() == BASE + q + n.size(), "the location is not right after the first occurrence"); }
  vp_out_u64("l", l.getRawEncoding());
}
extern "C" void h_name() {
  string s = text("<>\"a\n\r", vp_param("N", 5));
  size_t p = vp_choose("p", 0, s.size());
  size_t e = lineEnd(s, p);
  char o = p < e ? s[p] : 0, c = o == '<' ? '>' : '"';
  size_t q = p + 1;
  while (q < e && s[q] != c) q++;
  bool bad = p < e && (!(o == '<' || o == '"') || q >= e);
  vp_may_abort(bad);
  Getter g;
  string r = GetIncludeNameAsWritten(at(p), g);
  vp_assert(!bad, "text that is no include name was accepted");
  if (p >= e) { vp_cover("empty"); vp_assert(r.empty(), "a name was read from an empty line"); }
  else { vp_cover(o == '<' ? "angle" : "quote"); vp_assert(r == s.substr(p, q + 1 - p), "the include name is not what is written"); }
  vp_out("r", r);
}
extern "C" void h_has() {
  string s = text("ab\n\r", vp_param("N", 4));
  string n = vp_str("n", 0, 2, "ab\n");
  size_t p = vp_choose("p", 0, s.size());
  bool r = LineHasText(at(p), n);
  size_t e = lineEnd(s, p);
  bool want = false;
  for (size_t q = p; q + n.size() <= e; q++) if (matches(s, q, n)) want = true;
  if (want) vp_cover("has"); else vp_cover("has-not");
  vp_assert(r == want, want ? "text on the line was not found" : "text was found that is not on the line");
  vp_out_u64("r", r);
}
extern "C" void h_token() {
  string s = text(nullptr, vp_param("N", 3));
  size_t p = vp_choose("p", 0, s.size()), k = vp_choose("k", 0, s.size() - p);
  clang::Token t;
  t.startToken();
  t.setLocation(at(p)); t.setLength(k);
  Getter g;
  string r = GetTokenText(t, g);
  vp_assert(r.size() == k, "the token has the wrong length");
  for (size_t i = 0; i < k; i++) vp_assert((unsigned char)r[i] == (unsigned char)s[p + i], "the token text is wrong");
  vp_cover("token");
  vp_out("r", r);
}
extern "C" void h_next() {
  size_t n = vp_choose("n", 0, vp_param("N", 4));
  auto *m = (clang::MacroInfo *)calloc(1, sizeof(clang::MacroInfo));
  auto *t = (clang::Token *)malloc(n * sizeof(clang::Token));
  const clang::tok::TokenKind kinds[] = {clang::tok::comment, clang::tok::identifier, clang::tok::hashhash, clang::tok::l_paren};
  std::vector<unsigned> k(n);
  for (size_t i = 0; i < n; i++) {
    k[i] = vp_sym_range("k", 0, 3);
    t[i].startToken();
    t[i].setKind(k[i] == 0 ? kinds[0] : k[i] == 1 ? kinds[1] : k[i] == 2 ? kinds[2] : kinds[3]);
  }
  m->ReplacementTokens = t; m->NumReplacementTokens = n;
  size_t p = vp_choose("p", 0, n);
  clang::tok::TokenKind r = GetNextMacroTokenKind(m, t + p), want = clang::tok::unknown;
  for (size_t i = p + 1; i < n; i++) if (k[i] != 0) { want = kinds[k[i]]; break; }
  if (want == clang::tok::unknown) vp_cover("last"); else vp_cover("next");
  vp_assert(r == want, "the following token is wrong");
  vp_out_u64("r", r);
}
