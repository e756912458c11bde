// Uses of macros: which file's definition they demand.
#include <algorithm>
#include "world.h"
#include "clang/Lex/MacroInfo.h"
using namespace include_what_you_use;
using clang::DefMacroDirective; using clang::IdentifierInfo; using clang::MacroDefinition; using clang::MacroInfo; using clang::Token;
using std::string; using std::vector;
static string q(const string &n) { return "#include \"" + n + ".h\""; }
#if VP_SYMBOLIC
void clang::Preprocessor::updateOutOfDateIdentifier(const IdentifierInfo &) const {}
clang::MacroDirective::DefInfo clang::MacroDirective::getDefinition() { return DefInfo((DefMacroDirective *)this, SourceLocation(), true); }
#endif
static IdentifierInfo *ident(const string &s) {
  auto *id = new IdentifierInfo();
  typedef llvm::StringMapEntry<IdentifierInfo *> E;
  void *mem = malloc(sizeof(E) + s.size() + 1);
  auto *e = new (mem) E(s.size(), id);
  memcpy((char *)mem + sizeof(E), s.data(), s.size());
  ((char *)mem)[sizeof(E) + s.size()] = 0;
  id->Entry = e;
  return id;
}
static Token token(clang::tok::TokenKind k, SourceLocation l, IdentifierInfo *id = nullptr) {
  Token t;
  t.startToken();
  t.setKind(k); t.setLocation(l); t.setLength(1);
  if (id) t.setIdentifierInfo(id);
  return t;
}
// A macro as the preprocessor stores it: its tokens in memory of their own.
static MacroInfo *macro(SourceLocation l, bool function_like, const vector<Token> &body = {}, const vector<IdentifierInfo *> &params = {}) {
  auto *m = (MacroInfo *)calloc(1, sizeof(MacroInfo));
  m->Location = m->EndLocation = l;
  m->IsFunctionLike = function_like;
  auto *mem = (Token *)malloc(body.size() * sizeof(Token));
  for (size_t i = 0; i < body.size(); i++) mem[i] = body[i];
  m->ReplacementTokens = mem;
  m->NumReplacementTokens = body.size();
  auto **p = (IdentifierInfo **)malloc(params.size() * sizeof(IdentifierInfo *));
  for (size_t i = 0; i < params.size(); i++) p[i] = params[i];
  m->ParameterList = p;
  m->NumParameters = params.size();
  return m;
}
static void define(IdentifierInfo *id, MacroInfo *m) {
  static clang::Preprocessor::SubmoduleState *st;
  if (!st) {
    st = (clang::Preprocessor::SubmoduleState *)calloc(1, sizeof *st);
    new (&st->Macros) clang::Preprocessor::MacroMap();
    w_preproc().CurSubmoduleState = st;
  }
  id->HasMacro = true;
  id->HadMacro = true;
  auto *d = new (calloc(1, sizeof(DefMacroDirective))) DefMacroDirective(m, m->getDefinitionLoc());
  st->Macros[id].setLatest(d);
}
static MacroDefinition definition(MacroInfo *m) {
  if (!m) return MacroDefinition();
  auto *d = new (calloc(1, sizeof(DefMacroDirective))) DefMacroDirective(m, m->getDefinitionLoc());
  return MacroDefinition(d, {}, false);
}
// What the body of a new macro mentions.  m.cc includes all.h, which includes o.h, f.h and x.h.
extern "C" void h_body() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  int n = vp_param("N", 3);
  int m = w_file("/w/m.cc", "#include \"all.h\"\n#define NEW ABCDEFGH\n");
  w_file("/w/all.h", "#include \"o.h\"\n#include \"f.h\"\n#include \"x.h\"\n");
  int o = w_file("/w/o.h", "#define O 1\n"), f = w_file("/w/f.h", "#define F(x) x\n"), x = w_file("/w/x.h", "#define X 1\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  IdentifierInfo *io = ident("O"), *jf = ident("F"), *ix = ident("X"), *iu = ident("U");
  define(io, macro(w_at(o, 1), false));
  define(jf, macro(w_at(f, 1), true));
  define(ix, macro(w_at(x, 1), false));
  SourceLocation at = w_at(m, 2).getLocWithOffset(12);
  vector<Token> body;
  enum { OBJ, FUN, PAR, UNK, LPAREN, COMMENT, PLUS };
  int kind[8]; bool off[8] = {};
  bool params = vp_sym_range("params", 0, 1);        // whether X is a parameter of the new macro
  for (int i = 0; i < n; i++) {
    kind[i] = i == 0 && vp_param("T", -1) >= 0 ? vp_param("T", 0) : vp_sym_range("token", 0, 6);
    IdentifierInfo *id = kind[i] == OBJ ? io : kind[i] == FUN ? jf : kind[i] == PAR ? ix : kind[i] == UNK ? iu : nullptr;
    body.push_back(token(id ? clang::tok::identifier : kind[i] == LPAREN ? clang::tok::l_paren : kind[i] == COMMENT ? clang::tok::comment : clang::tok::plus, at.getLocWithOffset(i), id));
    if (id && (off[i] = vp_sym_range("off", 0, 1))) body.back().setFlag(Token::DisableExpand);
  }
  MacroInfo *mi = macro(w_at(m, 2).getLocWithOffset(8), params, body, params ? vector<IdentifierInfo *>{ix} : vector<IdentifierInfo *>{});
  DefMacroDirective dir(mi, mi->getDefinitionLoc());
  clang::PPCallbacks *cb = pi;
  cb->MacroDefined(token(clang::tok::identifier, w_at(m, 2).getLocWithOffset(8), ident("NEW")), &dir);
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  bool uo = false, uf = false, ux = false;
  for (int i = 0; i < n; i++) {
    int j = i + 1;
    while (j < n && kind[j] == COMMENT) j++;
    if (kind[i] == OBJ && !off[i]) uo = true;
    if (kind[i] == FUN && !off[i] && j < n && kind[j] == LPAREN) uf = true;
    if (kind[i] == PAR && !off[i] && !params) ux = true;
  }
  WReport r = w_report(*w_err, "/w/m.cc");
  vp_assert(std::count(r.full.begin(), r.full.end(), q("o")) == uo, "a macro named in a macro's body is used");
  vp_assert(std::count(r.full.begin(), r.full.end(), q("f")) == uf, "a function-like macro named in a macro's body is used exactly when arguments follow");
  vp_assert(std::count(r.full.begin(), r.full.end(), q("x")) == ux, "a macro's parameter is not a use of a macro of that name");
  vp_assert((int)r.full.size() == uo + uf + ux, "a macro's body demands nothing else");
  vp_cover(uf ? "call" : uo ? "object" : ux ? "other" : "none");
}
// One use of one macro: how, in which file, and where it is defined.
extern "C" void h_use() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  int m = w_file("/w/m.cc", "#include \"m.h\"\n#include \"h.h\"\nint a;\nint b;\n");
  int mh = w_file("/w/m.h", "#include \"d.h\"\nint a;\nint b;\n");
  int h = w_file("/w/h.h", "#include \"d.h\"\nint a;\nint b;\n");
  int d = w_file("/w/d.h", "int a;\nint b;\n");
  int bi = w_file("<built-in>", "int a;\nint b;\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  w_enter(bi);
  SourceLocation builtin = w_loc(w_entries->size() - 1, 0);
  int files[] = {m, mh, h, d};
  int used_in = files[vp_choose("used", 0, 3)];
  int def = vp_sym_range("def", 0, 5);                 // one of the files, predefined, not defined at all
  int how = vp_sym_range("how", 0, 6);
  int line = used_in == m ? 4 : used_in == d ? 2 : 3;
  SourceLocation u = w_at(used_in, line);
  if (how == 0 || how == 4) vp_assume(def != 5);
  MacroInfo *mi = def == 5 ? nullptr : macro(def == 4 ? builtin : w_at(files[def], files[def] == m ? 3 : files[def] == d ? 1 : 2), false);
  Token id = token(clang::tok::identifier, u, ident("Y"));
  clang::PPCallbacks *cb = pi;
  switch (how) {
    case 0: cb->MacroExpands(id, definition(mi), SourceRange(u, u), nullptr); break;
    case 1: cb->Ifdef(u, id, definition(mi)); break;
    case 2: cb->Ifndef(u, id, definition(mi)); break;
    case 3: cb->Defined(id, definition(mi), SourceRange(u, u)); break;
    case 5: cb->Elifdef(u, id, definition(mi)); break;
    case 6: cb->Elifndef(u, id, definition(mi)); break;
    case 4: {
      IdentifierInfo *y = ident("Y");
      define(y, mi);
      MacroInfo *n = macro(u, false, {token(clang::tok::identifier, u, y)});
      DefMacroDirective dir(n, u);
      cb->MacroDefined(token(clang::tok::identifier, u, ident("NEW")), &dir);
    }
  }
  pi->HandlePreprocessingDone();
  w_err->clear();
  for (int f : {mh, m}) pi->FileInfoFor(w_ref(f))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  // The use only counts in the files that are reported on, and only if the file is not itself behind the definition.
  bool d_for_m = used_in == m && def == 3, h_for_m = used_in == m && def == 2, d_for_mh = used_in == mh && def == 3, h_for_mh = used_in == mh && def == 2;
  // A file that includes a user of its macros keeps it; the bodies of macros are only looked at in reported files.
  if (used_in == h && def == 0 && how != 4) h_for_m = true;
  bool d_kept_by_mh = used_in == d && def == 1 && how != 4;
  WReport rm = w_report(*w_err, "/w/m.cc"), rh = w_report(*w_err, "/w/m.h");
  vector<string> want;
  if (d_for_m) want.push_back(q("d"));
  if (h_for_m) want.push_back(q("h"));
  want.push_back(q("m"));
  std::sort(rm.full.begin(), rm.full.end());
  // h.h includes d.h: when d.h uses a macro of h.h, d.h becomes private to it
  vp_assert(rm.full == want, "the main file includes the definitions of the macros it uses");
  want.clear();
  if (d_for_mh || d_kept_by_mh) want.push_back(q("d"));
  if (h_for_mh) want.push_back(q("h"));
  std::sort(rh.full.begin(), rh.full.end());
  vp_assert(rh.full == want, "an associated header includes the definitions of the macros it uses");
  vp_cover(d_for_m ? "main" : d_for_mh ? "associated" : d_kept_by_mh ? "kept" : "nothing");
}
// F defines a macro that H uses, and includes H: F stands for H, or keeps it if F is reported on.
// m.cc: 1 #include "f.h" or <f.h>, 2 #include "h.h", 3 use of S from h.h.
extern "C" void h_includer() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  bool direct = vp_sym_range("direct", 0, 1), uses = vp_sym_range("uses", 0, 1), prefix = vp_param("P", 0);
  int pub = vp_sym_range("public", 0, 2);               // how h.h is mapped beforehand: not, public, private to p.h
  int reported = vp_sym_range("reported", 0, 1), has_f = prefix || vp_sym_range("f", 0, 1), has_h = vp_sym_range("h", 0, 1);
  int m = w_file("/w/m.cc", string(has_f && !prefix ? "#include \"f.h\"\n" : "\n") + (has_h ? "#include \"h.h\"\n" : "\n") + "int u;\n");
  int f = w_file("/w/f.h", string("#define Y 1\n") + (direct ? "#include \"h.h\"\n" : "#include \"g.h\"\n"));
  w_file("/w/g.h", "#include \"h.h\"\n");
  int h = w_file("/w/h.h", "int S = Y;\n");
  w_file("/w/p.h", "");
  w_main = m;
  if (reported) AddGlobToReportIWYUViolationsFor("/w/f.h");
  if (prefix) w_prefix = new vector<int>{f};
  if (pub == 1) MutableGlobalIncludePicker()->AddIncludeMapping("\"z.h\"", kPrivate, MappedInclude("\"h.h\""), kPublic);
  if (pub == 2) { MutableGlobalIncludePicker()->AddMapping("\"h.h\"", MappedInclude("\"p.h\"")); MutableGlobalIncludePicker()->MarkIncludeAsPrivate("\"h.h\""); }
  vp_assume(has_f || has_h);
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  if (uses && has_f) {                               // Y is only seen when f.h comes first
    MacroInfo *y = macro(w_at(f, 1), false);
    clang::PPCallbacks *cb = pi;
    SourceLocation u = w_at(h, 1).getLocWithOffset(8);
    cb->MacroExpands(token(clang::tok::identifier, u, ident("Y")), definition(y), SourceRange(u, u), nullptr);
  }
  pi->FileInfoFor(w_ref(m))->ReportFullSymbolUse(w_at(m, 3), w_ref(h), "S");
  pi->HandlePreprocessingDone();
  w_err->clear();
  pi->FileInfoFor(w_ref(m))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  WReport r = w_report(*w_err, "/w/m.cc");
  bool stands = uses && has_f && direct && !prefix && !reported && pub != 1;
  vector<string> want;
  if (pub == 2) want.push_back(stands ? q("f") : q("p"));
  else want.push_back(stands ? q("f") : q("h"));
  // f.h goes to the end of the list of headers that stand for h.h, but is there already
  std::sort(r.full.begin(), r.full.end());
  vp_assert(r.full == want, "a header that defines a macro its include uses stands for that include");
  if (reported && has_f && !prefix) {
    w_err->clear();
    pi->FileInfoFor(w_ref(f))->CalculateAndReportIwyuViolations();
    vp_out("rep2", *w_err);
    r = w_report(*w_err, "/w/f.h");
    want.clear();
    if (uses && direct) want.push_back(q("h"));
    vp_assert(r.full == want, "a file keeps the include that uses its macros");
  }
  vp_cover(stands ? "stands" : "plain");
}
// Several includes use the macros of the file that includes them.
extern "C" void h_users() {
  w_init();
  w_flags->update_comments = w_flags->no_comments = true;
  int main = vp_param("M", 1), n = 3;                  // whether the main file or its associated header defines them
  string text = "#define Y 1\n#define Z 1\n#include \"a.h\"\n#include \"b.h\"\n#include \"c.h\"\n";
  int m = w_file("/w/m.cc", main ? text : "#include \"m.h\"\n"), h = w_file("/w/m.h", main ? "" : text), u[3];
  for (int i = 0; i < n; i++) u[i] = w_file(string("/w/") + char('a' + i) + ".h", "int x;\n");
  w_main = m;
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, m);
  int user = main ? m : h;
  clang::PPCallbacks *cb = pi;
  vector<string> want;
  for (int i = 0; i < n; i++) {
    bool any = false;
    for (int k = 0; k < 2; k++) {
      if (!vp_sym_range("uses", 0, 1)) continue;
      any = true;
      SourceLocation at = w_at(u[i], 1).getLocWithOffset(k);
      cb->MacroExpands(token(clang::tok::identifier, at, ident(k ? "Z" : "Y")), definition(macro(w_at(user, 1 + k), false)), SourceRange(at, at), nullptr);
    }
    if (any) want.push_back(q(string(1, 'a' + i)));
  }
  pi->HandlePreprocessingDone();
  w_err->clear();
  for (int f : {h, m}) if (f == m || !main) pi->FileInfoFor(w_ref(f))->CalculateAndReportIwyuViolations();
  vp_out("rep", *w_err);
  vp_assert(w_report(*w_err, main ? "/w/m.cc" : "/w/m.h").full == want, "a file keeps every include that uses its macros");
  vp_cover("users");
}
