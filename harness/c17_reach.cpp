// Which files a file brings in, and which it intends to provide.
#include "world.h"
using namespace include_what_you_use;
using std::set; using std::string; using std::vector;
static const int MAXF = 6;
extern "C" void h_reach() {
  int N = vp_param("N", 3), K = vp_param("K", 2), order = vp_param("O", 0), maps = vp_param("M", 0);
  w_init();
  // m.cc, N headers with up to K includes each, and e.h, which includes nothing; the targets of the includes are symbolic
  int nf = N + 2;
  string names = "m";
  for (int i = 0; i < N; i++) names += char('a' + i);
  names += char('a' + N);
  auto slot = [&](int i) { return order == 0 ? i : order == 1 ? nf - 1 - i : (i * 2 + 1) % nf; };     // nf is odd for order 2
  auto system = [&](int i) { return vp_param("Y", 0) && i > 0 && i % 2 == 0; };
  vector<string> text(nf);
  vector<vector<int>> inc(nf);
  for (int i = 0; i < nf - 1; i++)
    for (int k = 0; k < (i ? K : 1); k++) {
      char c = vp_sym_range("target", 'a', 'a' + N);
      if (!i) vp_assume(c == 'a' + vp_param("R", 0));
      if (k) vp_assume(vp_param("X", 0) ? inc[i][0] < c - 'a' + 1 : inc[i][0] != c - 'a' + 1);
      inc[i].push_back(c - 'a' + 1);
      text[i] += system(c - 'a' + 1) ? string("#include <") + c + ".h>\n" : string("#include \"") + c + ".h\"\n";
    }
  for (int i = 0; i < nf; i++) w_file(i ? string(system(i) ? "/s/" : "/w/") + names[i] + ".h" : "/w/m.cc", text[i] + "int v;\n", system(i), slot(i));
  w_main = 0;
  auto q = [&](int i) { return system(i) ? string("<") + names[i] + ".h>" : string("\"") + names[i] + (i ? ".h\"" : ".cc\""); };
  bool pub[MAXF] = {};
  vector<std::pair<int, int>> behind;
  if (maps) {
    // the first header stands behind the last header, e.h or both; some headers are stated to be public
    vector<int> tos;
    if (maps & 1) tos.push_back(maps & 2 ? N : N + 1);
    if (maps & 4) tos.push_back(N);
    for (int to : tos) {
      MutableGlobalIncludePicker()->AddIncludeMapping(q(1), kPrivate, MappedInclude(q(to)), kPublic);
      pub[to] = true; behind.push_back({1, to});
    }
    for (int i = 2; i <= N; i++) if (!pub[i] && vp_sym_range("public", 0, 1)) {
      MutableGlobalIncludePicker()->AddIncludeMapping("\"zz.h\"", kPrivate, MappedInclude(q(i)), kPublic);
      pub[i] = true;
    }
  }
  auto *pi = new IwyuPreprocessorInfo(w_preproc());
  w_run(pi, 0);
  pi->HandlePreprocessingDone();
  bool seen[MAXF] = {}, reach[MAXF][MAXF] = {}, prov[MAXF][MAXF] = {};
  for (int i = 0; i < nf; i++) { reach[i][i] = true; for (int j : inc[i]) reach[i][j] = true; }
  for (int k = 0; k < nf; k++) for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  for (int i = 0; i < nf; i++) seen[i] = reach[0][i];
  for (int i = 0; i < nf; i++) {
    prov[i][i] = true;
    for (int j : inc[i]) prov[i][j] = true;
    for (int g = 0; g < nf; g++) {
      bool through = pub[i] && g == i;
      for (int j : inc[i]) through |= g == j && pub[j];
      if (through) for (int j = 0; j < nf; j++) prov[i][j] |= reach[g][j];
    }
  }
  if (vp_param("P", 0) == 0) {
    for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) {
      bool want = seen[i] && reach[i][j];
      vp_assert(pi->FileTransitivelyIncludes(w_ref(i), w_ref(j)) == want, "a file reaches another exactly when a chain of includes leads there");
      if (i > 1 && j > 1) continue;
      vp_assert(pi->FileTransitivelyIncludes(w_ref(i), q(j)) == want, "... also when the other is given by name");
      vp_assert(pi->FileTransitivelyIncludes(q(i), w_ref(j)) == want, "... also when the file is given by name");
    }
    vp_cover(reach[0][nf - 1] ? "all" : "some");
    return;
  }
  for (auto &b : behind) if (seen[b.first] && seen[b.second]) for (int j = 0; j < nf; j++) prov[b.first][j] |= prov[b.second][j];
  for (int i = 0; i < nf; i++) {
    if (!seen[i]) continue;
    string s;
    for (int j = 0; j < nf; j++) {
      bool got = pi->PublicHeaderIntendsToProvide(w_ref(i), w_ref(j));
      if (got) s += names[j];
      vp_assert(!prov[i][j] || got, "what a file intends to provide is complete");
      vp_assert(prov[i][j] || !got, "nothing is provided that is not meant to be");
    }
    vp_out("provides", s);
  }
  vp_cover(seen[1] && seen[nf - 1] ? "mapped" : "unmapped");
}
