// Native replay runtime: runs entry functions of a harness on recorded inputs.
// usage: prog CASEFILE   Each case: "case ENTRY" / "param N V" / "in NAME V" ... / "end"
// Output per case: "case K" lines "out NAME HEX", "assert-fail MSG", "cover N", "exit KIND".
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <fcntl.h>
static std::map<std::string, uint64_t> in, par;
static std::map<std::string, int> ctr;
static FILE *out;
static uint64_t nextv(const char *n, uint64_t dflt) {
  std::string k = std::string(n) + "#" + std::to_string(ctr[n]++);
  auto it = in.find(k);
  if (it == in.end()) { fprintf(out, "missing-input %s\n", k.c_str()); return dflt; }
  return it->second;
}
extern "C" {
uint64_t vp_sym_range(const char *n, uint64_t lo, uint64_t) { return nextv(n, lo); }
uint8_t vp_sym_byte(const char *n) { return nextv(n, 0); }
uint8_t vp_sym_char(const char *n, const char *a) { return nextv(n, a[0]); }
void vp_assume(bool b) { if (!b) { fprintf(out, "exit assume\n"); fflush(out); _exit(0); } }
void vp_assert(bool b, const char *m) { if (!b) { fprintf(out, "assert-fail %s\n", m); fprintf(out, "exit assert\n"); fflush(out); _exit(0); } }
void vp_cover(const char *n) { fprintf(out, "cover %s\n", n); }
void vp_out_u64(const char *n, uint64_t v) { fprintf(out, "out %s %llu\n", n, (unsigned long long)v); }
void vp_out_buf(const char *n, const void *p, size_t k) {
  fprintf(out, "out %s ", n);
  for (size_t i = 0; i < k; i++) fprintf(out, "%02x", ((const unsigned char *)p)[i]);
  fprintf(out, "\n");
}
uint64_t vp_param(const char *n, uint64_t d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
static bool mayAbort;
void vp_may_abort(bool c) { mayAbort = c; fprintf(out, "may-abort %d\n", c); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_end() { fprintf(out, "exit ok\n"); fflush(out); _exit(0); }
void vp_trace(const char *, const char *) {}
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_odr_violation=0:handle_segv=1:symbolize=0:hard_rss_limit_mb=3000"; }
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (!f) return 3;
  out = stdout;
  char line[65536];
  std::string entry;
  int k = 0;
  while (fgets(line, sizeof line, f)) {
    char a[64], b[4096]; unsigned long long v;
    if (sscanf(line, "case %4095s", b) == 1) { entry = b; in.clear(); par.clear(); ctr.clear(); }
    else if (sscanf(line, "param %4095s %llu", b, &v) == 2) par[b] = v;
    else if (sscanf(line, "in %4095s %llu", b, &v) == 2) in[b] = v;
    else if (!strncmp(line, "end", 3)) {
      printf("case %d\n", k++);
      fflush(stdout);
      pid_t p = fork();
      if (!p) {
        alarm(20);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
        if (!fn) { printf("exit noentry\n"); fflush(stdout); _exit(0); }
        fn();
        printf("exit ok\n"); fflush(stdout); _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) printf("exit signal-%d\n", WTERMSIG(st));
      else if (WEXITSTATUS(st)) printf("exit status-%d\n", WEXITSTATUS(st));
      fflush(stdout);
    }
  }
}
