// Harness API.  Under symex the vp_* functions are engine built-ins; in the
// native replay build rt_native.cpp implements them from a recorded case.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
extern "C" {
uint64_t vp_sym_range(const char *name, uint64_t lo, uint64_t hi);
uint8_t vp_sym_byte(const char *name);
uint8_t vp_sym_char(const char *name, const char *alphabet);
void vp_assume(bool);
void vp_assert(bool, const char *msg);
void vp_cover(const char *);
void vp_out_u64(const char *name, uint64_t v);
void vp_out_buf(const char *name, const void *p, size_t n);
uint64_t vp_param(const char *name, uint64_t dflt);
void vp_may_abort(bool cond);
uint64_t vp_concretize(uint64_t v);
void vp_end();
void vp_trace(const char *, const char *);
}
static inline uint64_t vp_choose(const char *name, uint64_t lo, uint64_t hi) {
  return vp_concretize(vp_sym_range(name, lo, hi));
}
// A string of exactly n characters over the alphabet (all 255 non-NUL bytes if null).
static inline std::string vp_strn(const char *name, size_t n, const char *alphabet) {
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) {
    if (alphabet) s[i] = (char)vp_sym_char(name, alphabet);
    else { uint8_t b = vp_sym_byte(name); vp_assume(b != 0); s[i] = (char)b; }
  }
  return s;
}
static inline std::string vp_str(const char *name, size_t lo, size_t hi, const char *alphabet) {
  return vp_strn(name, vp_choose((std::string(name) + ".len").c_str(), lo, hi), alphabet);
}
static inline void vp_out(const char *name, const std::string &s) { vp_out_buf(name, s.data(), s.size()); }
static inline void vp_out(const char *name, const std::vector<std::string> &v) {
  vp_out_u64(name, v.size());
  for (size_t i = 0; i < v.size(); i++) vp_out_buf(name, v[i].data(), v[i].size());
}
