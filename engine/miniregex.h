// Small backtracking regular-expression matcher used as a model of
// llvm::Regex (POSIX, longest match) and std::regex (ECMAScript, first match).
#pragma once
#include <string>
#include <utility>
#include <vector>
extern "C" void vp_abort(const char *);
namespace vpre {
const size_t npos = (size_t)-1;
struct RN { enum K { Char, Any, Set, Bol, Eol, Group } k = Char; unsigned char c = 0; bool neg = false; int cap = -1, lo = 1, hi = 1;
            std::vector<std::pair<unsigned char, unsigned char>> set; std::vector<std::vector<RN>> alts; };
struct Parser {
  std::string s; size_t i = 0; bool err = false, ecma; int ncap = 0;
  std::vector<std::vector<RN>> alts;
  Parser(const std::string &t, bool e) : s(t), ecma(e) { alts = alt(0); if (i != s.size()) err = true; }
  std::vector<std::vector<RN>> alt(int depth) {
    std::vector<std::vector<RN>> r(1);
    while (i < s.size() && !(s[i] == ')' && depth)) {
      char c = s[i++];
      if (c == '|') { r.emplace_back(); continue; }
      RN n; n.c = c;
      if (c == '.') n.k = RN::Any;
      else if (c == '^') n.k = RN::Bol;
      else if (c == '$') n.k = RN::Eol;
      else if (c == ')') { err = true; return r; }
      else if (c == '{') vp_abort("regex bound");
      else if (c == '(') {
        n.k = RN::Group;
        if (ecma && i + 1 < s.size() && s[i] == '?' && s[i + 1] == ':') i += 2;
        else if (ecma && i < s.size() && s[i] == '?') vp_abort("regex lookaround");
        else n.cap = ++ncap;
        n.alts = alt(depth + 1);
        if (i < s.size() && s[i] == ')') i++; else err = true;
      }
      else if (c == '\\') {
        if (i >= s.size()) { err = true; break; }
        n.c = s[i++];
        if ((n.c >= '0' && n.c <= '9') || (ecma && ((n.c | 32) >= 'a' && (n.c | 32) <= 'z'))) vp_abort("regex escape");
      }
      else if (c == '[') {
        n.k = RN::Set;
        if (i < s.size() && s[i] == '^') { n.neg = true; i++; }
        bool first = true;
        while (i < s.size() && (s[i] != ']' || (first && !ecma))) {
          first = false;
          if (ecma && s[i] == '\\') vp_abort("regex class escape");
          unsigned char a = s[i++], b = a;
          if (i + 1 < s.size() && s[i] == '-' && s[i + 1] != ']') { b = s[i + 1]; i += 2; }
          n.set.push_back({a, b});
        }
        if (i < s.size()) i++; else err = true;
      } else if (c == '*' || c == '+' || c == '?') err = true;
      while (i < s.size() && (s[i] == '*' || s[i] == '+' || s[i] == '?')) {
        if (n.lo != 1 || n.hi != 1) { if (ecma) vp_abort("regex lazy"); err = true; }
        if (s[i] == '*') { n.lo = 0; n.hi = 1 << 20; } else if (s[i] == '+') n.hi = 1 << 20; else n.lo = 0;
        i++;
      }
      r.back().push_back(n);
    }
    return r;
  }
};
struct Cont { const std::vector<RN> *seq; size_t idx; int rep; size_t start; const Cont *next; };
struct Matcher {
  enum Mode { First, Longest, Whole };
  const Parser &p; const char *t; size_t n; Mode mode;
  size_t best = npos;
  std::vector<std::pair<size_t, size_t>> cap, bestcap;
  Matcher(const Parser &P, const char *T, size_t N, Mode M) : p(P), t(T), n(N), mode(M) {}
  bool run(size_t at) {
    best = npos;
    cap.assign(p.ncap + 1, {npos, npos});
    cap[0].first = at;
    for (auto &a : p.alts) if (seq(a, 0, at, nullptr)) break;
    return best != npos;
  }
  bool seq(const std::vector<RN> &v, size_t k, size_t q, const Cont *c) {
    if (k == v.size()) {
      if (!c) {
        if (mode == Whole && q != n) return false;
        if (best == npos || q > best) { best = q; bestcap = cap; bestcap[0].second = q; }
        return mode != Longest || q == n;
      }
      const RN &g = (*c->seq)[c->idx];
      std::pair<size_t, size_t> save;
      if (g.cap >= 0) { save = cap[g.cap]; cap[g.cap] = {c->start, q}; }
      bool r = rep(*c->seq, c->idx, c->rep + 1, q, c->start, c->next);
      if (g.cap >= 0) cap[g.cap] = save;
      return r;
    }
    return rep(v, k, 0, q, npos, c);
  }
  // node k of v matched `m` times so far, at position q.
  bool rep(const std::vector<RN> &v, size_t k, int m, size_t q, size_t prev, const Cont *c) {
    const RN &x = v[k];
    if (m < x.hi && q != prev) {
      switch (x.k) {
        case RN::Group: {
          Cont nc{&v, k, m, q, c};
          for (auto &a : x.alts) if (seq(a, 0, q, &nc)) return true;
          break;
        }
        case RN::Bol: if (q == 0 && m + 1 >= x.lo && seq(v, k + 1, q, c)) return true; break;
        case RN::Eol: if (q == n && m + 1 >= x.lo && seq(v, k + 1, q, c)) return true; break;
        default:
          if (q < n && one(x, t[q]) && rep(v, k, m + 1, q + 1, q, c)) return true;
      }
    }
    if (m >= x.lo) return seq(v, k + 1, q, c);
    return false;
  }
  bool one(const RN &x, unsigned char ch) {
    if (x.k == RN::Any) return !p.ecma || ((ch != '\n') & (ch != '\r'));
    if (x.k == RN::Char) return x.c == ch;
    bool in = false;
    for (auto &r : x.set) in |= (ch >= r.first) & (ch <= r.second);
    return in != x.neg;
  }
};
}  // namespace vpre
