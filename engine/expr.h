// Bit-vector expression DAG (hash-consed), evaluator, and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

namespace sx {

enum Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite
};

constexpr int kMaxVars = 512;
struct VarSet {
  uint64_t w[kMaxVars / 64] = {0};
  bool intersects(const VarSet &o) const {
    for (int i = 0; i < kMaxVars / 64; i++) if (w[i] & o.w[i]) return true;
    return false;
  }
  bool merge(const VarSet &o) {
    bool ch = false;
    for (int i = 0; i < kMaxVars / 64; i++) {
      uint64_t n = w[i] | o.w[i];
      if (n != w[i]) { w[i] = n; ch = true; }
    }
    return ch;
  }
  void set(int i) { w[i / 64] |= 1ull << (i % 64); }
  bool get(int i) const { return w[i / 64] >> (i % 64) & 1; }
  int count() const { int c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  int first() const {
    for (int i = 0; i < kMaxVars / 64; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]);
    return -1;
  }
  bool operator==(const VarSet &o) const { return !memcmp(w, o.w, sizeof w); }
};

struct Expr {
  Op op; uint8_t w; uint8_t nk;
  uint32_t id;
  uint64_t val;  // Const value / Var index / Extract low bit
  const Expr *k[3];
  const VarSet *vs;
  uint32_t size;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}

inline uint64_t foldop(Op op, unsigned w, uint64_t a, uint64_t b, unsigned kw) {
  // kw: operand width.
  switch (op) {
    case Add: return (a + b) & maskw(w);
    case Sub: return (a - b) & maskw(w);
    case Mul: return (a * b) & maskw(w);
    case UDiv: return b ? (a / b) & maskw(w) : maskw(w);
    case URem: return b ? (a % b) & maskw(w) : a;
    case SDiv: { int64_t x = sx64(a, kw), y = sx64(b, kw); if (!y) return x < 0 ? 1 : maskw(w);
                 if (y == -1) return (0 - (uint64_t)x) & maskw(w); return (uint64_t)(x / y) & maskw(w); }
    case SRem: { int64_t x = sx64(a, kw), y = sx64(b, kw); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & maskw(w); }
    case And: return a & b;
    case Or: return a | b;
    case Xor: return a ^ b;
    case Shl: return b >= w ? 0 : (a << b) & maskw(w);
    case LShr: return b >= w ? 0 : (a >> b);
    case AShr: { int64_t x = sx64(a, kw); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & maskw(w); }
    case Eq: return a == b;
    case Ult: return a < b;
    case Ule: return a <= b;
    case Slt: return sx64(a, kw) < sx64(b, kw);
    case Sle: return sx64(a, kw) <= sx64(b, kw);
    default: abort();
  }
}

struct VarInfo { std::string name; unsigned w; uint64_t lo, hi; };

struct Pool {
  struct Key {
    Op op; uint8_t w; uint64_t val; E a, b, c;
    bool operator==(const Key &o) const { return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; }
  };
  struct KH { size_t operator()(const Key &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k.val); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  std::vector<Expr *> all;
  std::vector<VarInfo> vars;
  std::vector<E> varE;
  std::map<std::string, VarSet *> vsintern;
  VarSet emptyVS;

  const VarSet *internVS(const VarSet &v) {
    std::string s((const char *)v.w, sizeof v.w);
    auto &p = vsintern[s];
    if (!p) p = new VarSet(v);
    return p;
  }
  E mk(Op op, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
    Key k{op, (uint8_t)w, val, a, b, c};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
    e->id = all.size();
    e->size = 1;
    if (op == Var) { VarSet v; v.set((int)val); e->vs = internVS(v); }
    else if (!a) e->vs = internVS(emptyVS);
    else if (!b) e->vs = a->vs;
    else {
      if (a->vs == b->vs && (!c || c->vs == a->vs)) e->vs = a->vs;
      else { VarSet v = *a->vs; v.merge(*b->vs); if (c) v.merge(*c->vs); e->vs = internVS(v); }
    }
    for (int i = 0; i < e->nk; i++) e->size += e->k[i]->size > 1000000 ? 1000000 : e->k[i]->size;
    all.push_back(e);
    tab.emplace(k, e);
    return e;
  }
  E cst(unsigned w, uint64_t v) { return mk(Const, w, v & maskw(w)); }
  E newVar(const std::string &name, unsigned w, uint64_t lo, uint64_t hi) {
    int i = vars.size();
    if (i >= kMaxVars) { fprintf(stderr, "too many symbolic variables\n"); exit(3); }
    vars.push_back({name, w, lo, hi});
    E e = mk(Var, w, i);
    varE.push_back(e);
    return e;
  }
  static bool isC(E e) { return e->op == Const; }
  E bnot(E a) {  // width-1 negation
    if (isC(a)) return cst(1, !a->val);
    if (a->op == Xor && a->w == 1 && isC(a->k[1]) && a->k[1]->val == 1) return a->k[0];
    return mk(Xor, 1, 0, a, cst(1, 1));
  }
  E ext(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(w, a->val >> lo);
    if (a->op == Extract) return ext(a->k[0], lo + a->val, w);
    if (a->op == Concat) {  // k0 high, k1 low
      unsigned lw = a->k[1]->w;
      if (lo + w <= lw) return ext(a->k[1], lo, w);
      if (lo >= lw) return ext(a->k[0], lo - lw, w);
    }
    if (a->op == ZExt) {
      unsigned lw = a->k[0]->w;
      if (lo >= lw) return cst(w, 0);
      if (lo + w <= lw) return ext(a->k[0], lo, w);
      if (lo == 0) return zext(a->k[0], w);
    }
    if (a->op == SExt) {
      unsigned lw = a->k[0]->w;
      if (lo + w <= lw) return ext(a->k[0], lo, w);
    }
    if (a->op == Ite && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], ext(a->k[1], lo, w), ext(a->k[2], lo, w));
    if ((a->op == And || a->op == Or || a->op == Xor) && (isC(a->k[1])))
      return bin(a->op, ext(a->k[0], lo, w), ext(a->k[1], lo, w));
    return mk(Extract, w, lo, a);
  }
  E concat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return cst(hi->w + lo->w, (hi->val << lo->w) | lo->val);
    if (isC(hi) && hi->val == 0) return zext(lo, hi->w + lo->w);
    if (hi->op == Extract && lo->op == Extract && hi->k[0] == lo->k[0] && lo->val + lo->w == hi->val)
      return ext(lo->k[0], lo->val, hi->w + lo->w);
    // lo is the whole low part of something extracted above
    if (hi->op == Extract && hi->k[0] == lo && hi->val == lo->w) return hi->k[0];
    return mk(Concat, hi->w + lo->w, 0, hi, lo);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(w, a->val);
    if (a->op == ZExt) return zext(a->k[0], w);
    if (a->op == Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    return mk(ZExt, w, 0, a);
  }
  E sext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(w, (uint64_t)sx64(a->val, a->w));
    if (a->op == ZExt) return zext(a->k[0], w);
    if (a->op == Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    return mk(SExt, w, 0, a);
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->val ? c : bnot(c);
      if (isC(a)) return a->val ? bin(Or, c, b) : bin(And, bnot(c), b);
      if (isC(b)) return b->val ? bin(Or, bnot(c), a) : bin(And, c, a);
    }
    return mk(Ite, a->w, 0, c, a, b);
  }
  E bin(Op op, E a, E b) {
    bool cmp = op >= Eq && op <= Sle;
    unsigned w = cmp ? 1 : a->w;
    if (isC(a) && isC(b)) return cst(w, foldop(op, w, a->val, b->val, a->w));
    if (isC(a) && (op == Add || op == Mul || op == And || op == Or || op == Xor || op == Eq)) std::swap(a, b);
    uint64_t M = maskw(a->w);
    switch (op) {
      case Add:
        if (isC(b)) {
          if (b->val == 0) return a;
          if (a->op == Add && isC(a->k[1])) return bin(Add, a->k[0], cst(w, a->k[1]->val + b->val));
        }
        break;
      case Sub:
        if (a == b) return cst(w, 0);
        if (isC(b)) return bin(Add, a, cst(w, 0 - b->val));
        // (x + c) - x
        if (a->op == Add && a->k[0] == b) return a->k[1];
        break;
      case Mul:
        if (isC(b)) { if (b->val == 1) return a; if (b->val == 0) return b; }
        break;
      case And:
        if (a == b) return a;
        if (isC(b)) {
          if (b->val == 0) return b; if (b->val == M) return a;
          if (a->op == ZExt && b->val >= maskw(a->k[0]->w) && (b->val & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
          if (a->op == ZExt && (b->val & maskw(a->k[0]->w)) != maskw(a->k[0]->w)) return zext(bin(And, a->k[0], cst(a->k[0]->w, b->val)), w);
          if (a->op == And && isC(a->k[1])) return bin(And, a->k[0], cst(w, a->k[1]->val & b->val));
        }
        if (w == 1 && bnot(a) == b) return cst(1, 0);
        break;
      case Or:
        if (a == b) return a;
        if (isC(b)) { if (b->val == 0) return a; if (b->val == M) return b; }
        if (w == 1 && bnot(a) == b) return cst(1, 1);
        // zext(x) | shl(zext(y), n)  -> concat pieces
        if (a->op == ZExt && b->op == Shl && isC(b->k[1]) && b->k[0]->op == ZExt && b->k[1]->val >= a->k[0]->w)
          { unsigned n = b->k[1]->val; E hi = b->k[0]->k[0]; if (n + hi->w <= w) return zext(concat(hi, zext(a->k[0], n)), w); }
        if (b->op == ZExt && a->op == Shl) return bin(Or, b, a);
        break;
      case Xor:
        if (a == b) return cst(w, 0);
        if (isC(b)) {
          if (b->val == 0) return a;
          if (a->op == Xor && isC(a->k[1])) return bin(Xor, a->k[0], cst(w, a->k[1]->val ^ b->val));
          if (w == 1 && a->op == Ite) {}
        }
        break;
      case Shl: case LShr: case AShr:
        if (isC(b) && b->val == 0) return a;
        if (isC(b) && op == LShr && b->val < a->w) return zext(ext(a, b->val, a->w - b->val), w);
        if (isC(b) && op == Shl && b->val < a->w && a->w - b->val > 0) {
          // keep as shl, but for zext operand use concat
          if (a->op == ZExt && a->k[0]->w + b->val <= w) return zext(concat(a->k[0], cst(b->val, 0)), w);
        }
        if (isC(b) && b->val >= a->w && op != AShr) return cst(w, 0);
        break;
      case UDiv: case SDiv: if (isC(b) && b->val == 1) return a; break;
      case Eq:
        if (a == b) return cst(1, 1);
        if (isC(b)) {
          if (a->w == 1) return b->val ? a : bnot(a);
          if (a->op == ZExt) {
            if (b->val > maskw(a->k[0]->w)) return cst(1, 0);
            return bin(Eq, a->k[0], cst(a->k[0]->w, b->val));
          }
          if (a->op == SExt) {
            uint64_t lowv = b->val & maskw(a->k[0]->w);
            if (((uint64_t)sx64(lowv, a->k[0]->w) & M) != b->val) return cst(1, 0);
            return bin(Eq, a->k[0], cst(a->k[0]->w, lowv));
          }
          if (a->op == Add && isC(a->k[1])) return bin(Eq, a->k[0], cst(a->w, b->val - a->k[1]->val));
          if (a->op == Xor && isC(a->k[1])) return bin(Eq, a->k[0], cst(a->w, b->val ^ a->k[1]->val));
          if (a->op == Ite && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], bin(Eq, a->k[1], b), bin(Eq, a->k[2], b));
          if (a->op == Concat) return bin(And, bin(Eq, a->k[0], cst(a->k[0]->w, b->val >> a->k[1]->w)), bin(Eq, a->k[1], cst(a->k[1]->w, b->val)));
        }
        if ((a->op == ZExt && b->op == ZExt) || (a->op == SExt && b->op == SExt)) if (a->k[0]->w == b->k[0]->w) return bin(Eq, a->k[0], b->k[0]);
        if (a > b) std::swap(a, b);
        break;
      case Ult:
        if (a == b) return cst(1, 0);
        if (isC(b) && b->val == 0) return cst(1, 0);
        if (isC(b) && a->op == ZExt) { if (b->val > maskw(a->k[0]->w)) return cst(1, 1); return bin(Ult, a->k[0], cst(a->k[0]->w, b->val)); }
        if (isC(a) && b->op == ZExt) { if (a->val > maskw(b->k[0]->w)) return cst(1, 0); return bin(Ult, cst(b->k[0]->w, a->val), b->k[0]); }
        if (isC(b) && b->val == 1) return bin(Eq, a, cst(a->w, 0));
        if (isC(a) && a->val == 0) return bnot(bin(Eq, b, a));
        break;
      case Ule:
        if (a == b) return cst(1, 1);
        return bnot(bin(Ult, b, a));
      case Slt:
        if (a == b) return cst(1, 0);
        if (a->op == ZExt && b->op == ZExt && a->w == b->w) return bin(Ult, a, b);
        if (a->op == ZExt && isC(b)) { if (sx64(b->val, b->w) <= 0) return cst(1, 0); return bin(Ult, a, b); }
        if (b->op == ZExt && isC(a)) { if (sx64(a->val, a->w) < 0) return cst(1, 1); return bin(Ult, a, b); }
        break;
      case Sle:
        if (a == b) return cst(1, 1);
        return bnot(bin(Slt, b, a));
      default: break;
    }
    return mk(op, w, 0, a, b);
  }
};

typedef std::vector<uint64_t> Model;  // indexed by var; missing -> lo

struct Evaluator {
  std::vector<uint64_t> memo;
  std::vector<uint32_t> stamp;
  uint32_t cur = 0;
  uint64_t ev(E e, const Model &m, Pool &P) {
    if (e->op == Const) return e->val;
    if (e->op == Var) return e->val < m.size() ? m[e->val] : P.vars[e->val].lo;
    cur++;
    if (memo.size() < P.all.size()) { memo.resize(P.all.size() * 2); stamp.resize(P.all.size() * 2, 0); }
    return rec(e, m, P);
  }
  uint64_t rec(E e, const Model &m, Pool &P) {
    if (e->op == Const) return e->val;
    if (e->op == Var) return e->val < m.size() ? m[e->val] : P.vars[e->val].lo;
    if (stamp[e->id] == cur) return memo[e->id];
    uint64_t r;
    switch (e->op) {
      case Concat: r = (rec(e->k[0], m, P) << e->k[1]->w) | rec(e->k[1], m, P); break;
      case Extract: r = (rec(e->k[0], m, P) >> e->val) & maskw(e->w); break;
      case ZExt: r = rec(e->k[0], m, P); break;
      case SExt: r = (uint64_t)sx64(rec(e->k[0], m, P), e->k[0]->w) & maskw(e->w); break;
      case Ite: r = rec(e->k[0], m, P) ? rec(e->k[1], m, P) : rec(e->k[2], m, P); break;
      default: {
        uint64_t a = rec(e->k[0], m, P), b = rec(e->k[1], m, P);
        r = foldop(e->op, e->w, a, b, e->k[0]->w);
      }
    }
    stamp[e->id] = cur; memo[e->id] = r;
    return r;
  }
};

struct Solver {
  Pool &P;
  Evaluator ev;
  Z3_context ctx;
  std::vector<Z3_ast> bvc, boolc;  // translation caches by expr id
  uint64_t queries = 0, cachehits = 0, z3calls = 0, tabled = 0;
  double z3time = 0;
  unsigned timeout_ms = 30000;
  uint64_t unknowns = 0;
  struct CRes { int sat; std::vector<std::pair<int, uint64_t>> m; };
  std::map<std::vector<uint32_t>, CRes> cache;

  explicit Solver(Pool &p) : P(p) {
    Z3_config c = Z3_mk_config();
    Z3_set_param_value(c, "model", "true");
    ctx = Z3_mk_context(c);
    Z3_del_config(c);
  }
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast num(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
  Z3_ast toBV(E e) {
    if (bvc.size() <= e->id) bvc.resize(P.all.size() + 1024, nullptr);
    if (bvc[e->id]) return bvc[e->id];
    Z3_ast r;
    auto K = [&](int i) { return toBV(e->k[i]); };
    if (e->w == 1 && e->op != Const && e->op != Var && e->op != Extract) {
      r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(1, 0));
    } else switch (e->op) {
      case Const: r = num(e->w, e->val); break;
      case Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), bvs(e->w)); break;
      case Add: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
      case Sub: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
      case Mul: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
      case UDiv: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
      case SDiv: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
      case URem: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
      case SRem: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
      case And: r = Z3_mk_bvand(ctx, K(0), K(1)); break;
      case Or: r = Z3_mk_bvor(ctx, K(0), K(1)); break;
      case Xor: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
      case Shl: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
      case LShr: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
      case AShr: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
      case Concat: r = Z3_mk_concat(ctx, K(0), K(1)); break;
      case Extract: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, K(0)); break;
      case ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, K(0)); break;
      case SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, K(0)); break;
      case Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), K(1), K(2)); break;
      default: abort();
    }
    bvc[e->id] = r;
    return r;
  }
  Z3_ast toBool(E e) {
    if (boolc.size() <= e->id) boolc.resize(P.all.size() + 1024, nullptr);
    if (boolc[e->id]) return boolc[e->id];
    Z3_ast r;
    auto K = [&](int i) { return toBV(e->k[i]); };
    switch (e->op) {
      case Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case Eq: r = e->k[0]->w == 1 ? Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(ctx, K(0), K(1)); break;
      case Ult: r = Z3_mk_bvult(ctx, K(0), K(1)); break;
      case Ule: r = Z3_mk_bvule(ctx, K(0), K(1)); break;
      case Slt: r = Z3_mk_bvslt(ctx, K(0), K(1)); break;
      case Sle: r = Z3_mk_bvsle(ctx, K(0), K(1)); break;
      case And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
      case Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
      case Xor: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
      case Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
      case Var: case Extract: r = Z3_mk_eq(ctx, toBV(e), num(1, 1)); break;
      default: {  // 1-bit arithmetic: rare
        E x = e; (void)x; fprintf(stderr, "toBool op %d\n", e->op); abort();
      }
    }
    boolc[e->id] = r;
    return r;
  }
  // Full Z3 check of a conjunction.  Returns 1 sat, 0 unsat, -1 unknown.
  int check(const std::vector<E> &cs, std::vector<std::pair<int, uint64_t>> *out) {
    std::vector<uint32_t> key;
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    queries++;
    auto it = cache.find(key);
    if (it != cache.end()) { cachehits++; if (out) *out = it->second.m; return it->second.sat; }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    VarSet vs;
    for (E e : cs) { Z3_solver_assert(ctx, s, toBool(e)); vs.merge(*e->vs); }
    for (int i = 0; i < (int)P.vars.size(); i++) if (vs.get(i)) {
      auto &v = P.vars[i];
      if (v.lo > 0) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, num(v.w, v.lo), toBV(P.varE[i])));
      if (v.hi < maskw(v.w)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, toBV(P.varE[i]), num(v.w, v.hi)));
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    CRes res;
    res.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (int i = 0; i < (int)P.vars.size(); i++) if (vs.get(i)) {
        Z3_ast v;
        uint64_t u = 0;
        if (Z3_model_eval(ctx, m, toBV(P.varE[i]), true, &v)) Z3_get_numeral_uint64(ctx, v, (unsigned long *)&u);
        res.m.push_back({i, u});
      }
      Z3_model_dec_ref(ctx, m);
    }
    if (res.sat < 0) unknowns++;
    Z3_solver_dec_ref(ctx, s);
    z3calls++;
    z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (out) *out = res.m;
    int sat = res.sat;
    cache.emplace(std::move(key), std::move(res));
    return sat;
  }
};
}  // namespace sx
