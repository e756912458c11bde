// Instruction semantics, built-in functions, main loop.
static std::vector<Rec> incompletes;

static V get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.c; }

static V doBin(unsigned op, unsigned w, const V &a, const V &b) {
  Op o;
  switch (op) {
    case L::Instruction::Add: o = Add; break;
    case L::Instruction::Sub: o = Sub; break;
    case L::Instruction::Mul: o = Mul; break;
    case L::Instruction::UDiv: o = UDiv; break;
    case L::Instruction::SDiv: o = SDiv; break;
    case L::Instruction::URem: o = URem; break;
    case L::Instruction::SRem: o = SRem; break;
    case L::Instruction::And: o = And; break;
    case L::Instruction::Or: o = Or; break;
    case L::Instruction::Xor: o = Xor; break;
    case L::Instruction::Shl: o = Shl; break;
    case L::Instruction::LShr: o = LShr; break;
    case L::Instruction::AShr: o = AShr; break;
    default: unsup("binop");
  }
  if (!a.e && !b.e) return V(foldop(o, w, a.c, b.c, w));
  return mkV(P.bin(o, toE(a, w), toE(b, w)));
}
static V doCmp(unsigned pred, unsigned w, const V &a, const V &b) {
  typedef L::CmpInst C;
  auto B = [&](Op o, const V &x, const V &y) {
    if (!x.e && !y.e) return V(foldop(o, 1, x.c, y.c, w));
    return mkV(P.bin(o, toE(x, w), toE(y, w)));
  };
  switch (pred) {
    case C::ICMP_EQ: return B(Eq, a, b);
    case C::ICMP_NE: { V v = B(Eq, a, b); return v.e ? mkV(P.bnot(v.e)) : V(!v.c); }
    case C::ICMP_ULT: return B(Ult, a, b);
    case C::ICMP_ULE: return B(Ule, a, b);
    case C::ICMP_UGT: return B(Ult, b, a);
    case C::ICMP_UGE: return B(Ule, b, a);
    case C::ICMP_SLT: return B(Slt, a, b);
    case C::ICMP_SLE: return B(Sle, a, b);
    case C::ICMP_SGT: return B(Slt, b, a);
    case C::ICMP_SGE: return B(Sle, b, a);
  }
  unsup("icmp pred");
}
static V lift2(L::Type *t, const V &a, const V &b, const std::function<V(const V &, const V &)> &f) {
  if (!t->isVectorTy()) return f(a, b);
  V v; v.agg = std::make_shared<std::vector<V>>();
  for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(f((*a.agg)[i], (*b.agg)[i]));
  return v;
}
static double asD(uint64_t c, bool f) { if (f) { float x; uint32_t y = c; memcpy(&x, &y, 4); return x; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, bool f) { if (f) { float x = d; uint32_t y; memcpy(&y, &x, 4); return y; } uint64_t c; memcpy(&c, &d, 8); return c; }

static E symVar(State &s, const std::string &nm, uint64_t lo, uint64_t hi) {
  int k = s.namectr[nm]++;
  std::string full = nm + "#" + std::to_string(k);
  unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi <= 0xffffffffull ? 32 : 64;
  std::string key = full + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  E &e = symVars[key];
  if (!e) e = P.newVar(full, w, lo, hi);
  while (s.model.size() < P.vars.size()) s.model.push_back(P.vars[s.model.size()].lo);
  growDom(s);
  // initial value: random within range for witness diversity (exact range var)
  if (s.cons.empty() || true) {
    bool fresh = !s.multi[e->val] || hi - lo >= 256;
    if (fresh) { uint64_t span = hi - lo + 1; s.model[e->val] = lo + (span ? rnd() % span : rnd()); }
  }
  s.inputs.push_back({full, e});
  return e;
}
static void addAssume(State &s, E c) {
  if (c->op == Const) { if (!c->val) { nAssumed++; throw PathEnd(); } return; }
  if (!mval(s, c)) {
    std::vector<std::pair<int, uint64_t>> m;
    int q = query(s, c, &m);
    if (q < 0) unsup("solver-unknown in assume");
    if (!q) { nAssumed++; throw PathEnd(); }
    applyModel(s, m);
  }
  addCons(s, c);
}

typedef V (*Builtin)(State &, DInst &, std::vector<V> &);
static std::unordered_map<std::string, Builtin> builtins;

static uint64_t pcount = 0;
static void pushFrame(State &s, const L::Function *F, std::vector<V> &args, int retslot) {
  DFunc *d = decode(F);
  d->execs++;
  if (s.st.size() > 400) { violation(s, "recursion", "call depth above 400", nullptr); endPath(s, "recursion"); throw PathEnd(); }
  Frame f;
  f.f = d;
  f.r.resize(d->nslots);
  for (int i = 0; i < d->nargs && i < (int)args.size(); i++) f.r[i] = std::move(args[i]);
  f.retslot = retslot;
  s.st.push_back(std::move(f));
}

static void initBuiltins() {
  auto &b = builtins;
#define BI(name) b[name] = [](State & s, DInst & d, std::vector<V> & a) -> V
  BI("vp_sym_range") {
    uint64_t lo = concretize(s, a[1], 64), hi = concretize(s, a[2], 64);
    if (lo == hi) { symVar(s, cstr(s, a[0].c), lo, hi); return V(lo); }
    E e = symVar(s, cstr(s, a[0].c), lo, hi);
    return mkV(P.zext(e, 64));
  };
  BI("vp_sym_byte") { return mkV(symVar(s, cstr(s, a[0].c), 0, 255)); };
  BI("vp_sym_char") {
    std::string al = cstr(s, a[1].c);
    E e = symVar(s, cstr(s, a[0].c), 0, 255);
    E c = nullptr;
    for (unsigned char ch : al) { E q = P.bin(Eq, e, P.cst(8, ch)); c = c ? P.bin(Or, c, q) : q; }
    s.model[e->val] = (unsigned char)al[rnd() % al.size()];
    addAssume(s, c);
    return mkV(e);
  };
  BI("vp_assume") {
    if (!a[0].e) { if (!(a[0].c & 1)) { nAssumed++; throw PathEnd(); } return V(); }
    addAssume(s, a[0].e);
    return V();
  };
  BI("vp_assert") {
    nAsserts++;
    std::string msg = cstr(s, a[1].c);
    if (!a[0].e) {
      if (!(a[0].c & 1)) { violation(s, "assert", msg, nullptr); nTerminated++; endPath(s, "assert"); throw PathEnd(); }
      return V();
    }
    nAssertQ++;
    std::vector<std::pair<int, uint64_t>> m;
    E bad = P.bnot(a[0].e);
    bool save = fast; fast = false;
    int q = query(s, bad, &m);
    fast = save;
    if (q < 0) { nUnsup++; unsupWhat["solver-unknown at assertion"]++; }
    if (q == 1) violation(s, "assert", msg, &m);
    if (q == 1 && query(s, a[0].e, nullptr) != 1) { nTerminated++; applyModel(s, m); endPath(s, "assert"); throw PathEnd(); }
    if (q == 1) addAssume(s, a[0].e);
    return V();
  };
  BI("vp_cover") { s.covers.insert(cstr(s, a[0].c)); return V(); };
  BI("vp_out_u64") { Out o; o.name = cstr(s, a[0].c); o.isbuf = false; o.v.push_back(a[1]); s.outs.push_back(o); return V(); };
  BI("vp_out_buf") {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[1], 64);
    Out o; o.name = cstr(s, a[0].c); o.isbuf = true;
    for (uint64_t i = 0; i < n; i++) o.v.push_back(mkV(byteAt(s, p + i)));
    s.outs.push_back(o);
    return V();
  };
  BI("vp_param") { auto it = params.find(cstr(s, a[0].c)); return it == params.end() ? a[1] : V(it->second); };
  BI("vp_may_abort") { s.abortSet = true; s.expectAbort = a[0].e ? P.ext(a[0].e, 0, 1) : P.cst(1, a[0].c & 1); return V(); };
  BI("vp_concretize") { return V(concretize(s, a[0], 64)); };
  BI("vp_end") { endPath(s, "ok"); throw PathEnd(); };
  BI("vp_trace") { fprintf(stderr, "TRACE %s %s\n", cstr(s, a[0].c).c_str(), cstr(s, a[1].c).c_str()); return V(); };
  auto ab = [](State &s, DInst &d, std::vector<V> &a) -> V {
    nAborts++;
    E ok = s.abortSet ? s.expectAbort : P.cst(1, 0);
    std::vector<std::pair<int, uint64_t>> m;
    int q = query(s, P.bnot(ok), &m);
    if (q != 0) violation(s, "abort", "abnormal termination reached", q == 1 ? &m : nullptr);
    if (q != 0 && query(s, ok, nullptr) != 1) { endPath(s, "abort-violation"); throw PathEnd(); }
    endPath(s, "abort");
    throw PathEnd();
  };
  for (const char *n : {"abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "llvm.trap", "vp_abort"}) b[n] = ab;
  auto al = [](State &s, DInst &d, std::vector<V> &a) -> V { return V(alloc(s, concretize(s, a[0], 64), true)); };
  for (const char *n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) b[n] = al;
  BI("calloc") { uint64_t n = concretize(s, a[0], 64) * concretize(s, a[1], 64); uint64_t p = alloc(s, n, true); Obj &o = wrObj(s, p, n); std::fill(o.b.begin(), o.b.end(), 0); return V(p); };
  auto fr = [](State &s, DInst &d, std::vector<V> &a) -> V {
    uint64_t p = concretize(s, a[0], 64);
    if (!p) return V();
    auto it = s.objs.find(p);
    if (it == s.objs.end() || !it->second->heap) memErr(s, "free", p, 1);
    s.objs.erase(it);
    return V();
  };
  for (const char *n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"}) b[n] = fr;
  BI("realloc") {
    uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
    uint64_t q = alloc(s, n, true);
    if (p) { auto it = s.objs.find(p); if (it == s.objs.end()) memErr(s, "free", p, 1); copyBytes(s, q, p, std::min(n, it->second->size)); s.objs.erase(p); }
    return V(q);
  };
  auto mc = [](State &s, DInst &d, std::vector<V> &a) -> V {
    uint64_t n = concretize(s, a[2], 64), dd = concretize(s, a[0], 64), ss = concretize(s, a[1], 64);
    copyBytes(s, dd, ss, n);
    return V(dd);
  };
  b["memcpy"] = b["memmove"] = mc;
  auto ms = [](State &s, DInst &d, std::vector<V> &a) -> V {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64);
    V v = a[1].e ? mkV(P.ext(a[1].e, 0, 8)) : V(a[1].c & 255);
    if (n) { Obj &o = wrObj(s, p, n); for (uint64_t i = 0; i < n; i++) storeBits(o, p - o.base + i, 8, v); }
    return V(p);
  };
  b["memset"] = ms;
  auto mcmp = [](State &s, DInst &d, std::vector<V> &a) -> V {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    E r = P.cst(32, 0);
    for (uint64_t i = n; i-- > 0;) {
      E x = byteAt(s, p + i), y = byteAt(s, q + i);
      E diff = P.ite(P.bin(Ult, x, y), P.cst(32, ~0ull), P.cst(32, 1));
      r = P.ite(P.bin(Eq, x, y), r, diff);
    }
    return mkV(r);
  };
  b["memcmp"] = mcmp;
  BI("bcmp") {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    E r = P.cst(1, 1);
    for (uint64_t i = 0; i < n; i++) r = P.bin(And, r, P.bin(Eq, byteAt(s, p + i), byteAt(s, q + i)));
    return mkV(P.ite(r, P.cst(32, 0), P.cst(32, 1)));
  };
  auto nop = [](State &s, DInst &d, std::vector<V> &a) -> V { return V(0); };
  for (const char *n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "vp_nop", "fflush", "__cxa_guard_abort", "__cxa_guard_release"}) b[n] = nop;
  BI("__cxa_guard_acquire") {
    uint64_t g = concretize(s, a[0], 64);
    Obj &o = wrObj(s, g, 1);
    V v = loadBits(o, g - o.base, 8);
    storeBits(o, g - o.base, 8, V(1));
    return V(v.c ? 0 : 1);
  };
#undef BI
}

static V intrinsic(State &s, DInst &d, const L::Function *f, std::vector<V> &a) {
  unsigned w = d.ty->isVoidTy() || isAggTy(d.ty) ? 0 : bitw(d.ty);
  auto cmpsel = [&](unsigned pred) {
    V c = doCmp(pred, w, a[0], a[1]);
    if (!c.e) return c.c ? a[0] : a[1];
    return mkV(P.ite(c.e, toE(a[0], w), toE(a[1], w)));
  };
  switch (f->getIntrinsicID()) {
    case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: return builtins["memcpy"](s, d, a);
    case L::Intrinsic::memset: return builtins["memset"](s, d, a);
    case L::Intrinsic::expect: case L::Intrinsic::expect_with_probability: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: case L::Intrinsic::ssa_copy: return a[0];
    case L::Intrinsic::umin: return cmpsel(L::CmpInst::ICMP_ULT);
    case L::Intrinsic::umax: return cmpsel(L::CmpInst::ICMP_UGT);
    case L::Intrinsic::smin: return cmpsel(L::CmpInst::ICMP_SLT);
    case L::Intrinsic::smax: return cmpsel(L::CmpInst::ICMP_SGT);
    case L::Intrinsic::usub_sat: {
      V c = doCmp(L::CmpInst::ICMP_ULT, w, a[0], a[1]);
      V x = doBin(L::Instruction::Sub, w, a[0], a[1]);
      if (!c.e) return c.c ? V(0) : x;
      return mkV(P.ite(c.e, P.cst(w, 0), toE(x, w)));
    }
    case L::Intrinsic::uadd_sat: {
      V x = doBin(L::Instruction::Add, w, a[0], a[1]);
      V c = doCmp(L::CmpInst::ICMP_ULT, w, x, a[0]);
      if (!c.e) return c.c ? V(maskw(w)) : x;
      return mkV(P.ite(c.e, P.cst(w, ~0ull), toE(x, w)));
    }
    case L::Intrinsic::abs: {
      V c = doCmp(L::CmpInst::ICMP_SLT, w, a[0], V(0));
      V x = doBin(L::Instruction::Sub, w, V(0), a[0]);
      if (!c.e) return c.c ? x : a[0];
      return mkV(P.ite(c.e, toE(x, w), toE(a[0], w)));
    }
    case L::Intrinsic::uadd_with_overflow: case L::Intrinsic::usub_with_overflow: {
      unsigned ww = bitw(aggT(d.ty, 0));
      V r; r.agg = std::make_shared<std::vector<V>>();
      bool add = f->getIntrinsicID() == L::Intrinsic::uadd_with_overflow;
      V x = doBin(add ? L::Instruction::Add : L::Instruction::Sub, ww, a[0], a[1]);
      r.agg->push_back(x);
      r.agg->push_back(add ? doCmp(L::CmpInst::ICMP_ULT, ww, x, a[0]) : doCmp(L::CmpInst::ICMP_ULT, ww, a[0], a[1]));
      return r;
    }
    case L::Intrinsic::umul_with_overflow: case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: case L::Intrinsic::smul_with_overflow: {
      unsigned ww = bitw(aggT(d.ty, 0));
      uint64_t x = concretize(s, a[0], ww), y = concretize(s, a[1], ww);
      V r; r.agg = std::make_shared<std::vector<V>>();
      uint64_t res; bool o;
      if (f->getIntrinsicID() == L::Intrinsic::umul_with_overflow) { unsigned __int128 p = (unsigned __int128)x * y; res = (uint64_t)p & maskw(ww); o = p > maskw(ww); }
      else {
        __int128 X = sx64(x, ww), Y = sx64(y, ww), p;
        if (f->getIntrinsicID() == L::Intrinsic::sadd_with_overflow) p = X + Y; else if (f->getIntrinsicID() == L::Intrinsic::ssub_with_overflow) p = X - Y; else p = X * Y;
        res = (uint64_t)p & maskw(ww); o = p != (__int128)sx64(res, ww);
      }
      r.agg->push_back(V(res)); r.agg->push_back(V(o));
      return r;
    }
    case L::Intrinsic::ctpop: case L::Intrinsic::ctlz: case L::Intrinsic::cttz: {
      uint64_t x = concretize(s, a[0], w);
      if (f->getIntrinsicID() == L::Intrinsic::ctpop) return V(__builtin_popcountll(x));
      if (!x) return V(w);
      if (f->getIntrinsicID() == L::Intrinsic::ctlz) return V(__builtin_clzll(x) - (64 - w));
      return V(__builtin_ctzll(x));
    }
    case L::Intrinsic::bswap: {
      E e = toE(a[0], w), r = nullptr;
      for (unsigned i = 0; i < w / 8; i++) { E b = P.ext(e, i * 8, 8); r = r ? P.concat(r, b) : b; }
      return mkV(r);
    }
    case L::Intrinsic::fshl: case L::Intrinsic::fshr: {
      uint64_t sh = concretize(s, a[2], w) % w;
      bool left = f->getIntrinsicID() == L::Intrinsic::fshl;
      if (!sh) return left ? a[0] : a[1];
      uint64_t l = left ? sh : w - sh;
      V hi = doBin(L::Instruction::Shl, w, a[0], V(l)), lo = doBin(L::Instruction::LShr, w, a[1], V(w - l));
      return doBin(L::Instruction::Or, w, hi, lo);
    }
    case L::Intrinsic::objectsize: return V(maskw(w));
    case L::Intrinsic::is_constant: return V(0);
    case L::Intrinsic::trap: return builtins["abort"](s, d, a);
    case L::Intrinsic::stacksave: case L::Intrinsic::stackrestore: return V(0);
    case L::Intrinsic::vastart: case L::Intrinsic::vaend: return V(0);
    case L::Intrinsic::ceil: return V(fromD(__builtin_ceil(asD(a[0].c, d.ty->isFloatTy())), d.ty->isFloatTy()));
    default: unsup("intrinsic " + f->getName().str());
  }
}

static void jump(State &s, int target) {
  Frame &f = s.st.back();
  DBlock &B = f.f->bbs[target];
  if (!B.phis.empty()) {
    std::vector<V> tmp;
    tmp.reserve(B.phis.size());
    for (auto &ph : B.phis) {
      auto it = ph.second.find(f.bb);
      tmp.push_back(get(f, it->second));
    }
    for (size_t i = 0; i < tmp.size(); i++) f.r[B.phis[i].first] = std::move(tmp[i]);
  }
  f.prev = f.bb;
  f.bb = target;
  f.ip = 0;
}

static std::chrono::steady_clock::time_point tstart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count(); }

static V castV(unsigned op, const V &a, unsigned w0, unsigned w) {
  switch (op) {
    case L::Instruction::ZExt: return a.e ? mkV(P.zext(a.e, w)) : a;
    case L::Instruction::SExt: return a.e ? mkV(P.sext(a.e, w)) : V((uint64_t)sx64(a.c, w0) & maskw(w));
    case L::Instruction::Trunc: return a.e ? mkV(P.ext(a.e, 0, w)) : V(a.c & maskw(w));
    case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::AddrSpaceCast:
      if (w == w0) return a;
      if (w < w0) return a.e ? mkV(P.ext(a.e, 0, w)) : V(a.c & maskw(w));
      return a.e ? mkV(P.zext(a.e, w)) : a;
  }
  unsup("cast");
}

// Executes one instruction; returns false when the entry function returned.
static bool step(State &s) {
  Frame &f = s.st.back();
  DInst &d = f.f->bbs[f.bb].ins[f.ip];
  s.steps++; nSteps++;
  typedef L::Instruction I;
  auto set = [&](V v) { f.r[d.dst] = std::move(v); f.ip++; };
  switch (d.op) {
    case I::Br:
      if (d.ops.empty()) { jump(s, d.t0); return true; }
      { V c = get(f, d.ops[0]); bool t = decide(s, c); jump(s, t ? d.t0 : d.t1); }
      return true;
    case I::Switch: {
      V c = get(f, d.ops[0]);
      if (!c.e) {
        for (auto &k : d.cases) if (k.first == c.c) { jump(s, k.second); return true; }
        jump(s, d.t0);
        return true;
      }
      for (auto &k : d.cases) if (decide(s, mkV(P.bin(Eq, c.e, P.cst(d.w0, k.first))))) { jump(s, k.second); return true; }
      jump(s, d.t0);
      return true;
    }
    case I::Ret: {
      V v;
      if (!d.ops.empty()) v = get(f, d.ops[0]);
      for (auto a : f.allocas) s.objs.erase(a);
      int rs = f.retslot;
      s.st.pop_back();
      if (s.st.empty()) return false;
      Frame &g = s.st.back();
      if (rs >= 0) g.r[rs] = std::move(v);
      g.ip++;
      return true;
    }
    case I::Unreachable: {
      violation(s, "unreachable", "unreachable code executed (undefined behaviour or missing return)", nullptr);
      endPath(s, "unreachable");
      throw PathEnd();
    }
    case I::Alloca: {
      auto *ai = L::cast<L::AllocaInst>(d.I);
      uint64_t n = concretize(s, get(f, d.ops[0]), 64) * DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
      uint64_t a = alloc(s, n, false);
      s.st.back().allocas.push_back(a);
      set(V(a));
      return true;
    }
    case I::Load: {
      V a = get(f, d.ops[0]);
      set(loadSym(s, a, d.ty));
      return true;
    }
    case I::Store: {
      V v = get(f, d.ops[0]);
      uint64_t a = concretize(s, get(f, d.ops[1]), 64);
      storeTy(s, a, d.ty, v);
      f.ip++;
      return true;
    }
    case I::GetElementPtr: {
      if (d.ops.empty()) unsup("vector gep");
      V b = get(f, d.ops[0]);
      V r = doBin(I::Add, 64, b, V(d.coff));
      for (size_t i = 0; i < d.scaled.size(); i++) {
        V x = get(f, d.ops[d.scaled[i].first]);
        x = castV(I::SExt, x, d.idx[i], 64);
        r = doBin(I::Add, 64, r, doBin(I::Mul, 64, x, V(d.scaled[i].second)));
      }
      set(r);
      return true;
    }
    case I::ICmp: {
      L::Type *t = d.I->getOperand(0)->getType();
      V a = get(f, d.ops[0]), b = get(f, d.ops[1]);
      L::Type *et = t->isVectorTy() ? aggT(t, 0) : t;
      unsigned w = bitw(et);
      set(lift2(t, a, b, [&](const V &x, const V &y) { return doCmp(d.pred, w, x, y); }));
      return true;
    }
    case I::Select: {
      V c = get(f, d.ops[0]);
      if (c.agg) {
        V t = get(f, d.ops[1]), e = get(f, d.ops[2]), r;
        r.agg = std::make_shared<std::vector<V>>();
        for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(decide(s, (*c.agg)[i]) ? (*t.agg)[i] : (*e.agg)[i]);
        set(r);
        return true;
      }
      if (!c.e) { set(get(f, d.ops[(c.c & 1) ? 1 : 2])); return true; }
      if (d.ty->isPointerTy() || isAggTy(d.ty) || d.ty->isFloatingPointTy()) { set(get(f, d.ops[decide(s, c) ? 1 : 2])); return true; }
      unsigned w = bitw(d.ty);
      set(mkV(P.ite(c.e, toE(get(f, d.ops[1]), w), toE(get(f, d.ops[2]), w))));
      return true;
    }
    case I::Freeze: set(get(f, d.ops[0])); return true;
    case I::ZExt: case I::SExt: case I::Trunc: case I::PtrToInt: case I::IntToPtr: case I::BitCast: case I::AddrSpaceCast: {
      L::Type *st = d.I->getOperand(0)->getType();
      V a = get(f, d.ops[0]);
      if (isAggTy(st) || isAggTy(d.ty)) {
        if (isAggTy(st) && isAggTy(d.ty) && aggN(st) == aggN(d.ty)) {
          V r; r.agg = std::make_shared<std::vector<V>>();
          for (auto &x : *a.agg) r.agg->push_back(castV(d.op, x, bitw(aggT(st, 0)), bitw(aggT(d.ty, 0))));
          set(r); return true;
        }
        if (d.op == I::BitCast && isAggTy(st) && !isAggTy(d.ty)) {
          E r = nullptr; unsigned ew = bitw(aggT(st, 0));
          for (auto &x : *a.agg) { E b = toE(x, ew); r = r ? P.concat(b, r) : b; }
          set(mkV(r)); return true;
        }
        unsup("vector cast");
      }
      set(castV(d.op, a, bitw(st), bitw(d.ty)));
      return true;
    }
    case I::ExtractValue: {
      V v = get(f, d.ops[0]);
      for (unsigned x : d.idx) { V t = (*v.agg)[x]; v = t; }
      set(v);
      return true;
    }
    case I::InsertValue: {
      V v = get(f, d.ops[0]), x = get(f, d.ops[1]);
      std::function<V(V, size_t)> ins = [&](V t, size_t k) -> V {
        if (k == d.idx.size()) return x;
        V r; r.agg = std::make_shared<std::vector<V>>(*t.agg);
        (*r.agg)[d.idx[k]] = ins((*t.agg)[d.idx[k]], k + 1);
        return r;
      };
      set(ins(v, 0));
      return true;
    }
    case I::ExtractElement: { V v = get(f, d.ops[0]); uint64_t i = concretize(s, get(f, d.ops[1]), 64); set(V((*v.agg)[i])); return true; }
    case I::InsertElement: {
      V v = get(f, d.ops[0]); uint64_t i = concretize(s, get(f, d.ops[2]), 64);
      V r; r.agg = std::make_shared<std::vector<V>>(*v.agg); (*r.agg)[i] = get(f, d.ops[1]); set(r); return true;
    }
    case I::ShuffleVector: {
      V a = get(f, d.ops[0]), b = get(f, d.ops[1]), r;
      r.agg = std::make_shared<std::vector<V>>();
      for (unsigned x : d.idx) r.agg->push_back((int)x < 0 ? V(0) : x < a.agg->size() ? (*a.agg)[x] : (*b.agg)[x - a.agg->size()]);
      set(r);
      return true;
    }
    case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: {
      bool fl = d.ty->isFloatTy();
      V x = get(f, d.ops[0]), y = get(f, d.ops[1]);
      if (x.e || y.e || x.agg) unsup("symbolic float");
      double p = asD(x.c, fl), q = asD(y.c, fl);
      double r = d.op == I::FAdd ? p + q : d.op == I::FSub ? p - q : d.op == I::FMul ? p * q : p / q;
      set(V(fromD(r, fl)));
      return true;
    }
    case I::FCmp: {
      bool fl = d.I->getOperand(0)->getType()->isFloatTy();
      V x = get(f, d.ops[0]), y = get(f, d.ops[1]);
      if (x.e || y.e) unsup("symbolic float");
      double p = asD(x.c, fl), q = asD(y.c, fl);
      bool r;
      switch (d.pred & 7) { case 1: r = p == q; break; case 2: r = p > q; break; case 3: r = p >= q; break; case 4: r = p < q; break; case 5: r = p <= q; break; case 6: r = p != q; break; default: unsup("fcmp"); }
      set(V(r));
      return true;
    }
    case I::UIToFP: case I::SIToFP: {
      V x = get(f, d.ops[0]);
      unsigned w0 = bitw(d.I->getOperand(0)->getType());
      uint64_t c = concretize(s, x, w0);
      set(V(fromD(d.op == I::UIToFP ? (double)c : (double)sx64(c, w0), d.ty->isFloatTy())));
      return true;
    }
    case I::FPToUI: case I::FPToSI: {
      V x = get(f, d.ops[0]);
      double p = asD(x.c, d.I->getOperand(0)->getType()->isFloatTy());
      set(V((d.op == I::FPToUI ? (uint64_t)p : (uint64_t)(int64_t)p) & maskw(bitw(d.ty))));
      return true;
    }
    case I::FPExt: { V x = get(f, d.ops[0]); set(V(fromD(asD(x.c, true), false))); return true; }
    case I::FPTrunc: { V x = get(f, d.ops[0]); set(V(fromD(asD(x.c, false), true))); return true; }
    case I::AtomicRMW: {
      auto *rm = L::cast<L::AtomicRMWInst>(d.I);
      uint64_t a = concretize(s, get(f, d.ops[0]), 64);
      V old = loadTy(s, a, d.ty), x = get(f, d.ops[1]), n;
      unsigned w = bitw(d.ty);
      switch (rm->getOperation()) {
        case L::AtomicRMWInst::Add: n = doBin(I::Add, w, old, x); break;
        case L::AtomicRMWInst::Sub: n = doBin(I::Sub, w, old, x); break;
        case L::AtomicRMWInst::Xchg: n = x; break;
        default: unsup("atomicrmw");
      }
      storeTy(s, a, d.ty, n);
      set(old);
      return true;
    }
    case I::Fence: f.ip++; return true;
    case I::Call: {
      const L::Function *F = d.callee;
      size_t na = d.ops.size() - (F ? 0 : 1);
      if (!F) {
        uint64_t fp = concretize(s, get(f, d.ops.back()), 64);
        if (fp < kFuncBase || (fp - kFuncBase) / 16 >= funcs.size() || (fp - kFuncBase) % 16) memErr(s, "call through bad function pointer", fp, 1);
        F = funcs[(fp - kFuncBase) / 16];
      }
      std::vector<V> args;
      for (size_t i = 0; i < na; i++) args.push_back(get(f, d.ops[i]));
      int dst = d.dst;
      V r;
      if (F->isIntrinsic()) r = intrinsic(s, d, F, args);
      else {
        auto it = builtins.find(F->getName().str());
        if (it != builtins.end()) r = it->second(s, d, args);
        else if (F->isDeclaration()) unsup("external " + L::demangle(F->getName().str()));
        else { pushFrame(s, F, args, dst); return true; }
      }
      if (dst >= 0) f.r[dst] = std::move(r);
      f.ip++;
      return true;
    }
    default: {
      if (L::isa<L::BinaryOperator>(d.I)) {
        V a = get(f, d.ops[0]), b = get(f, d.ops[1]);
        L::Type *et = d.ty->isVectorTy() ? aggT(d.ty, 0) : d.ty;
        unsigned w = bitw(et);
        unsigned op = d.op;
        if (op == I::UDiv || op == I::SDiv || op == I::URem || op == I::SRem) {
          V z = doCmp(L::CmpInst::ICMP_EQ, w, b, V(0));
          if (decide(s, z)) { violation(s, "arith", "division by zero", nullptr); endPath(s, "div0"); throw PathEnd(); }
        }
        set(lift2(d.ty, a, b, [&](const V &x, const V &y) { return doBin(op, w, x, y); }));
        return true;
      }
      unsup(std::string("instruction ") + d.I->getOpcodeName());
    }
  }
}

static void runState(SP s0) {
  State &s = *s0;
  try {
    for (;;) {
      if (!step(s)) { endPath(s, "ok"); return; }
      if ((s.steps & 4095) == 0) {
        if (elapsed() > maxTime) { timedOut = true; return; }
        if (s.steps > maxSteps) { nUnsup++; unsupWhat["step limit"]++; Rec r; r.kind = "steplimit"; r.msg = "step limit"; r.in = inputsOf(s, s.model); incompletes.push_back(r); if (++nStepLimit >= 4) timedOut = true; return; }
      }
    }
  } catch (PathEnd &) {
  } catch (Unsupported &u) {
    nUnsup++;
    std::string k = u.what;
    if (!unsupWhat[k]++) fprintf(stderr, "UNSUPPORTED %s\n   at %s\n", k.c_str(), where(s).c_str());
    if (incompletes.size() < 200) { Rec r; r.kind = "incomplete"; r.msg = k; r.in = inputsOf(s, s.model); incompletes.push_back(r); }
  }
}

static std::string js(const std::string &x) {
  std::string r = "\"";
  for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static void printRecs(FILE *o, const char *name, std::vector<Rec> &v) {
  fprintf(o, "\"%s\":[", name);
  for (size_t i = 0; i < v.size(); i++) {
    Rec &r = v[i];
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"in\":[", i ? ",\n" : "\n", js(r.kind).c_str(), js(r.msg).c_str(), js(r.where).c_str());
    for (size_t k = 0; k < r.in.size(); k++) fprintf(o, "%s[%s,%llu]", k ? "," : "", js(r.in[k].first).c_str(), (unsigned long long)r.in[k].second);
    fprintf(o, "],\"out\":[");
    for (size_t k = 0; k < r.out.size(); k++) fprintf(o, "%s[%s,%s]", k ? "," : "", js(r.out[k].first).c_str(), js(r.out[k].second).c_str());
    fprintf(o, "],\"cov\":[");
    for (size_t k = 0; k < r.cov.size(); k++) fprintf(o, "%s%s", k ? "," : "", js(r.cov[k]).c_str());
    fprintf(o, "]}");
  }
  fprintf(o, "],\n");
}

int main(int argc, char **argv) {
  std::vector<std::string> files;
  std::string entry = "harness", outf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-entry") entry = nx();
    else if (a == "-o") outf = nx();
    else if (a == "-param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, 0, 0); }
    else if (a == "-max-time") maxTime = atof(nx().c_str());
    else if (a == "-max-steps") maxSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "-max-paths") maxPaths = strtoull(nx().c_str(), 0, 0);
    else if (a == "-witnesses") nWitness = atoi(nx().c_str());
    else if (a == "-seed") seed = atoi(nx().c_str());
    else if (a == "-nofast") fast = false;
    else if (a == "-forkprof") forkprof = true;
    else files.push_back(a);
  }
  rngs ^= seed * 0x9E3779B97F4A7C15ull; rnd(); rnd();
  tstart = std::chrono::steady_clock::now();
  L::LLVMContext ctx;
  L::SMDiagnostic err;
  std::unique_ptr<L::Module> mod;
  for (auto &fn : files) {
    auto m = L::parseIRFile(fn, err, ctx);
    if (!m) { err.print("symex", L::errs()); return 3; }
    if (!mod) mod = std::move(m);
    else if (L::Linker::linkModules(*mod, std::move(m))) return 3;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  S = new Solver(P);
  initBuiltins();
  for (auto &f : *M) { faddr[&f] = kFuncBase + 16 * funcs.size(); funcs.push_back(&f); }
  uint64_t ga = kGlobBase;
  for (auto &g : M->globals()) {
    auto o = std::make_shared<Obj>();
    bool ext = g.isDeclaration();
    o->size = ext ? 1024 : DL->getTypeAllocSize(g.getValueType()).getFixedValue();
    o->base = ga;
    o->b.assign(o->size, 0);
    ga = (ga + o->size + 64 + 63) & ~63ull;
    gaddr[&g] = o->base;
    gobjs[o->base] = o;
  }
  for (auto &g : M->globals()) if (!g.isDeclaration()) {
    Obj &o = *gobjs[gaddr[&g]];
    try { initMem(o, 0, g.getInitializer()); } catch (Unsupported &u) { fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.what.c_str()); }
    o.ro = g.isConstant();
  }
  double tload = elapsed();
  SP init(new State);
  // global constructors, concretely
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) {
    std::vector<std::pair<uint64_t, const L::Function *>> ct;
    if (auto *arr = L::dyn_cast<L::ConstantArray>(gc->getInitializer()))
      for (auto &op : arr->operands()) {
        auto *cs = L::cast<L::ConstantStruct>(op);
        if (auto *F = L::dyn_cast<L::Function>(cs->getOperand(1)->stripPointerCasts())) ct.push_back({L::cast<L::ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
      }
    std::stable_sort(ct.begin(), ct.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ct) {
      std::vector<V> none;
      pushFrame(*init, c.second, none, -1);
      try { while (!init->st.empty()) if (!step(*init)) break; }
      catch (Unsupported &u) { fprintf(stderr, "UNSUPPORTED in ctor %s: %s\n", c.second->getName().str().c_str(), u.what.c_str()); init->st.clear(); }
      catch (PathEnd &) { fprintf(stderr, "ctor %s ended the path\n", c.second->getName().str().c_str()); return 3; }
    }
  }
  const L::Function *EF = M->getFunction(entry);
  if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<V> none;
  pushFrame(*init, EF, none, -1);
  nSteps = 0;
  work.push_back(std::move(init));
  while (!work.empty() && !timedOut && nPaths < maxPaths) {
    SP s = std::move(work.back());
    work.pop_back();
    runState(std::move(s));
    if (elapsed() > maxTime) { timedOut = true; }
    size_t nv = 0;
    for (auto &p : violCount) nv += p.second;
    if (nv > 60) break;
  }
  bool complete = work.empty() && !timedOut && !nUnsup;
  FILE *o = outf.empty() ? stdout : fopen(outf.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"complete\":%s,\"timed_out\":%s,\"pending\":%zu,\n", js(entry).c_str(), complete ? "true" : "false", timedOut ? "true" : "false", work.size());
  fprintf(o, "\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"assumed_away\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"aborts\":%llu,\"unsupported\":%llu,\n",
          (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)nAssumed, (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)nAborts, (unsigned long long)nUnsup);
  fprintf(o, "\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"tables\":%llu,\"z3_time\":%.3f,\"unknowns\":%llu,\"load_s\":%.2f,\"wall_s\":%.2f,\"vars\":%zu,\n",
          (unsigned long long)S->queries, (unsigned long long)S->z3calls, (unsigned long long)S->cachehits, (unsigned long long)S->tabled, S->z3time, (unsigned long long)S->unknowns, tload, elapsed(), P.vars.size());
  auto pm = [&](const char *n, std::map<std::string, uint64_t> &m) {
    fprintf(o, "\"%s\":{", n);
    bool first = true;
    for (auto &p : m) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n");
  };
  pm("covers", covers); pm("unsup_what", unsupWhat);
  if (forkprof) pm("fork_sites", forkSites);
  std::map<std::string, uint64_t> fx;
  for (auto &p : dfuncs) if (p.second->execs) fx[L::demangle(p.first->getName().str())] = p.second->execs;
  pm("functions", fx);
  printRecs(o, "violations", viols);
  printRecs(o, "incomplete", incompletes);
  printRecs(o, "witnesses", wits);
  fprintf(o, "\"end\":1}\n");
  if (o != stdout) fclose(o);
  return 0;
}
