// symex: path-forking symbolic executor for LLVM IR (see DESIGN.md).
//   symex [options] file.bc...   -- links the modules and runs `-entry F`.
#include "expr.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <functional>
#include <set>
#include <unordered_set>

using namespace sx;
namespace L = llvm;

// ---------------------------------------------------------------- values
struct V;
typedef std::shared_ptr<std::vector<V>> Agg;
struct V {
  E e = nullptr;     // symbolic expression, or null when concrete
  uint64_t c = 0;    // concrete value (masked)
  Agg agg;
  V() {}
  V(uint64_t x) : c(x) {}
};

static Pool P;
static Solver *S;
static L::Module *M;
static const L::DataLayout *DL;

static V mkV(E e) { V v; if (e->op == Const) v.c = e->val; else v.e = e; return v; }
static E toE(const V &v, unsigned w) { return v.e ? v.e : P.cst(w, v.c); }

// ---------------------------------------------------------------- memory
struct Obj {
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> b;
  std::vector<E> s;  // empty, or one entry per byte (null = concrete)
  bool ro = false, heap = false;
};
typedef std::shared_ptr<Obj> ObjP;

static const uint64_t kFuncBase = 0x1000000, kGlobBase = 0x10000000, kHeapBase = 0x100000000ull;
static std::map<uint64_t, ObjP> gobjs;
static std::map<const L::GlobalVariable *, uint64_t> gaddr;
static std::map<const L::Function *, uint64_t> faddr;
static std::vector<const L::Function *> funcs;

// ---------------------------------------------------------------- decoding
struct Opnd { int slot = -1; V c; };
struct DInst {
  const L::Instruction *I;
  unsigned op;
  int dst = -1;
  unsigned w = 0;       // result or access width in bits
  unsigned w0 = 0;      // operand-0 width
  L::Type *ty = nullptr;
  std::vector<Opnd> ops;
  uint64_t coff = 0;                       // gep constant offset
  std::vector<std::pair<int, uint64_t>> scaled;  // gep: (operand index, scale)
  std::vector<unsigned> idx;
  int t0 = -1, t1 = -1;                    // branch targets
  std::vector<std::pair<uint64_t, int>> cases;
  const L::Function *callee = nullptr;
  unsigned pred = 0;
};
struct DBlock { std::vector<DInst> ins; std::vector<std::pair<int, std::map<int, Opnd>>> phis; };
struct DFunc {
  const L::Function *F;
  int nslots = 0, nargs = 0;
  std::vector<DBlock> bbs;
  uint64_t execs = 0;
};
static std::map<const L::Function *, std::unique_ptr<DFunc>> dfuncs;

struct Unsupported { std::string what; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

static unsigned bitw(L::Type *t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsup("int wider than 64"); return w; }
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  unsup("type");
}
static bool isAggTy(L::Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(L::Type *t) {
  if (auto *s = L::dyn_cast<L::StructType>(t)) return s->getNumElements();
  if (auto *a = L::dyn_cast<L::ArrayType>(t)) return a->getNumElements();
  return L::cast<L::FixedVectorType>(t)->getNumElements();
}
static L::Type *aggT(L::Type *t, unsigned i) {
  if (auto *s = L::dyn_cast<L::StructType>(t)) return s->getElementType(i);
  if (auto *a = L::dyn_cast<L::ArrayType>(t)) return a->getElementType();
  return L::cast<L::FixedVectorType>(t)->getElementType();
}
static uint64_t aggOff(L::Type *t, unsigned i) {
  if (auto *s = L::dyn_cast<L::StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
  return i * DL->getTypeAllocSize(aggT(t, i)).getFixedValue();
}
static V zeroV(L::Type *t) {
  if (!isAggTy(t)) return V(0);
  V v; v.agg = std::make_shared<std::vector<V>>();
  for (unsigned i = 0; i < aggN(t); i++) v.agg->push_back(zeroV(aggT(t, i)));
  return v;
}

static V evalConst(const L::Constant *c) {
  if (auto *ci = L::dyn_cast<L::ConstantInt>(c)) { if (ci->getBitWidth() > 64) unsup("wide const"); return V(ci->getZExtValue()); }
  if (L::isa<L::ConstantPointerNull>(c)) return V(0);
  if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c)) return zeroV(c->getType());
  if (auto *cf = L::dyn_cast<L::ConstantFP>(c)) return V(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (auto *f = L::dyn_cast<L::Function>(c)) return V(faddr.at(f));
  if (auto *g = L::dyn_cast<L::GlobalVariable>(c)) return V(gaddr.at(g));
  if (auto *ga = L::dyn_cast<L::GlobalAlias>(c)) return evalConst(ga->getAliasee());
  if (auto *cd = L::dyn_cast<L::ConstantDataSequential>(c)) {
    V v; v.agg = std::make_shared<std::vector<V>>();
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
    return v;
  }
  if (auto *ca = L::dyn_cast<L::ConstantAggregate>(c)) {
    V v; v.agg = std::make_shared<std::vector<V>>();
    for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(evalConst(ca->getOperand(i)));
    return v;
  }
  if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case L::Instruction::GetElementPtr: {
        auto *g = L::cast<L::GEPOperator>(ce);
        L::APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) unsup("const gep");
        return V(evalConst(L::cast<L::Constant>(g->getPointerOperand())).c + off.getZExtValue());
      }
      case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast:
      case L::Instruction::Trunc:
        return V(evalConst(ce->getOperand(0)).c & maskw(bitw(ce->getType())));
      case L::Instruction::Sub: return V((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(bitw(ce->getType())));
      case L::Instruction::Add: return V((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(bitw(ce->getType())));
      default: unsup("constexpr");
    }
  }
  unsup("constant");
}
static void initMem(Obj &o, uint64_t off, const L::Constant *c) {
  L::Type *t = c->getType();
  if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c)) return;
  if (isAggTy(t)) {
    if (auto *cd = L::dyn_cast<L::ConstantDataSequential>(c)) {
      L::StringRef raw = cd->getRawDataValues();
      memcpy(&o.b[off], raw.data(), raw.size());
      return;
    }
    for (unsigned i = 0; i < aggN(t); i++) initMem(o, off + aggOff(t, i), L::cast<L::Constant>(c->getOperand(i)));
    return;
  }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
    const auto &ap = L::cast<L::ConstantInt>(c)->getValue();
    memcpy(&o.b[off], ap.getRawData(), (ap.getBitWidth() + 7) / 8);
    return;
  }
  V v = evalConst(c);
  unsigned n = (bitw(t) + 7) / 8;
  memcpy(&o.b[off], &v.c, n);
}

static DFunc *decode(const L::Function *F) {
  auto &p = dfuncs[F];
  if (p) return p.get();
  p.reset(new DFunc);
  DFunc &D = *p;
  D.F = F;
  L::DenseMap<const L::Value *, int> slot;
  L::DenseMap<const L::BasicBlock *, int> bbi;
  for (auto &a : F->args()) slot[&a] = D.nslots++;
  D.nargs = D.nslots;
  int n = 0;
  for (auto &bb : *F) { bbi[&bb] = n++; for (auto &I : bb) if (!I.getType()->isVoidTy()) slot[&I] = D.nslots++; }
  auto mkop = [&](const L::Value *v) {
    Opnd o;
    auto it = slot.find(v);
    if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto *c = L::dyn_cast<L::Constant>(v)) o.c = evalConst(c);
    return o;
  };
  D.bbs.resize(n);
  for (auto &bb : *F) {
    DBlock &B = D.bbs[bbi[&bb]];
    for (auto &I : bb) {
      if (auto *ph = L::dyn_cast<L::PHINode>(&I)) {
        std::map<int, Opnd> m;
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) m[bbi[ph->getIncomingBlock(i)]] = mkop(ph->getIncomingValue(i));
        B.phis.push_back({slot[ph], std::move(m)});
        continue;
      }
      if (auto *ii = L::dyn_cast<L::IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
          case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value: case L::Intrinsic::dbg_label:
          case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::assume:
          case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::donothing:
          case L::Intrinsic::invariant_start: case L::Intrinsic::invariant_end: case L::Intrinsic::prefetch:
            continue;
          default: break;
        }
      }
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) d.dst = slot[&I];
      d.ty = I.getType();
      switch (d.op) {
        case L::Instruction::Br: {
          auto *br = L::cast<L::BranchInst>(&I);
          if (br->isConditional()) { d.ops.push_back(mkop(br->getCondition())); d.t0 = bbi[br->getSuccessor(0)]; d.t1 = bbi[br->getSuccessor(1)]; }
          else d.t0 = bbi[br->getSuccessor(0)];
          break;
        }
        case L::Instruction::Switch: {
          auto *sw = L::cast<L::SwitchInst>(&I);
          d.ops.push_back(mkop(sw->getCondition()));
          d.w0 = bitw(sw->getCondition()->getType());
          d.t0 = bbi[sw->getDefaultDest()];
          for (auto &c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
          break;
        }
        case L::Instruction::GetElementPtr: {
          auto *g = L::cast<L::GetElementPtrInst>(&I);
          if (g->getType()->isVectorTy()) break;
          d.ops.push_back(mkop(g->getPointerOperand()));
          for (auto ti = L::gep_type_begin(g), te = L::gep_type_end(g); ti != te; ++ti) {
            const L::Value *ix = ti.getOperand();
            if (auto *st = ti.getStructTypeOrNull()) {
              d.coff += DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue());
            } else {
              uint64_t sc = ti.getSequentialElementStride(*DL).getFixedValue();
              if (auto *ci = L::dyn_cast<L::ConstantInt>(ix)) d.coff += (uint64_t)ci->getSExtValue() * sc;
              else { d.ops.push_back(mkop(ix)); d.scaled.push_back({(int)d.ops.size() - 1, sc}); d.idx.push_back(bitw(ix->getType())); }
            }
          }
          break;
        }
        case L::Instruction::Call: {
          auto *cb = L::cast<L::CallBase>(&I);
          const L::Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
          d.callee = L::dyn_cast<L::Function>(cv);
          for (auto &a : cb->args()) d.ops.push_back(a->getType()->isMetadataTy() ? Opnd() : mkop(a));
          if (!d.callee) d.ops.push_back(mkop(cb->getCalledOperand()));
          break;
        }
        case L::Instruction::ExtractValue: d.ops.push_back(mkop(I.getOperand(0))); for (unsigned x : L::cast<L::ExtractValueInst>(I).indices()) d.idx.push_back(x); break;
        case L::Instruction::InsertValue: d.ops.push_back(mkop(I.getOperand(0))); d.ops.push_back(mkop(I.getOperand(1))); for (unsigned x : L::cast<L::InsertValueInst>(I).indices()) d.idx.push_back(x); break;
        case L::Instruction::ICmp: d.pred = L::cast<L::ICmpInst>(I).getPredicate(); d.ops = {mkop(I.getOperand(0)), mkop(I.getOperand(1))}; break;
        case L::Instruction::FCmp: d.pred = L::cast<L::FCmpInst>(I).getPredicate(); d.ops = {mkop(I.getOperand(0)), mkop(I.getOperand(1))}; break;
        case L::Instruction::ShuffleVector: d.ops = {mkop(I.getOperand(0)), mkop(I.getOperand(1))}; for (int x : L::cast<L::ShuffleVectorInst>(I).getShuffleMask()) d.idx.push_back(x); break;
        default:
          for (auto &o : I.operands()) d.ops.push_back(mkop(o));
      }
      if (d.op == L::Instruction::Store) d.ty = I.getOperand(0)->getType();
      B.ins.push_back(std::move(d));
    }
  }
  return p.get();
}

// ---------------------------------------------------------------- states
struct Frame {
  DFunc *f; int bb = 0, ip = 0, prev = -1;
  std::vector<V> r;
  std::vector<uint64_t> allocas;
  int retslot = -1;
};
struct Dom { uint64_t b[4]; };
struct Out { std::string name; bool isbuf; std::vector<V> v; };
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> objs, gover;
  std::vector<E> cons;
  std::vector<Dom> dom; std::vector<char> multi;
  Model model;
  std::map<E, uint64_t> known;
  std::map<std::string, int> namectr;
  std::vector<std::pair<std::string, E>> inputs;
  std::vector<Out> outs;
  std::set<std::string> covers;
  std::vector<std::string> notes;
  uint64_t next = kHeapBase, steps = 0;
  E expectAbort = nullptr;   // abort allowed iff this holds
  bool abortSet = false;
  int depth = 0;
};
typedef std::unique_ptr<State> SP;
static std::vector<SP> work;

// options & statistics
static uint64_t maxSteps = 20000000, maxPaths = ~0ull, nSteps, nPaths, nAssumed, nUnsup, nForks, nAsserts, nAssertQ, nAborts, nTerminated;
static double maxTime = 600;
static int nStepLimit;  // paths given up at the step limit; after a few, the rest is not explored
static int nWitness = 24, maxViol = 8;
static unsigned seed = 1;
static bool fast = true;
static std::map<std::string, uint64_t> params;
static std::map<std::string, uint64_t> covers, unsupWhat, forkSites;
static std::map<std::string, E> symVars;
static bool timedOut = false;
static bool forkprof = false;

struct Rec { std::string kind, msg, where; std::vector<std::pair<std::string, uint64_t>> in; std::vector<std::pair<std::string, std::string>> out; std::vector<std::string> cov; };
static std::vector<Rec> viols, wits;
static std::map<std::string, int> violCount;
static std::set<std::string> violSeen;

static uint64_t rngs = 88172645463325252ull;
static uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

static std::string where(State &s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--, n++) {
    r += L::demangle(s.st[i].f->F->getName().str()).substr(0, 80);
    r += " < ";
  }
  return r;
}
static uint64_t mval(State &s, E e) { return S->ev.ev(e, s.model, P); }

static void growDom(State &s) {
  while (s.dom.size() < P.vars.size()) {
    auto &v = P.vars[s.dom.size()];
    Dom d{{0, 0, 0, 0}};
    if (v.hi - v.lo < 256) for (uint64_t i = 0; i <= v.hi - v.lo; i++) d.b[i / 64] |= 1ull << (i % 64);
    s.dom.push_back(d);
    s.multi.push_back(v.hi - v.lo >= 256);
  }
}
static std::unordered_map<uint32_t, Dom> ttab;
static const Dom &table(E e, int var) {
  auto it = ttab.find(e->id);
  if (it != ttab.end()) return it->second;
  Dom d{{0, 0, 0, 0}};
  auto &v = P.vars[var];
  Model m(var + 1, 0);
  for (uint64_t i = 0; i <= v.hi - v.lo && i < 256; i++) { m[var] = v.lo + i; if (S->ev.ev(e, m, P)) d.b[i / 64] |= 1ull << (i % 64); }
  S->tabled++;
  return ttab.emplace(e->id, d).first->second;
}
static int popc(const Dom &d) { int c = 0; for (auto x : d.b) c += __builtin_popcountll(x); return c; }

// Feasibility of path && e.  On sat, *m gets variable updates.
static int query(State &s, E e, std::vector<std::pair<int, uint64_t>> *m) {
  if (m) m->clear();
  if (e->op == Const) return e->val;
  growDom(s);
  if (fast && e->vs->count() == 1) {
    int v = e->vs->first();
    if (P.vars[v].hi - P.vars[v].lo < 256) {
      const Dom &t = table(e, v);
      Dom r; bool any = false;
      for (int i = 0; i < 4; i++) { r.b[i] = t.b[i] & s.dom[v].b[i]; any |= r.b[i] != 0; }
      if (!any) return 0;
      if (!s.multi[v]) {
        int k = rnd() % popc(r), pos = -1;
        for (int i = 0; i < 256; i++) if (r.b[i / 64] >> (i % 64) & 1) { if (!k--) { pos = i; break; } }
        if (m) m->push_back({v, P.vars[v].lo + pos});
        return 1;
      }
    }
  }
  if (fast) {  // all variables pinned?
    bool pinned = true;
    for (int i = 0; i < (int)P.vars.size() && pinned; i++) if (e->vs->get(i)) if (P.vars[i].hi - P.vars[i].lo >= 256 || popc(s.dom[i]) != 1) pinned = false;
    if (pinned) return mval(s, e) ? 1 : 0;
  }
  VarSet vs = *e->vs;
  std::vector<E> sel{e};
  std::vector<char> used(s.cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) if (!used[i] && s.cons[i]->vs->intersects(vs)) { used[i] = 1; sel.push_back(s.cons[i]); if (vs.merge(*s.cons[i]->vs)) ch = true; }
  }
  return S->check(sel, m);
}
static void addCons(State &s, E e) {
  if (e->op == Const) return;
  growDom(s);
  if (e->op == And && e->w == 1) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; }
  for (E c : s.cons) if (c == e) return;
  s.cons.push_back(e);
  if (e->vs->count() == 1 && P.vars[e->vs->first()].hi - P.vars[e->vs->first()].lo < 256) {
    int v = e->vs->first();
    const Dom &t = table(e, v);
    for (int i = 0; i < 4; i++) s.dom[v].b[i] &= t.b[i];
  } else for (int i = 0; i < (int)P.vars.size(); i++) if (e->vs->get(i)) s.multi[i] = 1;
}
static void applyModel(State &s, const std::vector<std::pair<int, uint64_t>> &m) {
  for (auto &p : m) {
    while ((int)s.model.size() <= p.first) s.model.push_back(P.vars[s.model.size()].lo);
    s.model[p.first] = p.second;
  }
}
static void clearRegsKnown(State &) {}

static std::vector<std::pair<std::string, uint64_t>> inputsOf(State &s, const Model &m) {
  std::vector<std::pair<std::string, uint64_t>> r;
  for (auto &p : s.inputs) r.push_back({p.first, S->ev.ev(p.second, m, P)});
  return r;
}
static std::string hexOf(State &s, const Out &o) {
  std::string r; char b[24];
  for (auto &v : o.v) {
    uint64_t x = v.e ? mval(s, v.e) : v.c;
    snprintf(b, sizeof b, o.isbuf ? "%02x" : "%llu", (unsigned long long)x);
    r += b;
  }
  return r;
}
static void violation(State &s, const std::string &kind, const std::string &msg, const std::vector<std::pair<int, uint64_t>> *m) {
  std::string key = kind + ":" + msg;
  violCount[key]++;
  if (violCount[key] > 3) return;
  Model mm = s.model;
  if (m) for (auto &p : *m) { while ((int)mm.size() <= p.first) mm.push_back(P.vars[mm.size()].lo); mm[p.first] = p.second; }
  Rec r; r.kind = kind; r.msg = msg; r.where = where(s); r.in = inputsOf(s, mm);
  for (auto &c : s.covers) r.cov.push_back(c);
  viols.push_back(r);
}
static void endPath(State &s, const std::string &kind) {
  nPaths++;
  for (auto &c : s.covers) covers[c]++;
  bool take = (int)wits.size() < nWitness;
  size_t slot = wits.size();
  if (!take) { uint64_t k = rnd() % nPaths; if (k < (uint64_t)nWitness) { take = true; slot = k; } }
  if (take) {
    Rec r; r.kind = kind;
    r.in = inputsOf(s, s.model);
    for (auto &o : s.outs) r.out.push_back({o.name, hexOf(s, o)});
    for (auto &c : s.covers) r.cov.push_back(c);
    if (slot == wits.size()) wits.push_back(r); else wits[slot] = r;
  }
}

// Terminates the current path.
struct PathEnd {};

static void profFork(State &s) {
  nForks++;
  if (forkprof) forkSites[where(s)]++;
}

// Decide a width-1 value, forking when both sides are feasible.  The clone
// re-executes the current instruction (ip must not have been advanced).
static bool decide(State &s, const V &cond) {
  if (!cond.e) return cond.c & 1;
  auto it = s.known.find(cond.e);
  if (it != s.known.end()) return it->second;
  bool val = mval(s, cond.e) & 1;
  E other = val ? P.bnot(cond.e) : cond.e, mine = val ? cond.e : P.bnot(cond.e);
  std::vector<std::pair<int, uint64_t>> m;
  int q = query(s, other, &m);
  if (q < 0) { nUnsup++; unsupWhat["solver-unknown"]++; q = 0; }
  if (q) {
    profFork(s);
    SP n(new State(s));
    addCons(*n, other);
    applyModel(*n, m);
    n->known[cond.e] = !val;
    n->depth++;
    work.push_back(std::move(n));
    s.depth++;
  }
  addCons(s, mine);
  s.known[cond.e] = val;
  return val;
}
static uint64_t concretize(State &s, const V &v, unsigned w) {
  if (!v.e) return v.c;
  auto it = s.known.find(v.e);
  if (it != s.known.end()) return it->second;
  uint64_t val = mval(s, v.e);
  E eq = P.bin(Eq, v.e, P.cst(w, val)), ne = P.bnot(eq);
  std::vector<std::pair<int, uint64_t>> m;
  int q = query(s, ne, &m);
  if (q < 0) { nUnsup++; unsupWhat["solver-unknown"]++; q = 0; }
  if (q) {
    profFork(s);
    SP n(new State(s));
    addCons(*n, ne);
    applyModel(*n, m);
    work.push_back(std::move(n));
  }
  addCons(s, eq);
  s.known[v.e] = val;
  return val;
}

// ---------------------------------------------------------------- memory ops
static ObjP *findObj(State &s, uint64_t a, bool *global) {
  *global = a < kHeapBase;
  if (*global) {
    auto it = gobjs.upper_bound(a);
    if (it == gobjs.begin()) return nullptr;
    --it;
    if (a > it->second->base + it->second->size) return nullptr;
    auto o = s.gover.find(it->first);
    return o != s.gover.end() ? &o->second : &it->second;
  }
  auto it = s.objs.upper_bound(a);
  if (it == s.objs.begin()) return nullptr;
  --it;
  if (a > it->second->base + it->second->size) return nullptr;
  return &it->second;
}
[[noreturn]] static void memErr(State &s, const char *what, uint64_t a, uint64_t n) {
  char buf[100];
  snprintf(buf, sizeof buf, "%s of %llu byte(s) outside any live object", what, (unsigned long long)n);
  if (a < 4096) snprintf(buf, sizeof buf, "null-pointer %s", what);
  violation(s, "memory", buf, nullptr);
  endPath(s, "memory-error");
  throw PathEnd();
}
static Obj &rdObj(State &s, uint64_t a, uint64_t n, const char *what = "read") {
  bool g;
  ObjP *o = findObj(s, a, &g);
  if (!o || a + n > (*o)->base + (*o)->size || a < (*o)->base) memErr(s, what, a, n);
  return **o;
}
static Obj &wrObj(State &s, uint64_t a, uint64_t n) {
  bool g;
  ObjP *o = findObj(s, a, &g);
  if (!o || a + n > (*o)->base + (*o)->size) memErr(s, "write", a, n);
  if ((*o)->ro) memErr(s, "write to constant", a, n);
  if (g) {
    auto it = s.gover.find((*o)->base);
    if (it == s.gover.end()) it = s.gover.emplace((*o)->base, std::make_shared<Obj>(**o)).first;
    else if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return *it->second;
  }
  if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
  return **o;
}
static uint64_t alloc(State &s, uint64_t n, bool heap) {
  uint64_t a = s.next;
  s.next = (a + n + 32 + 15) & ~15ull;
  auto o = std::make_shared<Obj>();
  o->base = a; o->size = n; o->b.assign(n, heap ? 0xCD : 0xAB); o->heap = heap;
  s.objs[a] = o;
  return a;
}
static V loadBits(Obj &o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (!o.s.empty()) for (unsigned i = 0; i < n; i++) if (o.s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, &o.b[off], n); return V(v & maskw(w)); }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    E b = o.s[off + i] ? o.s[off + i] : P.cst(8, o.b[off + i]);
    r = r ? P.concat(b, r) : b;
  }
  if (r->w != w) r = P.ext(r, 0, w);
  return mkV(r);
}
static void storeBits(Obj &o, uint64_t off, unsigned w, const V &v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    memcpy(&o.b[off], &v.c, n);
    if (!o.s.empty()) for (unsigned i = 0; i < n; i++) o.s[off + i] = nullptr;
    return;
  }
  if (o.s.empty()) o.s.assign(o.size, nullptr);
  E e = v.e;
  if (w % 8) e = P.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    E b = P.ext(e, i * 8, 8);
    if (b->op == Const) { o.b[off + i] = b->val; o.s[off + i] = nullptr; }
    else o.s[off + i] = b;
  }
}
static V loadTy(State &s, uint64_t a, L::Type *t) {
  if (isAggTy(t)) {
    V v; v.agg = std::make_shared<std::vector<V>>();
    for (unsigned i = 0; i < aggN(t); i++) v.agg->push_back(loadTy(s, a + aggOff(t, i), aggT(t, i)));
    return v;
  }
  unsigned w = bitw(t);
  Obj &o = rdObj(s, a, (w + 7) / 8);
  return loadBits(o, a - o.base, w);
}
static void storeTy(State &s, uint64_t a, L::Type *t, const V &v) {
  if (isAggTy(t)) {
    for (unsigned i = 0; i < aggN(t); i++) storeTy(s, a + aggOff(t, i), aggT(t, i), (*v.agg)[i]);
    return;
  }
  unsigned w = bitw(t);
  Obj &o = wrObj(s, a, (w + 7) / 8);
  storeBits(o, a - o.base, w, v);
}
// Symbolic-address load.
static V loadSym(State &s, const V &av, L::Type *t) {
  if (!av.e) return loadTy(s, av.c, t);
  auto kn = s.known.find(av.e);
  if (kn != s.known.end()) return loadTy(s, kn->second, t);
  if (!isAggTy(t)) {
    uint64_t a0 = mval(s, av.e);
    bool g;
    ObjP *op = findObj(s, a0, &g);
    unsigned w = bitw(t), n = (w + 7) / 8;
    if (op && (*op)->size <= 512 && (*op)->size >= n && a0 + n <= (*op)->base + (*op)->size) {
      Obj &o = **op;
      E inb = P.bin(Ule, P.bin(Sub, av.e, P.cst(64, o.base)), P.cst(64, o.size - n));
      if (query(s, P.bnot(inb), nullptr) == 0) {
        E r = nullptr;
        for (uint64_t off = 0; off + n <= o.size; off++) {
          E eq = P.bin(Eq, av.e, P.cst(64, o.base + off));
          if (eq->op == Const && !eq->val) continue;
          if (query(s, eq, nullptr) != 1) continue;
          V v = loadBits(o, off, w);
          E ve = toE(v, w);
          r = r ? P.ite(eq, ve, r) : ve;
        }
        if (r) return mkV(r);
      }
    }
  }
  return loadTy(s, concretize(s, av, 64), t);
}
static std::string cstr(State &s, uint64_t a) {
  std::string r;
  for (;; a++) {
    Obj &o = rdObj(s, a, 1);
    V v = loadBits(o, a - o.base, 8);
    uint64_t c = v.e ? mval(s, v.e) : v.c;
    if (!c) return r;
    r += (char)c;
    if (r.size() > 4000) return r;
  }
}
static void copyBytes(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj &so = rdObj(s, src, n);
  uint64_t so_off = src - so.base;
  std::vector<uint8_t> b(so.b.begin() + so_off, so.b.begin() + so_off + n);
  std::vector<E> e;
  if (!so.s.empty()) e.assign(so.s.begin() + so_off, so.s.begin() + so_off + n);
  Obj &dst = wrObj(s, d, n);
  uint64_t off = d - dst.base;
  memcpy(&dst.b[off], b.data(), n);
  bool any = false;
  for (E x : e) if (x) any = true;
  if (any && dst.s.empty()) dst.s.assign(dst.size, nullptr);
  if (!dst.s.empty()) for (uint64_t i = 0; i < n; i++) dst.s[off + i] = e.empty() ? nullptr : e[i];
}
static E byteAt(State &s, uint64_t a) {
  Obj &o = rdObj(s, a, 1);
  return toE(loadBits(o, a - o.base, 8), 8);
}

#include "interp.inc"
