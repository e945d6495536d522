// symex: symbolic executor for LLVM-18 IR with z3 as the deciding solver.
// Integers/pointers are bit-vectors.  Floating-point inputs are symbolic integers (times a power
// of two); every operation on them is checked to be exact in the IEEE format of the operation, so
// that real arithmetic on them *is* the machine arithmetic.  Where an operation could round, the
// operands are concretised (one path per value, decided by the solver) or the path is cut and counted.
#include "val.h"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <unistd.h>
#include <iostream>
#include <cxxabi.h>
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

z3::context *ZC;
std::vector<Atom> ATOMS;
typedef std::chrono::steady_clock Clk;
static Clk::time_point T0;
static double now() { return std::chrono::duration<double>(Clk::now() - T0).count(); }

// ------------------------------------------------------------------ options
static double OPT_TIME = 600; static u64 OPT_STEPS = 60000000; static int OPT_MAXCONC = 70; static bool OPT_ITE = false, OPT_LOG2 = false;
static int OPT_MAXVIOL = 3; static u64 OPT_MAXPATHS = ~0ull; static std::string OPT_OUT; static bool OPT_TRACE = false; static unsigned OPT_QTO = 60000;
static std::string OPT_DUMPQ, OPT_LOGIC; static unsigned OPT_DUMPN = 0; static bool OPT_LEAK = false, OPT_PROF = false; static i64 OPT_SHARD = 0, OPT_SHARDN = 1; static u64 OPT_SEED = 0;

// ------------------------------------------------------------------ memory objects
enum ObjKind : u8 { O_HEAP, O_STACK, O_GLOBAL, O_CONST, O_OPAQUE };
struct Cell { u8 sz; SVal v; };
struct Obj {
  int rc = 0; u32 id; u64 size; ObjKind k; std::vector<u8> b; std::map<u32, Cell> sym;
};
struct ObjP {
  Obj *p = nullptr;
  ObjP() {} explicit ObjP(Obj *q) : p(q) { if (p) ++p->rc; }
  ObjP(const ObjP &o) : p(o.p) { if (p) ++p->rc; }
  ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP &operator=(const ObjP &o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
  ObjP &operator=(ObjP &&o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
  ~ObjP() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
static const u64 OFF = 0x10000;
static const u64 FN_BASE = 0x7000000000000000ull;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) + OFF; }

// ------------------------------------------------------------------ decoded code
struct Op { int slot = -1; SVal c; };
struct FnInfo;
enum XK : u8 { X_OTHER, X_BIN, X_ICMP, X_FCMP, X_LOAD, X_STORE, X_GEP, X_BR, X_CBR, X_SWITCH, X_RET, X_CALL, X_PHI, X_SELECT, X_CAST, X_ALLOCA, X_FNEG,
               X_EXTV, X_INSV, X_EXTE, X_INSE, X_SHUF, X_UNREACH, X_LPAD, X_RESUME, X_FREEZE, X_ATOMRMW, X_CMPXCHG, X_NOP, X_FBIN };
struct GepIdx { int op; i64 mul; unsigned w; };
struct XI {
  XK k; u8 sub = 0; unsigned w = 0, w2 = 0; Instruction *I; int dst = -1; std::vector<Op> ops; Type *ty = nullptr; u8 ft = 0;
  std::vector<GepIdx> gi; i64 goff = 0; int b1 = -1, b2 = -1; Function *callee = nullptr; FnInfo *fi = nullptr; int builtin = -1; u64 size = 0;
};
struct BB { std::vector<XI> ins; int nphi = 0; std::unordered_map<int, std::vector<Op>> phiFrom; bool seen = false; };
struct FnInfo { Function *F; int nregs = 0; std::vector<BB> bbs; std::vector<int> argSlots; std::string name; bool decoded = false; };

static std::unique_ptr<Module> M; static const DataLayout *DL; static LLVMContext LC;
static std::unordered_map<Function *, FnInfo *> FI; static std::vector<Function *> FNS; static std::unordered_map<Function *, u64> FNADDR;
static std::unordered_map<const GlobalVariable *, u32> GID;
static std::set<std::string> COVFN;

struct Frame {
  FnInfo *f; std::vector<SVal> r; std::vector<u32> allocas; XI *call = nullptr; int bb = 0, prev = -1, ip = 0; std::vector<SVal> va;
};
struct PC { z3::expr e; std::shared_ptr<PC> up; int depth; PC(const z3::expr &x, std::shared_ptr<PC> u) : e(x), up(u), depth(u ? u->depth + 1 : 1) {} 
  ~PC() { std::shared_ptr<PC> p = std::move(up); while (p && p.use_count() == 1) { auto q = std::move(p->up); p = std::move(q); } } };
struct Input { std::string name; int kind; i64 conc; int atom; int e; };  // kind 0 int, 1 dbl
// an equation known on the path: monomial m equals polynomial rest (over the integer atoms)
struct Rel { std::vector<u32> m; Poly rest; };
// a team of OpenMP threads: the stacks of the threads that are not running, who waits at a barrier, and which bytes each
// thread touched since the last barrier (conflicting accesses of two threads are reported as races)
struct Team { int n = 0, cur = 0; bool rev = false; std::vector<Frame> base; std::vector<std::vector<Frame>> st; std::vector<char> status; std::vector<u32> ids; std::map<u32, std::vector<uint16_t>> sh; XI *x = nullptr; };
struct State {
  std::vector<Frame> st; std::vector<Team> team; std::vector<ObjP> objs; std::shared_ptr<PC> pc; std::shared_ptr<z3::model> model;
  std::vector<Input> inputs; std::map<u32, i64> fixed; u64 fixedMask = 0; std::vector<std::shared_ptr<Rel>> rels; u64 steps = 0;
  u64 exc = 0, excTy = 0; std::vector<std::pair<u64, u64>> caught; std::map<u64, u64> excInfo;
  std::vector<std::pair<SVal, SVal>> pend; std::vector<std::pair<unsigned, bool>> known; std::map<std::string, i64> cfg; i64 heapLive = 0; u64 allocCount = 0;
};
static State *S; static std::vector<State *> WL;
struct Stats { u64 paths = 0, done = 0, assumed = 0, cut = 0, unsupported = 0, limit = 0, queries = 0, unsat = 0, sat = 0, unknown = 0, asserts = 0, assertQ = 0, assertTriv = 0, pathQ = 0, eqRel = 0, pathEq = 0, xfail = 0, forks = 0, steps = 0, concs = 0, eqSkip = 0; double solver = 0; } ST;
static std::map<std::string, u64> COVER, CUTS, UNSUP, ASSERTLBL;
static std::map<std::string, u64> FNHIT;

struct Viol { std::string label, where; std::vector<std::pair<std::string, std::string>> vals; };
static std::vector<Viol> VIOLS; static std::set<std::string> VIOLKEY;

// control-flow signals
struct Kill { int why; std::string msg; };   // 0 normal end, 1 assume, 2 cut, 3 unsupported, 4 violation, 5 limit

[[noreturn]] static void unsup(const std::string &m) { throw Kill{3, m}; }

// ------------------------------------------------------------------ solver
static z3::solver *SOL; static std::vector<PC *> SSTK; static std::vector<std::shared_ptr<PC>> SKEEP;
static void syncPC(const std::shared_ptr<PC> &pc) {
  std::vector<std::shared_ptr<PC>> need; std::shared_ptr<PC> p = pc;
  int d = pc ? pc->depth : 0;
  while ((int)SSTK.size() > d) { SOL->pop(); SSTK.pop_back(); SKEEP.pop_back(); }
  while (p && p->depth > (int)SSTK.size()) { need.push_back(p); p = p->up; }
  while (p && SSTK.size() && SSTK.back() != p.get()) { SOL->pop(); SSTK.pop_back(); SKEEP.pop_back(); need.push_back(p); p = p->up; }
  while (!need.empty()) { SOL->push(); SOL->add(need.back()->e); SSTK.push_back(need.back().get()); SKEEP.push_back(need.back()); need.pop_back(); }
}
static void dumpQuery(const char *res, const z3::expr *extra) {
  static unsigned cnt = 0, out = 0; ++cnt;
  if (out >= OPT_DUMPN) return; if (cnt % 17 != 1 && cnt > 3) return;
  z3::solver t(*ZC); for (auto &k : SKEEP) t.add(k->e); if (extra) t.add(*extra);
  std::ofstream f(OPT_DUMPQ + "." + std::to_string(out++) + ".smt2"); f << "; expect " << res << "\n(set-logic QF_BV)\n" << t.to_smt2();
}
static std::map<std::string, u64> QMS; static std::string whereChain(int);
// 1 sat, 0 unsat, -1 unknown
static int check(const z3::expr *extra, std::shared_ptr<z3::model> *mo) {
  syncPC(S->pc); auto t = Clk::now(); z3::check_result r;
  ++ST.queries;
  if (extra) { SOL->push(); SOL->add(*extra); }
  r = SOL->check();
  if (r == z3::sat && mo) *mo = std::make_shared<z3::model>(SOL->get_model());
  if (extra) SOL->pop();
  ST.solver += std::chrono::duration<double>(Clk::now() - t).count();
  if (OPT_PROF) QMS[whereChain(2)] += (u64)(1e6 * std::chrono::duration<double>(Clk::now() - t).count());
  if (OPT_DUMPN) dumpQuery(r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown", extra);
  if (r == z3::sat) { ++ST.sat; return 1; } if (r == z3::unsat) { ++ST.unsat; return 0; }
  ++ST.unknown; return -1;
}
static void addPC(const z3::expr &e) { S->pc = std::make_shared<PC>(e, S->pc); }
static void ensureModel() {
  if (S->model) return; std::shared_ptr<z3::model> m; int r = check(nullptr, &m);
  if (r == 1) { S->model = m; return; } if (r == 0) throw Kill{1, "infeasible"}; throw Kill{2, "solver-unknown"};
}
static bool evalB(const z3::expr &e) { z3::expr r = S->model->eval(e, true); return r.bool_value() == Z3_L_TRUE; }
static u64 evalBV(z3::model &m, const z3::expr &e) { z3::expr r = m.eval(e, true); uint64_t v = 0; std::string s; if (r.is_numeral_u64(v)) return v; return 0; }

// ------------------------------------------------------------------ helpers on values
static SVal mkBV(const z3::expr &e0, unsigned w) {
  z3::expr e = e0.simplify();
  if (w == 1 && e.is_bool()) { auto b = e.bool_value(); if (b == Z3_L_TRUE) return SVal(1); if (b == Z3_L_FALSE) return SVal(0ull); }
  else { uint64_t v; if (e.is_numeral_u64(v)) return SVal(v & maskw(w)); }
  return SVal((Node *)new BVNode(e, w));
}
static z3::expr bvOf(const SVal &v, unsigned w) {
  if (!v.n) return w == 1 ? ZC->bool_val(v.c & 1) : ZC->bv_val((uint64_t)(v.c & maskw(w)), w);
  if (v.n->k != K_BV) unsup("bvOf non-bv value");
  auto *b = (BVNode *)v.n; if (b->w != w) unsup("width mismatch " + std::to_string(b->w) + " vs " + std::to_string(w));
  return b->e;
}
static z3::expr bvBits(const SVal &v, unsigned w) {  // always a bit-vector
  z3::expr e = bvOf(v, w); return w == 1 && e.is_bool() ? z3::ite(e, ZC->bv_val(1, 1), ZC->bv_val(0, 1)) : e;
}
static int fpPrec(u8 ft) { return ft == 32 ? 24 : ft == 64 ? 53 : 64; }
static SVal concFP(long double v, u8 ft) {
  if (ft == 64) return SVal(fromD((double)v)); if (ft == 32) return SVal(fromF((float)v)); return SVal((Node *)new LDNode(v));
}
static long double fpVal(const SVal &v, u8 ft) {
  if (ft == 64) return asD(v.c); if (ft == 32) return asF(v.c);
  if (v.isK(K_LD)) return ((LDNode *)v.n)->v; if (!v.n) return 0; unsup("fpVal");
}
static bool polyExact(const Poly &p, u8 ft) { i128 m = std::max(iabs(p.lo), iabs(p.hi)); return m <= (((i128)1) << fpPrec(ft)) && p.e > -140 && p.e < 100; }
static SVal mkPoly(Poly &&p, u8 ft) { if (polyIsConst(p)) return concFP(polyConst(p), ft); return SVal((Node *)new PolyNode(std::move(p), ft)); }
static bool substFixed(Poly &p) {
  if (!(p.mask & S->fixedMask)) return true;
  bool any = false; std::map<std::vector<u32>, i128> m;
  for (auto &x : p.t) {
    i128 c = x.c; std::vector<u32> k; for (u32 a : x.m) { auto it = S->fixed.find(a); if (it != S->fixed.end()) { any = true; if (mulOv(c, it->second, c)) return false; } else k.push_back(a); }
    m[k] += c;
  }
  if (!any) return true;
  Poly r; r.e = p.e; for (auto &kv : m) if (kv.second) r.t.push_back({kv.first, kv.second});
  if (!polyFinish(r)) return false; p = std::move(r); return true;
}
// get polynomial of any finite FP value
static bool polyOf(const SVal &v, u8 ft, Poly &r) {
  if (v.isK(K_POLY)) { r = ((PolyNode *)v.n)->p; return substFixed(r); }
  long double d = fpVal(v, ft); if (!std::isfinite((double)d) && !(ft == 80 && std::isfinite(d))) return false;
  return polyFromLD(d, r);
}
static void fixAtom(u32 a, i64 v) { S->fixed[a] = v; S->fixedMask |= 1ull << (a & 63); }
static void dumpState(State *s);

static std::map<std::string, u64> FORKS, QSITE; static std::string whereChain(int);
static State *cloneAt() { ++ST.forks; if (OPT_PROF) ++FORKS[whereChain(2)]; State *n = new State(*S); WL.push_back(n); return n; }

// decide a symbolic boolean: forks when both sides are feasible; returns the chosen side
static std::vector<z3::expr> KEEP;  // expressions whose ids are recorded in State::known stay alive
static bool decide(const z3::expr &c0) {
  z3::expr c = c0.simplify(); auto b = c.bool_value(); if (b == Z3_L_TRUE) return true; if (b == Z3_L_FALSE) return false;
  bool neg = false; while (c.is_not()) { c = c.arg(0); neg = !neg; }
  unsigned id = Z3_get_ast_id(*ZC, c); for (auto &k : S->known) if (k.first == id) return k.second != neg;
  ensureModel(); bool side = evalB(c); z3::expr other = side ? !c : c; std::shared_ptr<z3::model> om;
  if (OPT_PROF) ++QSITE[whereChain(2)];
  int r = check(&other, &om);
  if (r < 0) throw Kill{2, "solver-unknown"};
  KEEP.push_back(c);
  if (r == 1) { State *n = cloneAt(); n->pc = std::make_shared<PC>(other, S->pc); n->model = om; n->known.push_back({id, !side}); addPC(side ? c : !c); }
  S->known.push_back({id, side});
  return side != neg;
}
// exhaustively concretise a bit-vector value at the current instruction (forks re-execute the instruction)
static u64 concBV(const z3::expr &e, unsigned w) {
  ++ST.concs; ensureModel(); z3::expr ev = S->model->eval(e, true); uint64_t v = 0;
  if (w == 1) { bool t = ev.bool_value() == Z3_L_TRUE; return decide(e) ? 1 : (void(t), 0); }
  if (!ev.is_numeral_u64(v)) unsup("concretise: no numeral");
  z3::expr eq = e == ZC->bv_val(v, w), ne = !eq; std::shared_ptr<z3::model> om; int r = check(&ne, &om);
  if (r < 0) throw Kill{2, "solver-unknown"};
  if (r == 1) { State *n = cloneAt(); n->pc = std::make_shared<PC>(ne, S->pc); n->model = om; addPC(eq); }
  return v;
}
// rewrites d with the equations of the path; used to recognise that a difference vanishes
static bool reduceRels(Poly &d) {
  if (S->rels.empty() || d.t.empty()) return false; bool any = false;
  for (int it = 0; it < 400; ++it) {
    bool hit = false; if (d.t.size() > 4000) return any;
    for (auto &r : S->rels) {
      for (auto &x : d.t) if (x.m.size() >= r->m.size() && std::includes(x.m.begin(), x.m.end(), r->m.begin(), r->m.end())) { hit = true; break; }
      if (!hit) continue;
      // all terms divisible by m at once: d = keep + m * quo  ->  keep + rest * quo
      Poly keep, quo, pr, nd; keep.e = quo.e = d.e;
      for (auto &x : d.t) if (x.m.size() >= r->m.size() && std::includes(x.m.begin(), x.m.end(), r->m.begin(), r->m.end())) {
        Term t; t.c = x.c; std::set_difference(x.m.begin(), x.m.end(), r->m.begin(), r->m.end(), std::back_inserter(t.m)); quo.t.push_back(t); } else keep.t.push_back(x);
      std::sort(quo.t.begin(), quo.t.end(), termLess);
      if (!polyFinish(keep) || !polyFinish(quo) || !polyMul(quo, r->rest, pr) || !polyAdd(keep, pr, 1, nd)) return any;
      d = std::move(nd); any = true; if (d.t.empty()) return true; break;
    }
    if (!hit) break;
  }
  return any;
}
static void addRel(const Poly &p0, i64 v) {  // sum c_i m_i == v, p0 in units 2^e
  Poly p = p0, c; p.e = 0; { Poly k; if (v) k.t.push_back({{}, v}); if (!polyFinish(k) || !polyAdd(p, k, -1, c)) return; } c.e >= 0 ? (void)0 : (void)0;
  if (c.t.empty() || c.e < 0 || !polyRescale(c, 0)) return; reduceRels(c); if (c.t.empty() || !polyRescale(c, 0)) return;
  int best = -1; bool lin = false;
  for (size_t i = 0; i < c.t.size(); ++i) if (c.t[i].m.size() == 1 && iabs(c.t[i].c) == 1) {
    u32 a = c.t[i].m[0]; bool priv = true; for (size_t j = 0; j < c.t.size(); ++j) if (j != i && std::find(c.t[j].m.begin(), c.t[j].m.end(), a) != c.t[j].m.end()) priv = false;
    if (priv) { best = i; lin = true; break; } }
  if (best < 0) for (size_t i = 0; i < c.t.size(); ++i) if (!c.t[i].m.empty() && iabs(c.t[i].c) == 1 && (best < 0 || c.t[i].m.size() > c.t[best].m.size() || (c.t[i].m.size() == c.t[best].m.size() && c.t[best].m < c.t[i].m))) best = i;
  if (best < 0) return; (void)lin;
  auto r = std::make_shared<Rel>(); r->m = c.t[best].m; i128 s = c.t[best].c;
  for (size_t i = 0; i < c.t.size(); ++i) if ((int)i != best) { Term t = c.t[i]; t.c = -s * t.c; r->rest.t.push_back(t); }
  if (!polyFinish(r->rest)) return; S->rels.push_back(r);
}
static SVal concPoly(const Poly &p0, u8 ft) {
  Poly p = p0; if (!substFixed(p)) throw Kill{2, "poly-overflow"};
  if (polyIsConst(p)) return concFP(polyConst(p), ft);
  if (!S->rels.empty()) { Poly d = p; if (reduceRels(d) && substFixed(d) && polyIsConst(d)) return concFP(polyConst(d), ft); }
  if (p.hi - p.lo > OPT_MAXCONC * 4) throw Kill{2, "inexact-range"};
  unsigned w = polyW(p); z3::expr t = polyBV(p, w); u64 v = concBV(t, w); i64 sv = sxt(v, w);
  if (p.t.size() == 1 && p.t[0].m.size() == 1) { i128 q = (i128)sv / p.t[0].c; fixAtom(p.t[0].m[0], (i64)q); }
  else if (p.t.size() == 2 && p.t[0].m.empty() && p.t[1].m.size() == 1) { i128 q = ((i128)sv - p.t[0].c) / p.t[1].c; fixAtom(p.t[1].m[0], (i64)q); }
  else addRel(p, sv);
  return concFP(ldexpl((long double)sv, p.e), ft);
}
static SVal concVal(const SVal &v, unsigned w) {
  if (v.conc()) return v;
  if (v.isK(K_BV)) return SVal(concBV(((BVNode *)v.n)->e, ((BVNode *)v.n)->w));
  if (v.isK(K_POLY)) return concPoly(((PolyNode *)v.n)->p, ((PolyNode *)v.n)->ft);
  (void)w; unsup("concretise aggregate");
}
// concretise operand i and write it back to its register
static const SVal &val(const Op &o) { return o.slot >= 0 ? S->st.back().r[o.slot] : o.c; }
static u64 concOp(const Op &o, unsigned w) {
  const SVal &v = val(o); if (!v.n) return v.c; SVal r = concVal(v, w); if (o.slot >= 0) S->st.back().r[o.slot] = r; return r.c;
}
static SVal atomIte(const z3::expr &c, const Poly &a0, const Poly &b0, u8 ft, bool &ok) {
  Poly a = a0, b = b0; ok = false; 
  if (polyEq(a, b)) { ok = true; Poly q = a; return mkPoly(std::move(q), ft); }
  int e = a.t.empty() ? b.e : b.t.empty() ? a.e : std::min(a.e, b.e);
  if (a.t.empty()) a.e = e; if (b.t.empty()) b.e = e;
  if (!polyRescale(a, e) || !polyRescale(b, e) || !polyFinish(a) || !polyFinish(b)) return SVal();
  auto sc = [&](const Poly &p) { Poly q = p; if (q.t.empty()) { q.e = e; return q; } return q; };
  Poly x = sc(a), y = sc(b);
  // widths in units 2^e
  auto shiftOf = [&](const Poly &p) { return p.t.empty() ? 0 : p.e - e; };
  i128 xl = x.lo << shiftOf(x), xh = x.hi << shiftOf(x), yl = y.lo << shiftOf(y), yh = y.hi << shiftOf(y);
  i128 lo = std::min(xl, yl), hi = std::max(xh, yh);
  if (iabs(lo) > (((i128)1) << 60) || iabs(hi) > (((i128)1) << 60)) return SVal();
  unsigned w = std::max(bitsFor(lo), bitsFor(hi)) + 1;
  auto term = [&](const Poly &p) { z3::expr t = polyBV(p, w); int s = shiftOf(p); if (s) t = t * bvI(((i128)1) << s, w); return t; };
  z3::expr t = z3::ite(c, term(x), term(y)).simplify();
  u32 id = ATOMS.size(); ATOMS.push_back({t, w, (i64)lo, (i64)hi, ""});
  Poly r; r.e = e; r.t.push_back({{id}, 1}); if (!polyFinish(r)) return SVal(); ok = true; return mkPoly(std::move(r), ft);
}
// compare polynomial with 0 -> boolean expr;  pred: 0 eq,1 lt,2 le
static z3::expr polyCmp0(const Poly &d, int pred) {
  if (d.t.empty()) return ZC->bool_val(pred != 1);
  if (pred == 0) { if (d.lo > 0 || d.hi < 0) return ZC->bool_val(false); }
  else if (pred == 1) { if (d.hi < 0) return ZC->bool_val(true); if (d.lo >= 0) return ZC->bool_val(false); }
  else { if (d.hi <= 0) return ZC->bool_val(true); if (d.lo > 0) return ZC->bool_val(false); }
  unsigned w = polyW(d); z3::expr t = polyBV(d, w), z = ZC->bv_val(0, w);
  return pred == 0 ? t == z : pred == 1 ? z3::slt(t, z) : z3::sle(t, z);
}
static bool isSymFP(const SVal &v) { return v.isK(K_POLY); }

static std::string where();
static void reportViolation(const std::string &label, std::shared_ptr<z3::model> m) {
  std::string w = where(), key = label + "@" + w;
  if (VIOLKEY.count(key) && VIOLS.size() >= 1) { VIOLKEY.insert(key); return; }
  VIOLKEY.insert(key); Viol v; v.label = label; v.where = w;
  if (!m) { ensureModel(); m = S->model; }
  for (auto &in : S->inputs) {
    i64 x = in.conc; if (in.atom >= 0) { auto &a = ATOMS[in.atom]; x = sxt(evalBV(*m, a.e), a.w); }
    v.vals.push_back({in.name, std::to_string(x)});
  }
  VIOLS.push_back(v);
}
[[noreturn]] static void violation(const std::string &label) { reportViolation(label, nullptr); throw Kill{4, label}; }

// ------------------------------------------------------------------ memory
static Obj *objRO(u32 id) { return id < S->objs.size() ? S->objs[id].p : nullptr; }
static Obj *objRW(u32 id) { Obj *o = S->objs[id].p; if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 0; S->objs[id] = ObjP(n); return n; } return o; }
static u32 newObj(u64 size, ObjKind k, u8 fill) {
  Obj *o = new Obj; o->size = size; o->k = k; o->b.assign(size, fill); o->id = S->objs.size(); S->objs.push_back(ObjP(o)); return o->id;
}
static bool NOLOG = false;
static void logAcc(u32 id, u64 off, u64 sz, bool wr, u64 osz) {  // per byte: low half writer+1, high half reader+1 (255 several)
  Team &t = S->team.front(); auto &v = t.sh[id]; if (v.empty()) v.assign(osz, 0); const uint16_t me = t.cur + 1; bool race = false;
  for (u64 i = off; i < off + sz && i < v.size(); ++i) {
    const uint16_t w = v[i] & 255, r = v[i] >> 8;
    if (wr) { if ((w && w != me) || (r && r != me)) race = true; v[i] = (r << 8) | me; } else { if (w && w != me) race = true; v[i] = ((r && r != me ? 255 : me) << 8) | w; }
  }
  if (race) violation("data race between two threads");
}
static Obj *resolve(u64 a, u64 sz, u64 &off, bool wr, const char *what) {
  u32 id = a >> 32; off = (a & 0xffffffffull) - OFF; Obj *o = id ? objRO(id) : nullptr;
  if (!o) { if (a >= FN_BASE) violation(std::string("memory: ") + what + " code address"); violation(id == 0 || id >= S->objs.size() ? std::string("memory: ") + what + " through an invalid pointer" : std::string("memory: ") + what + " of released memory"); }
  if (off > o->size || sz > o->size - off) violation(std::string("memory: out-of-bounds ") + what);
  if (wr && o->k == O_CONST) violation(std::string("memory: write to constant"));
  if (o->k == O_OPAQUE) unsup("access to opaque external object");
  if (!S->team.empty() && !NOLOG && !S->cfg.count("omp_crit") && o->k != O_CONST) logAcc(id, off, sz, wr, o->size);
  return o;
}
static void clearSym(Obj *o, u32 off, u32 sz) {
  if (o->sym.empty()) return;
  auto it = o->sym.lower_bound(off > 16 ? off - 16 : 0);
  while (it != o->sym.end() && it->first < off + sz) {
    u32 a = it->first, e = a + it->second.sz;
    if (e <= off) { ++it; continue; }
    if (a >= off && e <= off + sz) { it = o->sym.erase(it); continue; }
    // partial overlap
    if (it->second.v.isK(K_BV)) {
      SVal v = it->second.v; unsigned w = it->second.sz * 8; z3::expr ex = bvBits(v, ((BVNode *)v.n)->w);
      if (((BVNode *)v.n)->w < w) ex = z3::zext(ex, w - ((BVNode *)v.n)->w);
      it = o->sym.erase(it);
      for (u32 q = a; q < e; ++q) if (q < off || q >= off + sz) { SVal bv = mkBV(ex.extract((q - a) * 8 + 7, (q - a) * 8), 8); if (bv.n) o->sym[q] = Cell{1, bv}; else o->b[q] = (u8)bv.c; }
      it = o->sym.lower_bound(off > 16 ? off - 16 : 0);
    } else unsup("partial overwrite of a symbolic floating-point cell");
  }
}
static u64 storeSz(Type *t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static u64 allocSz(Type *t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static u8 ftOf(Type *t) { return t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : t->isX86_FP80Ty() ? 80 : 0; }
static void wrConc(Obj *o, u64 off, const void *p, u64 n) { clearSym(o, off, n); memcpy(&o->b[off], p, n); }

static SVal loadScalar(Obj *o, u64 off, Type *t) {
  u64 sz = storeSz(t); u8 ft = ftOf(t);
  bool any = false;
  if (!o->sym.empty()) {
    auto it = o->sym.find(off);
    if (it != o->sym.end() && it->second.sz == sz) {
      const SVal &v = it->second.v;
      if (t->isIntegerTy() && v.isK(K_BV)) { unsigned w = t->getIntegerBitWidth(); auto *b = (BVNode *)v.n; if (b->w == w) return v; z3::expr e = bvBits(v, b->w); if (b->w > w) e = e.extract(w - 1, 0); else e = z3::zext(e, w - b->w); return w == 1 ? mkBV(e == ZC->bv_val(1, 1), 1) : mkBV(e, w); }
      return v;  // pointers, FP, or opaque reinterpretation
    }
    it = o->sym.lower_bound(off > 16 ? off - 16 : 0);
    for (; it != o->sym.end() && it->first < off + sz; ++it) if (it->first + it->second.sz > off) { any = true; break; }
  }
  if (!any) {
    if (ft == 80) { long double v = 0; memcpy(&v, &o->b[off], 10); return SVal((Node *)new LDNode(v)); }
    u64 v = 0; if (sz > 8) unsup("wide integer load"); memcpy(&v, &o->b[off], sz); if (t->isIntegerTy()) v &= maskw(t->getIntegerBitWidth()); return SVal(v);
  }
  if (ft || sz > 8) unsup("mixed symbolic load");
  // compose bytes
  z3::expr r(*ZC); bool first = true;
  for (u64 i = sz; i-- > 0;) {
    u64 q = off + i; z3::expr by(*ZC); bool got = false;
    auto it = o->sym.upper_bound(q);
    if (it != o->sym.begin()) { --it; if (it->first + it->second.sz > q) { const SVal &v = it->second.v; if (!v.isK(K_BV)) unsup("partial read of a symbolic floating-point cell"); unsigned w = it->second.sz * 8; z3::expr ex = bvBits(v, ((BVNode *)v.n)->w); if (((BVNode *)v.n)->w < w) ex = z3::zext(ex, w - ((BVNode *)v.n)->w); by = ex.extract((q - it->first) * 8 + 7, (q - it->first) * 8); got = true; } }
    if (!got) by = ZC->bv_val((unsigned)o->b[q], 8);
    r = first ? by : z3::concat(r, by); first = false;
  }
  unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : sz * 8; if (w < sz * 8) r = r.extract(w - 1, 0);
  return w == 1 ? mkBV(r == ZC->bv_val(1, 1), 1) : mkBV(r, w);
}
static SVal loadTy(Obj *o, u64 off, Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<SVal> v; u64 es = storeSz(vt->getElementType()); if (vt->getElementType()->isIntegerTy(1)) unsup("bool vector load"); for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadScalar(o, off + i * es, vt->getElementType())); return mkAgg(std::move(v)); }
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<SVal> v; auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(o, off + sl->getElementOffset(i), st->getElementType(i))); return mkAgg(std::move(v)); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<SVal> v; u64 es = allocSz(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) v.push_back(loadTy(o, off + i * es, at->getElementType())); return mkAgg(std::move(v)); }
  return loadScalar(o, off, t);
}
static void storeTy(Obj *o, u64 off, Type *t, const SVal &v) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = storeSz(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTy(o, off + i * es, vt->getElementType(), agg(v)[i]); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(o, off + sl->getElementOffset(i), st->getElementType(i), agg(v)[i]); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = allocSz(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) storeTy(o, off + i * es, at->getElementType(), agg(v)[i]); return; }
  u64 sz = storeSz(t);
  if (v.isK(K_LD)) { wrConc(o, off, &((LDNode *)v.n)->v, 10); return; }
  if (!v.n) { if (ftOf(t) == 80) { long double z = 0; wrConc(o, off, &z, 10); return; } u64 c = v.c; if (sz > 8) { if (c) unsup("wide store"); clearSym(o, off, sz); memset(&o->b[off], 0, sz); return; } wrConc(o, off, &c, sz); return; }
  clearSym(o, off, sz); o->sym[off] = Cell{(u8)sz, v};
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; u64 so, dox; Obj *os = resolve(s, n, so, false, "read"); ObjP keep(os); resolve(d, n, dox, true, "write"); Obj *od = objRW(d >> 32);
  std::vector<u8> tmp(os->b.begin() + so, os->b.begin() + so + n); std::vector<std::pair<u32, Cell>> cells;
  if (!os->sym.empty()) {
    for (auto it = os->sym.lower_bound(so > 16 ? so - 16 : 0); it != os->sym.end() && it->first < so + n; ++it) {
      if (it->first + it->second.sz <= so) continue;
      if (it->first < so || it->first + it->second.sz > so + n) {
        if (!it->second.v.isK(K_BV)) unsup("partial copy of symbolic FP");
        const SVal &v = it->second.v; unsigned w = it->second.sz * 8; z3::expr ex = bvBits(v, ((BVNode *)v.n)->w); if (((BVNode *)v.n)->w < w) ex = z3::zext(ex, w - ((BVNode *)v.n)->w);
        for (u32 q = it->first; q < it->first + it->second.sz; ++q) if (q >= so && q < so + n) { SVal bv = mkBV(ex.extract((q - it->first) * 8 + 7, (q - it->first) * 8), 8); if (bv.n) cells.push_back({q - (u32)so, Cell{1, bv}}); else tmp[q - so] = bv.c; }
        continue;
      }
      cells.push_back({it->first - (u32)so, it->second});
    }
  }
  wrConc(od, dox, tmp.data(), n); for (auto &c : cells) od->sym[dox + c.first] = c.second;
}
static u64 heapAlloc(u64 n, u8 fill = 0xCB) { if (n > (64u << 20)) return 0; ++S->heapLive; ++S->allocCount; return addrOf(newObj(n, O_HEAP, fill)); }
static void heapFree(u64 a) {
  if (!a) return; u32 id = a >> 32; Obj *o = objRO(id);
  if (!o) violation("memory: double free / free of invalid pointer"); if (o->k != O_HEAP) violation("memory: free of non-heap memory"); if ((a & 0xffffffffull) != OFF) violation("memory: free of an interior pointer");
  --S->heapLive; S->objs[id] = ObjP();
}

// ------------------------------------------------------------------ constants
static u64 fnAddr(Function *F) { auto it = FNADDR.find(F); if (it != FNADDR.end()) return it->second; u64 a = FN_BASE + FNS.size() * 16; FNS.push_back(F); FNADDR[F] = a; return a; }
static SVal constVal(const Constant *C);
static u64 gepConst(const GEPOperator *G) {
  APInt off(64, 0); SVal b = constVal(cast<Constant>(G->getPointerOperand())); if (!G->accumulateConstantOffset(*DL, off)) unsup("const gep"); return b.c + off.getSExtValue();
}
static SVal zeroOf(Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<SVal> v(vt->getNumElements(), zeroOf(vt->getElementType())); return mkAgg(std::move(v)); }
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<SVal> v; for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(zeroOf(st->getElementType(i))); return mkAgg(std::move(v)); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<SVal> v(at->getNumElements(), zeroOf(at->getElementType())); return mkAgg(std::move(v)); }
  if (t->isX86_FP80Ty()) return SVal((Node *)new LDNode(0)); return SVal(0ull);
}
static SVal constVal(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) unsup("wide int const"); } return SVal(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0)); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) {
    if (C->getType()->isDoubleTy()) return SVal(fromD(cf->getValueAPF().convertToDouble())); if (C->getType()->isFloatTy()) return SVal(fromF(cf->getValueAPF().convertToFloat()));
    if (C->getType()->isX86_FP80Ty()) { APInt a = cf->getValueAPF().bitcastToAPInt(); long double v = 0; u64 lo = a.extractBitsAsZExtValue(64, 0), hi = a.extractBitsAsZExtValue(16, 64); memcpy(&v, &lo, 8); memcpy((char *)&v + 8, &hi, 2); return SVal((Node *)new LDNode(v)); }
    unsup("fp const");
  }
  if (isa<ConstantPointerNull>(C)) return SVal(0ull);
  if (isa<UndefValue>(C)) return zeroOf(C->getType());
  if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
  if (auto *f = dyn_cast<Function>(C)) return SVal(fnAddr(const_cast<Function *>(f)));
  if (auto *g = dyn_cast<GlobalVariable>(C)) return SVal(addrOf(GID.at(g)));
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto *ca = dyn_cast<ConstantAggregate>(C)) { std::vector<SVal> v; for (auto &o : ca->operands()) v.push_back(constVal(cast<Constant>(&o))); return mkAgg(std::move(v)); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<SVal> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(std::move(v)); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return SVal(gepConst(cast<GEPOperator>(ce)));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return SVal(constVal(ce->getOperand(0)).c & maskw(C->getType()->getIntegerBitWidth()));
      case Instruction::Sub: return SVal(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
      case Instruction::Add: return SVal(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
      default: break;
    }
  }
  unsup("constant");
}
static void initGlobals() {
  S->objs.resize(1);
  for (auto &g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? allocSz(g.getValueType()) : 64; bool ext = g.isDeclaration();
    u32 id = newObj(std::max<u64>(sz, 1), ext ? O_OPAQUE : O_GLOBAL, 0); if (ext) { S->objs[id].p->b.resize(4096); S->objs[id].p->size = 4096; } GID[&g] = id;
  }
  for (auto &g : M->globals()) if (!g.isDeclaration()) { Obj *o = S->objs[GID[&g]].p; 
      // large zero arrays handled by fill
      if (!isa<ConstantAggregateZero>(g.getInitializer())) storeTy(o, 0, g.getValueType(), constVal(g.getInitializer())); if (g.isConstant()) o->k = O_CONST; }
}
#include "decode.inc"
#include "exec.inc"
#include "calls.inc"
#include "main.inc"
