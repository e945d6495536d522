// ------------------------------------------------------------------ builtins (environment, runtime library and the sx_ harness interface)
static u8 ftX(XI &x) { return ftOf(x.I->getOperand(0)->getType()->getScalarType()); }
static u64 A(XI &x, unsigned i, unsigned w = 64) { return concOp(x.ops[i], w); }
static std::string cstr(u64 a) { std::string s; for (int i = 0; i < 4096; ++i) { u64 off; Obj *o = resolve(a + i, 1, off, false, "read"); char c = o->b[off]; if (!c) break; s += c; } return s; }
static SVal newInput(const std::string &name, i64 lo, i64 hi, bool fp, int e) {
  std::string nm = name + "#" + std::to_string(S->inputs.size());
  if (lo == hi) { S->inputs.push_back({nm, fp, lo, -1, e}); return fp ? SVal(fromD(ldexp((double)lo, e))) : SVal((u64)lo); }
  unsigned w = std::max(bitsFor(lo), bitsFor(hi)); z3::expr v = ZC->bv_const(nm.c_str(), w); u32 id = 0; bool found = false;
  static std::map<std::string, u32> known; std::string key = nm + "/" + std::to_string(lo) + "/" + std::to_string(hi);
  auto it = known.find(key); if (it != known.end()) { id = it->second; found = true; }
  if (!found) { id = ATOMS.size(); ATOMS.push_back({v, w, lo, hi, nm}); known[key] = id; }
  std::vector<z3::expr> cs; if (lo != -(1ll << (w - 1))) cs.push_back(v >= ZC->bv_val((int64_t)lo, w)); if (hi != (1ll << (w - 1)) - 1) cs.push_back(v <= ZC->bv_val((int64_t)hi, w));
  if (cs.size() == 2) addPC(cs[0] && cs[1]); else if (cs.size() == 1) addPC(cs[0]);
  if (!cs.empty()) S->model.reset();
  S->inputs.push_back({nm, fp, 0, (int)id, e});
  if (fp) { Poly p; p.e = e; p.t.push_back({{id}, 1}); if (!polyFinish(p)) unsup("input poly"); return mkPoly(std::move(p), 64); }
  return mkBV(w >= 64 ? v : z3::sext(v, 64 - w), 64);
}
static void shardStep(i64 n, i64 c) {  // split the choice tree over OPT_SHARDN processes
  if (OPT_SHARDN <= 1) return; i64 &sp = S->cfg["sp"], &si = S->cfg["si"]; if (sp < 0) return; if (sp == 0) sp = 1;
  si = si * n + c; sp *= n; if (sp >= 64 * OPT_SHARDN) { sp = -1; u64 h = (u64)si * 0x9E3779B97F4A7C15ull; if ((i64)((h >> 33) % OPT_SHARDN) != OPT_SHARD) throw Kill{6, "shard"}; }
}
static SVal b_choose(XI &x) {
  i64 n = A(x, 0); State *me = S; std::string nm = "choose#" + std::to_string(S->inputs.size());
  if (n <= 0) throw Kill{1, "empty choice"};
  for (i64 i = n - 1; i >= 1; --i) { S = me; State *c = cloneAt(); S = c; S->inputs.push_back({nm, 0, i, -1, 0}); try { shardStep(n, i); } catch (Kill &) { WL.pop_back(); delete c; continue; } Frame &f = S->st.back(); if (x.dst >= 0) f.r[x.dst] = SVal((u64)i); if (x.b1 >= 0) jump(x.b1); else ++f.ip; }
  S = me; S->inputs.push_back({nm, 0, 0, -1, 0}); shardStep(n, 0); return SVal(0ull);
}
static z3::expr boolOf(const SVal &v) {  // harness conditions are i1 or i32/i64 (non-zero)
  auto *b = (BVNode *)v.n; if (b->w == 1) return bvOf(v, 1); return b->e != ZC->bv_val(0, b->w);
}
static SVal b_assume(XI &x) {
  const SVal &v = val(x.ops[0]); if (!v.n) { if (!v.c) throw Kill{1, "assume"}; return SVal(); }
  z3::expr c = boolOf(v).simplify(); ensureModel(); bool ok = evalB(c); if (!ok) { std::shared_ptr<z3::model> m; int r = check(&c, &m); if (r == 0) throw Kill{1, "assume"}; if (r < 0) throw Kill{2, "solver-unknown"}; S->model = m; }
  addPC(c); return SVal();
}
static SVal b_assert(XI &x) {
  const SVal &v = val(x.ops[0]); std::string lab = cstr(A(x, 1)); ++ASSERTLBL[lab]; ++ST.asserts;
  if (!v.n) { ++ST.assertTriv; if (!v.c) violation(lab); return SVal(); }
  z3::expr c = boolOf(v).simplify(), nc = !c; ++ST.assertQ; ensureModel(); std::shared_ptr<z3::model> m;
  int r = evalB(c) ? check(&nc, &m) : 1; if (r == 1 && !m) m = S->model;
  if (r < 0) { ++CUTS["assert-unknown"]; addPC(c); S->model.reset(); return SVal(); }
  if (r == 1) { reportViolation(lab, m); throw Kill{4, lab}; }
  return SVal();
}
// equality of two floating-point values.  If the normal forms agree the equality is queued and the solver decides all
// queued equalities of the path in one query over the program's own expression structure (flushEq).
static SVal b_eq(XI &x) {
  u8 ft = ftX(x); SVal a = val(x.ops[0]), b = val(x.ops[1]); std::string lab = cstr(A(x, 2)); ++ASSERTLBL[lab]; ++ST.asserts;
  if (!a.isK(K_POLY) && !b.isK(K_POLY)) { a = concVal(a, ft); b = concVal(b, ft); long double u = fpVal(a, ft), v = fpVal(b, ft); ++ST.assertTriv; if (!(u == v || (std::isnan(u) && std::isnan(v)))) violation(lab); return SVal(); }
  if (!S->rels.empty()) { Poly p, q, d; if (polyOf(a, ft, p) && polyOf(b, ft, q) && polyAdd(p, q, -1, d) && !d.t.empty() && reduceRels(d) && substFixed(d) && d.t.empty()) { ++ST.eqRel; return SVal(); } }
  SVal c = fcmp(FCmpInst::FCMP_OEQ, ft, a, b);
  if (!c.n) {
    if (!c.c) violation(lab); Poly p, q, d; // decided from the definitions of auxiliary atoms (absolute values, selections): nothing to re-check over free atoms
    if (polyOf(a, ft, p) && polyOf(b, ft, q) && polyAdd(p, q, -1, d) && !d.t.empty()) { ++ST.assertTriv; return SVal(); }
    S->pend.push_back({a, b}); return SVal();
  }
  z3::expr e = boolOf(c).simplify(), ne = !e; ++ST.assertQ; ensureModel(); std::shared_ptr<z3::model> m;
  int r = evalB(e) ? check(&ne, &m) : 1; if (r == 1 && !m) m = S->model;
  if (r < 0) { ++CUTS["assert-unknown"]; addPC(e); S->model.reset(); return SVal(); }
  if (r == 1) { reportViolation(lab, m); throw Kill{4, lab}; }
  return SVal();
}
struct IT { z3::expr t; int e; };
static IT intTerm(const SVal &v, std::unordered_map<Node *, IT> &memo, std::map<u32, z3::expr> &av) {
  auto leaf = [&](const Poly &p) { z3::expr s = ZC->int_val(0); for (auto &t : p.t) { z3::expr k = ZC->int_val(i128s(t.c).c_str()); for (u32 a : t.m) { auto it = av.find(a); if (it == av.end()) { auto fx = S->fixed.find(a); it = av.emplace(a, fx != S->fixed.end() ? ZC->int_val((int64_t)fx->second) : ZC->int_const(("a" + std::to_string(a)).c_str())).first; } k = k * it->second; } s = s + k; } return IT{s, p.e}; };
  if (!v.isK(K_POLY)) { Poly p; polyFromLD(fpVal(v, 64), p); return leaf(p); }
  auto it = memo.find(v.n); if (it != memo.end()) return it->second;
  auto *n = (PolyNode *)v.n; IT r{ZC->int_val(0), 0};
  if (!n->op) r = leaf(n->p);
  else {
    IT a = intTerm(n->l, memo, av), b = intTerm(n->r, memo, av);
    if (n->op == '*') r = IT{a.t * b.t, a.e + b.e};
    else { int e = std::min(a.e, b.e); auto sc = [&](IT &q) { return q.e == e ? q.t : q.t * ZC->int_val(i128s(((i128)1) << (q.e - e)).c_str()); }; if (abs(a.e - b.e) > 100) r = leaf(n->p); else r = IT{n->op == '+' ? sc(a) + sc(b) : sc(a) - sc(b), e}; }
  }
  memo.emplace(v.n, r); return r;
}
static double EQ_TIME = 0;
static void flushEq() {
  if (S->pend.empty()) return; auto t0 = Clk::now(); if (EQ_TIME > 5 && EQ_TIME > 0.15 * now()) { ++ST.eqSkip; S->pend.clear(); return; }
  std::unordered_map<Node *, IT> memo; std::map<u32, z3::expr> av; z3::expr_vector d(*ZC);
  for (auto &pr : S->pend) { IT a = intTerm(pr.first, memo, av), b = intTerm(pr.second, memo, av); int e = std::min(a.e, b.e); if (abs(a.e - b.e) > 100) continue; auto sc = [&](IT &q) { return q.e == e ? q.t : q.t * ZC->int_val(i128s(((i128)1) << (q.e - e)).c_str()); }; d.push_back(sc(a) != sc(b)); }
  static z3::solver *is = nullptr; if (!is) { is = new z3::solver(*ZC, z3::solver::simple()); z3::params p(*ZC); p.set("timeout", 10000u); is->set(p); }
  is->push(); is->add(z3::mk_or(d)); auto r = is->check(); is->pop(); ++ST.queries; ++ST.pathQ; ST.pathEq += S->pend.size();
  { double dt = std::chrono::duration<double>(Clk::now() - t0).count(); ST.solver += dt; EQ_TIME += dt; }
  if (r == z3::unsat) ++ST.unsat; else if (r == z3::unknown) ++ST.unknown; else { ++ST.xfail; ++UNSUP["solver and normal form disagree"]; }
  S->pend.clear();
}
static u64 opNew(XI &x, bool nothrow) {
  u64 n = A(x, 0); auto it = S->cfg.find("oom");
  if (it != S->cfg.end() && nothrow) { if (it->second == 0) { S->cfg.erase(it); return 0; } if (it->second > 0) --it->second; }
  u64 a = n > (64ull << 20) ? 0 : heapAlloc(n); if (!a) { if (nothrow) return 0; if (!nothrow) { // bad_alloc: thrown by the support runtime
      Function *f = M->getFunction("sxrt_throw_bad_alloc"); if (!f) unsup("bad_alloc"); pushFrame(fnInfo(f), {}, &x); throw Ctl{}; } }
  return a;
}
static SVal b_new(XI &x) { return SVal(opNew(x, false)); }
static SVal b_newnt(XI &x) { return SVal(opNew(x, true)); }
static SVal b_malloc(XI &x) { u64 n = A(x, 0); if (n > (64ull << 20)) return SVal(0ull); u64 a = heapAlloc(n); --S->heapLive; return SVal(a); }
static SVal b_calloc(XI &x) { u64 n = A(x, 0) * A(x, 1); if (n > (64ull << 20)) return SVal(0ull); u64 a = heapAlloc(n, 0); --S->heapLive; return SVal(a); }
static SVal b_delete(XI &x) { heapFree(A(x, 0)); return SVal(); }
static SVal b_free(XI &x) { u64 a = A(x, 0); if (a) { heapFree(a); ++S->heapLive; } return SVal(); }
static SVal b_realloc(XI &x) { u64 a = A(x, 0), n = A(x, 1); if (n > (64ull << 20)) return SVal(0ull); u64 b = heapAlloc(n); --S->heapLive; if (a) { u64 o = objRO(a >> 32) ? objRO(a >> 32)->size : 0; copyMem(b, a, std::min(o, n)); heapFree(a); ++S->heapLive; } return SVal(b); }
static SVal b_memcpy(XI &x) { u64 d = A(x, 0), s = A(x, 1), n = A(x, 2); copyMem(d, s, n); return SVal(d); }
static SVal b_memset(XI &x) { u64 d = A(x, 0), n = A(x, 2); u8 c = A(x, 1, 32); if (n) { u64 off; resolve(d, n, off, true, "write"); Obj *o = objRW(d >> 32); clearSym(o, off, n); memset(&o->b[off], c, n); } return SVal(d); }
static SVal b_nop(XI &) { return SVal(0ull); }
static SVal b_abort(XI &) { violation("abort() called"); }
static SVal b_term(XI &) { violation("std::terminate called"); }
static SVal b_trap(XI &) { violation("trap (undefined behaviour)"); }
static SVal b_throw(XI &x) { S->exc = A(x, 0); S->excTy = A(x, 1); S->excInfo[S->exc] = S->excTy; unwind(); throw Ctl{}; }
static SVal b_allocexc(XI &x) { u64 a = heapAlloc(A(x, 0)); --S->heapLive; return SVal(a); }
static SVal b_begincatch(XI &x) { u64 e = A(x, 0); S->caught.push_back({e, S->excInfo[e]}); return SVal(e); }
static SVal b_endcatch(XI &) { if (!S->caught.empty()) S->caught.pop_back(); return SVal(); }
static SVal b_rethrow(XI &) { if (S->caught.empty()) violation("std::terminate called"); S->exc = S->caught.back().first; S->excTy = S->caught.back().second; unwind(); throw Ctl{}; }
static SVal b_typeid(XI &x) { u64 t = A(x, 0); return SVal(t ? (t >> 32) & 0x7fffffff : 0x7ffffff0); }
static SVal b_guard(XI &x) { u64 a = A(x, 0), off; Obj *o = resolve(a, 1, off, false, "read"); return SVal(o->b[off] ? 0 : 1); }
static SVal b_guardrel(XI &x) { u64 a = A(x, 0), off; resolve(a, 1, off, true, "write"); objRW(a >> 32)->b[off] = 1; return SVal(); }
static SVal b_int(XI &x) { return newInput(cstr(A(x, 0)), A(x, 1), A(x, 2), false, 0); }
static SVal b_dbl(XI &x) { return newInput(cstr(A(x, 0)), A(x, 1), A(x, 2), true, (int)A(x, 3, 32)); }
static SVal b_cover(XI &x) { ++COVER[cstr(A(x, 0))]; return SVal(); }
static SVal b_one(XI &) { return SVal(1); }
static SVal b_live(XI &) { return SVal((u64)S->heapLive); }
static SVal b_oom(XI &x) { S->cfg["oom"] = (i64)A(x, 0); return SVal(); }
static SVal b_conc(XI &x) { return SVal(A(x, 0)); }
static SVal b_concd(XI &x) { return SVal(A(x, 0)); }
static SVal b_size(XI &x) { u64 a = A(x, 0); Obj *o = objRO(a >> 32); return SVal(o ? o->size - ((a & 0xffffffffu) - OFF) : 0); }
static SVal b_trace(XI &x) { std::string l = cstr(A(x, 0)); SVal v = val(x.ops[1]); fprintf(stderr, "[trace] %s = %s%g\n", l.c_str(), v.n ? "sym " : "", v.n ? 0.0 : asD(v.c)); if (v.isK(K_POLY)) { auto &p = ((PolyNode *)v.n)->p; fprintf(stderr, "   e=%d lo=%s hi=%s terms=%zu\n", p.e, i128s(p.lo).c_str(), i128s(p.hi).c_str(), p.t.size()); } return SVal(); }
static SVal b_tracei(XI &x) { std::string l = cstr(A(x, 0)); SVal v = val(x.ops[1]); if (v.n && v.isK(K_BV)) { std::ostringstream o; o << ((BVNode *)v.n)->e; fprintf(stderr, "[trace] %s = sym %s\n", l.c_str(), o.str().c_str()); } else fprintf(stderr, "[trace] %s = %lld\n", l.c_str(), (long long)v.c); return SVal(); }
template <class F> static SVal fn1(XI &x, F f) { u8 ft = ftX(x); SVal v = val(x.ops[0]); if (v.n && !v.isK(K_LD)) { v = concVal(v, ft); if (x.ops[0].slot >= 0) S->st.back().r[x.ops[0].slot] = v; } return concFP(f(fpVal(v, ft), ft), ft); }
static long double rnd(long double v, u8 ft) { return ft == 64 ? (double)v : ft == 32 ? (float)v : v; }
static SVal b_sqrt(XI &x) { return fn1(x, [](long double v, u8 ft) { return ft == 64 ? (long double)sqrt((double)v) : ft == 32 ? (long double)sqrtf((float)v) : sqrtl(v); }); }
static bool isPow2(long double v) { int e; return v > 0 && frexpl(v, &e) == 0.5L; }
static SVal b_log(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { if (OPT_LOG2 && v > 0) { if (!isPow2(v)) throw Kill{2, "log-model"}; return log2l(v); } return ft == 64 ? log((double)v) : ft == 32 ? logf(v) : logl(v); }); }
static SVal b_exp(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { if (OPT_LOG2) return rnd(exp2l(v), ft); return ft == 64 ? exp((double)v) : ft == 32 ? expf(v) : expl(v); }); }
static SVal b_log2(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { return rnd(log2l(v), ft); }); }
static SVal b_log10(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { return ft == 64 ? log10((double)v) : rnd(log10l(v), ft); }); }
static SVal b_exp2(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { return rnd(exp2l(v), ft); }); }
static bool intPoly(const SVal &v) { return v.isK(K_POLY) && ((PolyNode *)v.n)->p.e >= 0; }
static SVal b_floor(XI &x) { if (intPoly(val(x.ops[0]))) return val(x.ops[0]); return fn1(x, [](long double v, u8) { return floorl(v); }); }
static SVal b_ceil(XI &x) { if (intPoly(val(x.ops[0]))) return val(x.ops[0]); return fn1(x, [](long double v, u8) { return ceill(v); }); }
static SVal b_trunc(XI &x) { if (intPoly(val(x.ops[0]))) return val(x.ops[0]); return fn1(x, [](long double v, u8) { return truncl(v); }); }
static SVal b_round(XI &x) { if (intPoly(val(x.ops[0]))) return val(x.ops[0]); return fn1(x, [](long double v, u8) { return roundl(v); }); }
static SVal b_fabs(XI &x) { return polyAbs(val(x.ops[0]), ftX(x)); }
static SVal b_cbrt(XI &x) { return fn1(x, [](long double v, u8 ft) -> long double { return ft == 64 ? cbrt((double)v) : rnd(cbrtl(v), ft); }); }
static SVal b_pow(XI &x) { u8 ft = ftX(x); SVal a = concVal(val(x.ops[0]), ft), b = concVal(val(x.ops[1]), ft); return concFP(ft == 64 ? pow((double)fpVal(a, ft), (double)fpVal(b, ft)) : powl(fpVal(a, ft), fpVal(b, ft)), ft); }
static SVal b_ldexp(XI &x) { u8 ft = ftX(x); int k = (int)A(x, 1, 32); SVal a = val(x.ops[0]); if (a.isK(K_POLY)) { Poly p; polyOf(a, ft, p); p.e += k; if (polyExact(p, ft)) return mkPoly(std::move(p), ft); a = concVal(a, ft); } return concFP(ldexpl(fpVal(a, ft), k), ft); }
static SVal b_hypot(XI &x) {
  u8 ft = ftX(x); SVal a = val(x.ops[0]), b = val(x.ops[1]);
  for (int s = 0; s < 2; ++s) { SVal u = s ? b : a, v = s ? a : b; bool z; if (u.isK(K_POLY)) { Poly p; polyOf(u, ft, p); z = decide(polyCmp0(p, 0)); } else z = fpVal(u, ft) == 0; if (z) return polyAbs(v, ft); }
  a = concVal(a, ft); b = concVal(b, ft); return concFP(ft == 64 ? hypot((double)fpVal(a, ft), (double)fpVal(b, ft)) : ft == 32 ? hypotf(fpVal(a, ft), fpVal(b, ft)) : hypotl(fpVal(a, ft), fpVal(b, ft)), ft);
}
static SVal fminmax(XI &x, bool mx) {
  u8 ft = ftX(x); SVal a = val(x.ops[0]), b = val(x.ops[1]); SVal c = fcmp(mx ? FCmpInst::FCMP_OGE : FCmpInst::FCMP_OLE, ft, a, b); if (!c.n) { if (!a.isK(K_POLY) && std::isnan(fpVal(a, ft))) return b; if (!b.isK(K_POLY) && std::isnan(fpVal(b, ft))) return a; return c.c ? a : b; }
  XI t; t.ft = ft; t.w = ft; t.ty = x.ty; return doSelect(t, c, a, b);
}
static SVal b_fmin(XI &x) { return fminmax(x, false); }
static SVal b_fmax(XI &x) { return fminmax(x, true); }
static SVal b_fma(XI &x) { u8 ft = ftX(x); return fbin(Instruction::FAdd, ft, fbin(Instruction::FMul, ft, val(x.ops[0]), val(x.ops[1])), val(x.ops[2])); }
static SVal b_copysign(XI &x) { u8 ft = ftX(x); SVal b = val(x.ops[1]); bool neg; if (b.isK(K_POLY)) { Poly p; polyOf(b, ft, p); neg = decide(polyCmp0(p, 1)); } else neg = std::signbit(fpVal(b, ft)); SVal a = polyAbs(val(x.ops[0]), ft); return neg ? polyNeg(a, ft) : a; }
static SVal b_isfpclass(XI &x) {
  u8 ft = ftX(x); SVal a = val(x.ops[0]); unsigned m = A(x, 1, 32);  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
  if (a.isK(K_POLY)) { if ((m & 0x3) == m || (m & 0x207) == m) return SVal(0ull); if ((m & 0x1f8) == 0x1f8) return SVal(1); a = concVal(a, ft); }
  long double v = fpVal(a, ft); unsigned b = std::isnan(v) ? 2 : std::isinf(v) ? (v < 0 ? 4 : 512) : v == 0 ? (std::signbit(v) ? 32 : 64) : v < 0 ? 8 | 16 : 128 | 256; return SVal((m & b) ? 1 : 0);
}
static SVal iminmax(XI &x, unsigned pr) { unsigned w = bw(x.ty); SVal a = val(x.ops[0]), b = val(x.ops[1]); SVal c = icmp(pr, w, a, b); XI t; t.ft = 0; t.w = w; t.ty = x.ty; return doSelect(t, c, a, b); }
static SVal b_smax(XI &x) { return iminmax(x, ICmpInst::ICMP_SGE); }
static SVal b_smin(XI &x) { return iminmax(x, ICmpInst::ICMP_SLE); }
static SVal b_umax(XI &x) { return iminmax(x, ICmpInst::ICMP_UGE); }
static SVal b_umin(XI &x) { return iminmax(x, ICmpInst::ICMP_ULE); }
static SVal b_iabs(XI &x) { unsigned w = bw(x.ty); SVal a = val(x.ops[0]); SVal c = icmp(ICmpInst::ICMP_SLT, w, a, SVal(0ull)); XI t; t.ft = 0; t.w = w; t.ty = x.ty; return doSelect(t, c, binI(Instruction::Sub, w, SVal(0ull), a), a); }
static SVal b_usubsat(XI &x) { unsigned w = bw(x.ty); SVal a = val(x.ops[0]), b = val(x.ops[1]); SVal c = icmp(ICmpInst::ICMP_UGE, w, a, b); XI t; t.ft = 0; t.w = w; t.ty = x.ty; return doSelect(t, c, binI(Instruction::Sub, w, a, b), SVal(0ull)); }
static SVal b_ctpop(XI &x) { return SVal((u64)__builtin_popcountll(A(x, 0, bw(x.ty)))); }
static SVal b_ctlz(XI &x) { unsigned w = bw(x.ty); u64 v = A(x, 0, w); return SVal(v ? (u64)(__builtin_clzll(v) - (64 - w)) : w); }
static SVal b_cttz(XI &x) { unsigned w = bw(x.ty); u64 v = A(x, 0, w); return SVal(v ? (u64)__builtin_ctzll(v) : w); }
static SVal b_bswap(XI &x) { unsigned w = bw(x.ty); return SVal(__builtin_bswap64(A(x, 0, w)) >> (64 - w)); }
static SVal b_fshl(XI &x) { unsigned w = bw(x.ty); u64 a = A(x, 0, w), b = A(x, 1, w), s = A(x, 2, w) % w; return SVal(s ? ((a << s) | (b >> (w - s))) & maskw(w) : a); }
static SVal b_fshr(XI &x) { unsigned w = bw(x.ty); u64 a = A(x, 0, w), b = A(x, 1, w), s = A(x, 2, w) % w; return SVal(s ? ((a << (w - s)) | (b >> s)) & maskw(w) : b); }
static SVal ovf(XI &x, unsigned op, bool sg) {
  unsigned w = bw(x.I->getOperand(0)->getType()); SVal a = val(x.ops[0]), b = val(x.ops[1]);
  if (a.n || b.n) { if (!a.isK(K_BV) && a.n) unsup("ovf"); z3::expr p = bvBits(a, w), q = bvBits(b, w); z3::expr pe = sg ? z3::sext(p, w) : z3::zext(p, w), qe = sg ? z3::sext(q, w) : z3::zext(q, w); z3::expr r = op == 0 ? pe + qe : op == 1 ? pe - qe : pe * qe; z3::expr lo = r.extract(w - 1, 0); z3::expr o = r != (sg ? z3::sext(lo, w) : z3::zext(lo, w)); std::vector<SVal> v; v.push_back(mkBV(lo, w)); v.push_back(mkBV(o, 1)); return mkAgg(std::move(v)); }
  i128 p = sg ? (i128)sxt(a.c, w) : (i128)(u64)a.c, q = sg ? (i128)sxt(b.c, w) : (i128)(u64)b.c, r = op == 0 ? p + q : op == 1 ? p - q : p * q; u64 lo = (u64)r & maskw(w); i128 back = sg ? (i128)sxt(lo, w) : (i128)lo; std::vector<SVal> v; v.push_back(SVal(lo)); v.push_back(SVal((u64)(back != r))); return mkAgg(std::move(v));
}
static SVal b_umulo(XI &x) { return ovf(x, 2, false); }
static SVal b_smulo(XI &x) { return ovf(x, 2, true); }
static SVal b_uaddo(XI &x) { return ovf(x, 0, false); }
static SVal b_saddo(XI &x) { return ovf(x, 0, true); }
static SVal b_usubo(XI &x) { return ovf(x, 1, false); }
static SVal b_ssubo(XI &x) { return ovf(x, 1, true); }
static SVal b_expect(XI &x) { return val(x.ops[0]); }
static SVal b_objsize(XI &) { return SVal(~0ull); }
// ---- OpenMP: thread bodies run one after the other up to the next barrier (every schedule is equivalent unless a race is reported)
static i64 cfgOf(const char *k, i64 d) { auto it = S->cfg.find(k); return it == S->cfg.end() ? d : it->second; }
static SVal b_pushnt(XI &x) { S->cfg["omp_push"] = sxt(A(x, 2, 32), 32); return SVal(0ull); }
static SVal b_fork(XI &x) {
  i64 n = cfgOf("omp_push", cfgOf("omp_max", 4)); S->cfg.erase("omp_push"); n = std::max<i64>(1, std::min(n, cfgOf("omp_limit", 64))); if (!S->team.empty()) n = 1;  // nested regions are serialized
  u64 fa = A(x, 2), fx = (fa - FN_BASE) / 16; if (fa < FN_BASE || fx >= FNS.size()) unsup("parallel region"); FnInfo *fi = fnInfo(FNS[fx]);
  std::vector<SVal> args(2); const unsigned na = cast<CallBase>(x.I)->arg_size(); for (unsigned i = 3; i < na; ++i) args.push_back(val(x.ops[i]));
  Team t; t.n = n; t.rev = cfgOf("omp_rev", 0); t.x = &x; t.st.resize(n); t.status.assign(n, 0); std::vector<Frame> base = std::move(S->st);
  for (int i = 0; i < n; ++i) { for (int k = 0; k < 2; ++k) { u32 id = newObj(4, O_STACK, 0); t.ids.push_back(id); u32 v = k ? 0 : i; memcpy(&S->objs[id].p->b[0], &v, 4); args[k] = SVal(addrOf(id)); } S->st.clear(); pushFrame(fi, args, nullptr); t.st[i] = std::move(S->st); }
  t.base = std::move(base); S->team.push_back(std::move(t)); nextThread(); throw Ctl{};
}
static SVal b_barrier(XI &x) {
  if (S->team.empty()) return SVal(0ull); Team &t = S->team.back(); if (x.b1 >= 0) jump(x.b1); else ++S->st.back().ip;
  t.status[t.cur] = 1; t.st[t.cur] = std::move(S->st); S->st.clear(); nextThread(); throw Ctl{};
}
static SVal b_single(XI &) { if (S->team.empty()) return SVal(1ull); Team &t = S->team.back(); return SVal((u64)(t.cur == (t.rev ? t.n - 1 : 0))); }
static SVal b_crit(XI &) { S->cfg["omp_crit"] = 1; return SVal(); }
static SVal b_endcrit(XI &) { S->cfg.erase("omp_crit"); return SVal(); }
static SVal b_forinit(XI &x) {  // static schedule: (loc, gtid, type, last*, lower*, upper*, stride*, incr, chunk)
  const std::string nm = cast<CallBase>(x.I)->getCalledFunction()->getName().str(); const unsigned w = nm[nm.find("init_") + 5] == '8' ? 64 : 32; const bool un = nm.back() == 'u';
  const i64 kind = sxt(A(x, 2, 32), 32); if (kind != 34 && kind != 33) unsup("loop schedule");
  const i64 T = S->team.empty() ? 1 : S->team.back().n, k = S->team.empty() ? 0 : S->team.back().cur, inc = sxt(A(x, 7, w), w); i64 chunk = sxt(A(x, 8, w), w);
  auto rd = [&](int i, unsigned ww) { u64 off; Obj *o = resolve(A(x, i), ww / 8, off, false, "read"); u64 v = 0; if (!o->sym.empty()) for (auto &c : o->sym) if (c.first + 8 > off && c.first < off + ww / 8) unsup("symbolic loop bounds"); memcpy(&v, &o->b[off], ww / 8); return un ? (i64)v : sxt(v, ww); };
  auto wrt = [&](int i, unsigned ww, i64 v) { u64 off; resolve(A(x, i), ww / 8, off, true, "write"); Obj *o = objRW(A(x, i) >> 32); memcpy(&o->b[off], &v, ww / 8); };
  const i64 lo = rd(4, w), hi = rd(5, w); i64 trip = inc > 0 ? (hi < lo ? 0 : (hi - lo) / inc + 1) : (lo < hi ? 0 : (lo - hi) / -inc + 1), a, b, st;
  if (kind == 34) { const i64 q = trip / T, r = trip % T; a = k * q + std::min(k, r); b = a + q + (k < r) - 1; st = trip; } else { if (chunk < 1) chunk = 1; a = k * chunk; b = a + chunk - 1; st = T * chunk; }
  wrt(3, 32, b >= trip - 1 && a < trip); wrt(4, w, lo + a * inc); wrt(5, w, lo + b * inc); wrt(6, w, st * inc); return SVal();
}
static SVal b_tnum(XI &) { return SVal((u64)(S->team.empty() ? 0 : S->team.back().cur)); }
static SVal b_tcnt(XI &) { return SVal((u64)(S->team.empty() ? 1 : S->team.back().n)); }
static SVal b_tmaster(XI &) { return SVal((u64)(S->team.empty() || S->team.back().cur == 0)); }
static SVal b_tmax(XI &) { return SVal((u64)cfgOf("omp_max", 4)); }
static SVal b_inpar(XI &) { return SVal((u64)!S->team.empty()); }
static SVal b_omp(XI &x) { S->cfg["omp_limit"] = (i64)A(x, 0); S->cfg["omp_rev"] = (i64)A(x, 1); S->cfg["omp_max"] = (i64)A(x, 2); return SVal(); }
struct BT { const char *n; SVal (*f)(XI &); bool prefix; };
static const BT BTAB[] = {
    {"sx_int", b_int, 0}, {"sx_dbl", b_dbl, 0}, {"sx_choose", b_choose, 0}, {"sx_assume", b_assume, 0}, {"sx_assert", b_assert, 0}, {"sx_eq", b_eq, 0}, {"sx_cover", b_cover, 0}, {"sx_symbolic", b_one, 0}, {"sx_heap_live", b_live, 0}, {"sx_oom", b_oom, 0}, {"sx_conc", b_conc, 0}, {"sx_concd", b_concd, 0}, {"sx_size", b_size, 0}, {"sx_trace", b_trace, 0}, {"sx_tracei", b_tracei, 0}, {"sx_malloc", b_malloc, 0}, {"sx_free", b_free, 0},
    {"_Znwm", b_new, 0}, {"_Znam", b_new, 0}, {"_ZnwmRKSt9nothrow_t", b_newnt, 0}, {"_ZnamRKSt9nothrow_t", b_newnt, 0}, {"_ZdlPv", b_delete, 0}, {"_ZdaPv", b_delete, 0}, {"_ZdlPvm", b_delete, 0}, {"_ZdaPvm", b_delete, 0}, {"_ZdlPvRKSt9nothrow_t", b_delete, 0}, {"_ZdaPvRKSt9nothrow_t", b_delete, 0},
    {"malloc", b_malloc, 0}, {"calloc", b_calloc, 0}, {"free", b_free, 0}, {"realloc", b_realloc, 0}, {"memcpy", b_memcpy, 0}, {"memmove", b_memcpy, 0}, {"memset", b_memset, 0}, {"llvm.memcpy.", b_memcpy, 1}, {"llvm.memmove.", b_memcpy, 1}, {"llvm.memset.", b_memset, 1},
    {"abort", b_abort, 0}, {"exit", b_abort, 0}, {"_exit", b_abort, 0}, {"_ZSt9terminatev", b_term, 0}, {"__assert_fail", b_abort, 0}, {"llvm.trap", b_trap, 0}, {"llvm.ubsantrap", b_trap, 0}, {"__cxa_pure_virtual", b_abort, 0}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort, 0}, {"__clang_call_terminate", b_term, 0},
    {"__cxa_allocate_exception", b_allocexc, 0}, {"__cxa_free_exception", b_nop, 0}, {"__cxa_throw", b_throw, 0}, {"__cxa_begin_catch", b_begincatch, 0}, {"__cxa_end_catch", b_endcatch, 0}, {"__cxa_rethrow", b_rethrow, 0}, {"llvm.eh.typeid.for", b_typeid, 1},
    {"__cxa_guard_acquire", b_guard, 0}, {"__cxa_guard_release", b_guardrel, 0}, {"__cxa_guard_abort", b_nop, 0}, {"__cxa_atexit", b_nop, 0}, {"atexit", b_nop, 0},
    {"printf", b_nop, 0}, {"fprintf", b_nop, 0}, {"puts", b_nop, 0}, {"putchar", b_nop, 0}, {"fputs", b_nop, 0}, {"fputc", b_nop, 0}, {"fflush", b_nop, 0}, {"_ZNSt6chrono3_V212system_clock3nowEv", b_nop, 0}, {"_ZNSt6chrono3_V212steady_clock3nowEv", b_nop, 0}, {"clock", b_nop, 0}, {"time", b_nop, 0}, {"perror", b_nop, 0},
    {"_ZNSt8ios_base4InitC1Ev", b_nop, 0}, {"_ZNSt8ios_base4InitD1Ev", b_nop, 0}, {"omp_get_thread_num", b_tnum, 0}, {"omp_get_num_threads", b_tcnt, 0}, {"omp_get_max_threads", b_tmax, 0}, {"omp_in_parallel", b_inpar, 0}, {"sx_omp", b_omp, 0}, {"__kmpc_fork_call", b_fork, 0}, {"__kmpc_push_num_threads", b_pushnt, 0}, {"__kmpc_barrier", b_barrier, 0}, {"__kmpc_for_static_init_", b_forinit, 1}, {"__kmpc_for_static_fini", b_nop, 0}, {"__kmpc_single", b_single, 0}, {"__kmpc_end_single", b_nop, 0}, {"__kmpc_critical", b_crit, 0}, {"__kmpc_end_critical", b_endcrit, 0}, {"__kmpc_flush", b_nop, 0}, {"__kmpc_master", b_tmaster, 0}, {"__kmpc_masked", b_tmaster, 0}, {"__kmpc_end_master", b_nop, 0}, {"__kmpc_end_masked", b_nop, 0}, {"__kmpc_global_thread_num", b_tnum, 0},
    {"cbrt", b_cbrt, 0}, {"sqrt", b_sqrt, 0}, {"sqrtf", b_sqrt, 0}, {"sqrtl", b_sqrt, 0}, {"llvm.sqrt.", b_sqrt, 1}, {"log", b_log, 0}, {"logf", b_log, 0}, {"logl", b_log, 0}, {"llvm.log.", b_log, 1}, {"exp", b_exp, 0}, {"expf", b_exp, 0}, {"expl", b_exp, 0}, {"llvm.exp.", b_exp, 1}, {"log2", b_log2, 0}, {"llvm.log2.", b_log2, 1}, {"log10", b_log10, 0}, {"llvm.log10.", b_log10, 1}, {"exp2", b_exp2, 0}, {"llvm.exp2.", b_exp2, 1},
    {"floor", b_floor, 0}, {"llvm.floor.", b_floor, 1}, {"ceil", b_ceil, 0}, {"llvm.ceil.", b_ceil, 1}, {"trunc", b_trunc, 0}, {"llvm.trunc.", b_trunc, 1}, {"round", b_round, 0}, {"llvm.round.", b_round, 1}, {"lround", b_abort, 0}, {"fabs", b_fabs, 0}, {"fabsf", b_fabs, 0}, {"fabsl", b_fabs, 0}, {"llvm.fabs.", b_fabs, 1}, {"pow", b_pow, 0}, {"llvm.pow.", b_pow, 1}, {"ldexp", b_ldexp, 0}, {"llvm.ldexp.", b_ldexp, 1}, {"hypot", b_hypot, 0}, {"hypotf", b_hypot, 0}, {"hypotl", b_hypot, 0}, {"cabs", b_hypot, 0},
    {"fmin", b_fmin, 0}, {"llvm.minnum.", b_fmin, 1}, {"fmax", b_fmax, 0}, {"llvm.maxnum.", b_fmax, 1}, {"llvm.fma.", b_fma, 1}, {"llvm.fmuladd.", b_fma, 1}, {"llvm.copysign.", b_copysign, 1}, {"copysign", b_copysign, 0}, {"llvm.is.fpclass.", b_isfpclass, 1},
    {"llvm.smax.", b_smax, 1}, {"llvm.smin.", b_smin, 1}, {"llvm.umax.", b_umax, 1}, {"llvm.umin.", b_umin, 1}, {"llvm.abs.", b_iabs, 1}, {"llvm.usub.sat.", b_usubsat, 1}, {"llvm.ctpop.", b_ctpop, 1}, {"llvm.ctlz.", b_ctlz, 1}, {"llvm.cttz.", b_cttz, 1}, {"llvm.bswap.", b_bswap, 1}, {"llvm.fshl.", b_fshl, 1}, {"llvm.fshr.", b_fshr, 1},
    {"llvm.umul.with.overflow.", b_umulo, 1}, {"llvm.smul.with.overflow.", b_smulo, 1}, {"llvm.uadd.with.overflow.", b_uaddo, 1}, {"llvm.sadd.with.overflow.", b_saddo, 1}, {"llvm.usub.with.overflow.", b_usubo, 1}, {"llvm.ssub.with.overflow.", b_ssubo, 1},
    {"llvm.expect.", b_expect, 1}, {"llvm.objectsize.", b_objsize, 1}, {"llvm.stacksave", b_nop, 1}, {"llvm.stackrestore", b_nop, 1}, {"llvm.va_start", b_nop, 1}, {"llvm.va_end", b_nop, 1}, {"llvm.va_copy", b_nop, 1}, {"llvm.launder.invariant.group", b_expect, 1}, {"llvm.strip.invariant.group", b_expect, 1},
};
static int builtinId(const std::string &n) {
  auto it = BUILTIN_ID.find(n); if (it != BUILTIN_ID.end()) return it->second;
  int id = -1; for (auto &b : BTAB) if (b.prefix ? n.compare(0, strlen(b.n), b.n) == 0 : n == b.n) { id = BUILTINS.size(); BUILTINS.push_back({n, b.f}); break; }
  // a definition in the module (support runtime or harness model) wins over a builtin of the same name, except for the sx_ interface
  if (id >= 0 && n.compare(0, 3, "sx_") && n.compare(0, 5, "llvm.")) { Function *f = M->getFunction(n); if (f && !f->isDeclaration() && n.compare(0, 22, "__clang_call_terminate")) id = -1; }
  BUILTIN_ID[n] = id; return id;
}
