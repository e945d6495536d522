// ------------------------------------------------------------------ instruction execution
struct Ctl {};  // control flow already set by a builtin
static inline void setD(XI &x, SVal v) { Frame &f = S->st.back(); if (x.dst >= 0) f.r[x.dst] = std::move(v); ++f.ip; }
static void jump(int bb) {
  Frame &f = S->st.back(); int from = f.bb; BB &B = f.f->bbs[bb]; if (!B.seen) markCov(B);
  if (B.nphi) {
    auto it = B.phiFrom.find(from); if (it == B.phiFrom.end()) unsup("phi edge");
    auto &vec = it->second;
    if (B.nphi == 1) f.r[B.ins[0].dst] = SVal(val(vec[0]));
    else { std::vector<SVal> t; t.reserve(B.nphi); for (auto &o : vec) t.push_back(val(o)); for (int i = 0; i < B.nphi; ++i) f.r[B.ins[i].dst] = std::move(t[i]); }
  }
  f.prev = from; f.bb = bb; f.ip = B.nphi;
}
static void popFrame() { Frame &f = S->st.back(); for (u32 a : f.allocas) S->objs[a] = ObjP(); S->st.pop_back(); }
static void pushFrame(FnInfo *fi, const std::vector<SVal> &args, XI *call) {
  if (!fi->decoded) decode(fi);
  if (S->st.size() > 3000) unsup("stack depth");
  Frame nf; nf.f = fi; nf.r.resize(fi->nregs); nf.call = call; size_t na = fi->argSlots.size(); if (args.size() < na) unsup("too few arguments for " + fi->name);
  for (size_t i = 0; i < na; ++i) {
    SVal v = args[i];
    if (fi->F->getArg(i)->hasByValAttr()) { u64 sz = allocSz(fi->F->getArg(i)->getParamByValType()); u32 id = newObj(sz, O_STACK, 0xCB); nf.allocas.push_back(id); copyMem(addrOf(id), v.c, sz); v = SVal(addrOf(id)); }
    nf.r[fi->argSlots[i]] = v;
  }
  for (size_t i = na; i < args.size(); ++i) nf.va.push_back(args[i]);
  if (OPT_TRACE) fprintf(stderr, "%*scall %s\n", (int)S->st.size(), "", fi->name.c_str());
  ++FNHIT[fi->name];
  S->st.push_back(std::move(nf)); BB &B = fi->bbs[0]; if (!B.seen) markCov(B);
}
static void nextThread() {
  Team &t = S->team.back();
  for (int pass = 0; pass < 2; ++pass) {
    bool waiting = false, done = false; int w = 0;
    for (int i = 0; i < t.n; ++i) { const int k = t.rev ? t.n - 1 - i : i; if (t.status[k] == 0) { t.cur = k; S->st = std::move(t.st[k]); t.st[k].clear(); return; } if (t.status[k] == 1) { waiting = true; w = k; } else done = true; }
    if (waiting && done) { S->st = std::move(t.st[w]); violation("barrier not reached by all threads"); }
    if (!waiting) break;
    for (auto &c : t.status) c = 0; t.sh.clear();
  }
  for (u32 id : t.ids) S->objs[id] = ObjP(); XI *x = t.x; S->st = std::move(t.base); S->team.pop_back();
  if (x->b1 >= 0) jump(x->b1); else ++S->st.back().ip;
}
static void doRet(SVal v) {
  XI *call = S->st.back().call; popFrame(); if (S->st.empty()) { if (S->team.empty()) throw Kill{0, ""}; Team &t = S->team.back(); t.status[t.cur] = 2; nextThread(); return; }
  if (!call) return;
  Frame &f = S->st.back(); if (call->dst >= 0) f.r[call->dst] = std::move(v);
  if (call->b1 >= 0) jump(call->b1); else ++f.ip;
}
static void unwind() {
  while (!S->st.empty()) {
    Frame &f = S->st.back(); XI &x = f.f->bbs[f.bb].ins[f.ip];
    if (x.k == X_CALL && x.b2 >= 0) { jump(x.b2); return; }
    if (S->st.size() == 1 || !f.call) { violation("uncaught exception leaves the checked entry point"); }
    popFrame();
  }
}
static u32 gidByName(const char *n) { auto *g = M->getNamedGlobal(n); return g ? GID.at(g) : 0; }
static bool tiMatch(u64 thrown, u64 want) {
  if (!want || thrown == want) return true;
  static u32 si = gidByName("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = gidByName("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  u64 off; if (!objRO(thrown >> 32) || objRO(thrown >> 32)->k == O_OPAQUE) return false;
  Obj *o = resolve(thrown, 16, off, false, "read"); u64 vp; memcpy(&vp, &o->b[off], 8); u32 vid = vp >> 32;
  if (si && vid == si) { u64 b; memcpy(&b, &o->b[off + 16], 8); return tiMatch(b, want); }
  if (vmi && vid == vmi) { u32 n; memcpy(&n, &o->b[off + 20], 4); for (u32 i = 0; i < n; ++i) { u64 b; memcpy(&b, &o->b[off + 24 + 16 * i], 8); if (tiMatch(b, want)) return true; } }
  return false;
}

// ---- integers
static SVal polyNeg(const SVal &a, u8 ft) {
  if (!a.isK(K_POLY)) { if (ft == 80) return concFP(-fpVal(a, ft), ft); return SVal(a.c ^ (1ull << (ft - 1))); }
  Poly p; if (!polyOf(a, ft, p)) throw Kill{2, "poly"}; Poly z, r; if (!polyAdd(z, p, -1, r)) throw Kill{2, "poly"}; return mkPoly(std::move(r), ft);
}
static SVal polyAbs(const SVal &a, u8 ft) {
  if (!a.isK(K_POLY)) { if (ft == 80) return concFP(fabsl(fpVal(a, ft)), ft); return SVal(a.c & maskw(ft - 1)); }
  Poly p; if (!polyOf(a, ft, p)) throw Kill{2, "poly"}; if (p.lo >= 0) return mkPoly(std::move(p), ft); if (p.hi <= 0) return polyNeg(a, ft);
  Poly z, q; if (!polyAdd(z, p, -1, q)) throw Kill{2, "poly"}; bool ok; z3::expr c = polyCmp0(p, 1); SVal r = atomIte(c, q, p, ft, ok); if (ok) return r;
  return decide(c) ? mkPoly(std::move(q), ft) : mkPoly(std::move(p), ft);
}
static u8 polyFt(const SVal &v) { return ((PolyNode *)v.n)->ft; }
static SVal boolSV(bool b) { return SVal((u64)b); }
static SVal binI(unsigned op, unsigned w, SVal a, SVal b) {
  if (!a.n && !b.n) {
    u64 x = a.c, y = b.c, m = maskw(w);
    switch (op) {
      case Instruction::Add: return SVal((x + y) & m); case Instruction::Sub: return SVal((x - y) & m); case Instruction::Mul: return SVal((x * y) & m);
      case Instruction::And: return SVal(x & y); case Instruction::Or: return SVal(x | y); case Instruction::Xor: return SVal(x ^ y);
      case Instruction::Shl: return SVal(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return SVal(y >= w ? 0 : x >> y); case Instruction::AShr: return SVal((u64)(sxt(x, w) >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: if (!y) violation("division by zero"); return SVal(x / y); case Instruction::URem: if (!y) violation("division by zero"); return SVal(x % y);
      case Instruction::SDiv: { if (!y) violation("division by zero"); i64 p = sxt(x, w), q = sxt(y, w); return SVal((q == -1 ? (u64)0 - (u64)p : (u64)(p / q)) & m); }
      case Instruction::SRem: { if (!y) violation("division by zero"); i64 p = sxt(x, w), q = sxt(y, w); return SVal((q == -1 ? 0 : (u64)(p % q)) & m); }
    }
    unsup("int op");
  }
  if (a.isK(K_POLY) || b.isK(K_POLY)) {
    if (a.isK(K_POLY) && !b.n) {
      u8 ft = polyFt(a); 
      if (op == Instruction::And && w == ft && b.c == maskw(ft - 1)) return polyAbs(a, ft);
      if (op == Instruction::Xor && w == ft && b.c == (1ull << (ft - 1))) return polyNeg(a, ft);
      if ((op == Instruction::LShr && b.c == (u64)ft - 1) || (op == Instruction::And && b.c == (1ull << (ft - 1)))) { Poly p; polyOf(a, ft, p); bool s = decide(polyCmp0(p, 1)); return SVal(op == Instruction::And ? (s ? b.c : 0) : (u64)s); }
    }
    a = concVal(a, w); b = concVal(b, w); return binI(op, w, a, b);
  }
  z3::expr x = bvOf(a, w), y = bvOf(b, w);
  if (w == 1 && x.is_bool()) switch (op) {
    case Instruction::And: case Instruction::Mul: return mkBV(x && y, 1); case Instruction::Or: return mkBV(x || y, 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBV(x != y, 1); default: unsup("i1 op");
  }
  switch (op) {
    case Instruction::Add: return mkBV(x + y, w); case Instruction::Sub: return mkBV(x - y, w); case Instruction::Mul: return mkBV(x * y, w);
    case Instruction::And: return mkBV(x & y, w); case Instruction::Or: return mkBV(x | y, w); case Instruction::Xor: return mkBV(x ^ y, w);
    case Instruction::Shl: return mkBV(z3::shl(x, y), w); case Instruction::LShr: return mkBV(z3::lshr(x, y), w); case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (decide(y == ZC->bv_val(0, w))) violation("division by zero");
      return op == Instruction::UDiv ? mkBV(z3::udiv(x, y), w) : op == Instruction::URem ? mkBV(z3::urem(x, y), w) : op == Instruction::SDiv ? mkBV(x / y, w) : mkBV(z3::srem(x, y), w);
  }
  unsup("int op");
}
static SVal icmp(unsigned pr, unsigned w, SVal a, SVal b) {
  if (!a.n && !b.n) {
    u64 x = a.c, y = b.c; i64 p = sxt(x, w), q = sxt(y, w);
    switch (pr) { case ICmpInst::ICMP_EQ: return boolSV(x == y); case ICmpInst::ICMP_NE: return boolSV(x != y); case ICmpInst::ICMP_UGT: return boolSV(x > y); case ICmpInst::ICMP_UGE: return boolSV(x >= y); case ICmpInst::ICMP_ULT: return boolSV(x < y); case ICmpInst::ICMP_ULE: return boolSV(x <= y);
      case ICmpInst::ICMP_SGT: return boolSV(p > q); case ICmpInst::ICMP_SGE: return boolSV(p >= q); case ICmpInst::ICMP_SLT: return boolSV(p < q); case ICmpInst::ICMP_SLE: return boolSV(p <= q); }
  }
  if (a.isK(K_POLY) && !b.n && ((pr == ICmpInst::ICMP_SLT && b.c == 0) || (pr == ICmpInst::ICMP_SGT && b.c == maskw(w)))) { Poly p; polyOf(a, polyFt(a), p); z3::expr c = polyCmp0(p, 1); return mkBV(pr == ICmpInst::ICMP_SLT ? c : !c, 1); }
  if (a.isK(K_POLY) || b.isK(K_POLY)) return icmp(pr, w, concVal(a, w), concVal(b, w));
  z3::expr x = bvOf(a, w), y = bvOf(b, w);
  if (w == 1 && x.is_bool()) { if (pr == ICmpInst::ICMP_EQ) return mkBV(x == y, 1); if (pr == ICmpInst::ICMP_NE) return mkBV(x != y, 1); x = bvBits(a, 1); y = bvBits(b, 1); }
  switch (pr) { case ICmpInst::ICMP_EQ: return mkBV(x == y, 1); case ICmpInst::ICMP_NE: return mkBV(x != y, 1); case ICmpInst::ICMP_UGT: return mkBV(z3::ugt(x, y), 1); case ICmpInst::ICMP_UGE: return mkBV(z3::uge(x, y), 1); case ICmpInst::ICMP_ULT: return mkBV(z3::ult(x, y), 1); case ICmpInst::ICMP_ULE: return mkBV(z3::ule(x, y), 1);
    case ICmpInst::ICMP_SGT: return mkBV(x > y, 1); case ICmpInst::ICMP_SGE: return mkBV(x >= y, 1); case ICmpInst::ICMP_SLT: return mkBV(x < y, 1); case ICmpInst::ICMP_SLE: return mkBV(x <= y, 1); }
  unsup("icmp");
}

// ---- floating point
static SVal concDiv(long double a, long double b, u8 ft) { return ft == 64 ? SVal(fromD((double)a / (double)b)) : ft == 32 ? SVal(fromF((float)a / (float)b)) : concFP(a / b, 80); }
static SVal concBin(unsigned op, long double a, long double b, u8 ft) {
  if (ft == 64) { double x = a, y = b; double r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y); return SVal(fromD(r)); }
  if (ft == 32) { float x = a, y = b; float r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmodf(x, y); return SVal(fromF(r)); }
  long double r = op == Instruction::FAdd ? a + b : op == Instruction::FSub ? a - b : op == Instruction::FMul ? a * b : op == Instruction::FDiv ? a / b : fmodl(a, b); return concFP(r, 80);
}
static i128 rng(const SVal &v) { return v.isK(K_POLY) ? ((PolyNode *)v.n)->p.hi - ((PolyNode *)v.n)->p.lo : 0; }
static SVal tag(SVal r, char op, const SVal &a, const SVal &b) { if (r.isK(K_POLY)) { auto *n = (PolyNode *)r.n; if (!n->op) { n->op = op; n->l = a; n->r = b; } } return r; }
static SVal fbin(unsigned op, u8 ft, SVal a, SVal b) {
  if (!a.isK(K_POLY) && !b.isK(K_POLY)) {
    if (a.isK(K_BV) || b.isK(K_BV)) { a = concVal(a, ft); b = concVal(b, ft); }
    if (ft == 64 && !a.n && !b.n) { double x = asD(a.c), y = asD(b.c); switch (op) { case Instruction::FAdd: return SVal(fromD(x + y)); case Instruction::FSub: return SVal(fromD(x - y)); case Instruction::FMul: return SVal(fromD(x * y)); case Instruction::FDiv: return SVal(fromD(x / y)); } }
    return concBin(op, fpVal(a, ft), fpVal(b, ft), ft);
  }
  // one operand inf/nan
  for (int s = 0; s < 2; ++s) {
    const SVal &k = s ? b : a; SVal o = s ? a : b; if (k.isK(K_POLY)) continue; long double kv = fpVal(k, ft); if (std::isfinite(kv)) continue;
    if (std::isnan(kv)) return concFP(kv, ft);
    if (op == Instruction::FAdd) return concFP(kv, ft); if (op == Instruction::FSub) return concFP(s ? -kv : kv, ft);
    Poly p; polyOf(o, ft, p);
    if (op == Instruction::FDiv && s) { return concFP(0, ft); }
    bool neg = decide(polyCmp0(p, 1)); if (op == Instruction::FMul && !neg && decide(polyCmp0(p, 0))) return concFP(NAN, ft);
    return concFP(neg ? -kv : kv, ft);
  }
  Poly p, q, r; if (!polyOf(a, ft, p) || !polyOf(b, ft, q)) throw Kill{2, "poly-overflow"};
  if (polyIsConst(p) && polyIsConst(q)) return concBin(op, polyConst(p), polyConst(q), ft);
  switch (op) {
    case Instruction::FAdd: case Instruction::FSub: if (polyAdd(p, q, op == Instruction::FAdd ? 1 : -1, r) && polyExact(r, ft)) return tag(mkPoly(std::move(r), ft), op == Instruction::FAdd ? '+' : '-', a, b); break;
    case Instruction::FMul: if (polyMul(p, q, r) && polyExact(r, ft)) return tag(mkPoly(std::move(r), ft), '*', a, b); break;
    case Instruction::FDiv: {
      if (polyIsConst(q)) {
        long double qc = polyConst(q); if (qc == 0) return concBin(op, fpVal(concPoly(p, ft), ft), qc, ft);
        if (polyDivExact(p, q, r) && polyFinish(r) && polyExact(r, ft)) return mkPoly(std::move(r), ft);
        break;
      }
      if (!S->rels.empty()) { Poly d = q; if (reduceRels(d) && substFixed(d) && polyIsConst(d)) return fbin(op, ft, a, concFP(polyConst(d), ft)); }
      if (decide(polyCmp0(q, 0))) { long double z = 0; if (polyIsConst(p)) return concBin(op, polyConst(p), z, ft); return concBin(op, fpVal(concPoly(p, ft), ft), z, ft); }
      if (p.t.empty()) return concFP(0, ft);
      if (polyDivExact(p, q, r) && polyFinish(r) && polyExact(r, ft)) return mkPoly(std::move(r), ft);
      if (q.hi - q.lo <= OPT_MAXCONC * 4) { SVal qv = concPoly(q, ft); if (polyIsConst(p)) return concBin(op, polyConst(p), fpVal(qv, ft), ft); return fbin(op, ft, a, qv); }
      break; }
    default: break;
  }
  // the operation may round: enumerate the operand values
  if (a.isK(K_POLY) && b.isK(K_POLY)) { if (rng(a) <= rng(b)) return fbin(op, ft, concPoly(p, ft), b); return fbin(op, ft, a, concPoly(q, ft)); }
  SVal av = a.isK(K_POLY) ? concPoly(p, ft) : a, bv = b.isK(K_POLY) ? concPoly(q, ft) : b;
  return concBin(op, fpVal(av, ft), fpVal(bv, ft), ft);
}
// integer threshold comparison of P (units 2^e) against the real constant c
static z3::expr polyVsConst(const Poly &p, long double c, int pred) {  // p pred c: 0 eq 1 lt 2 le 3 gt 4 ge
  if (std::isinf(c)) { bool up = c > 0; return ZC->bool_val(pred == 1 || pred == 2 ? up : pred == 0 ? false : !up); }
  long double t = ldexpl(c, -p.e); i128 fl, ce; bool isInt;
  if (fabsl(t) > 1e25L) { fl = ce = t > 0 ? (((i128)1) << 95) : -(((i128)1) << 95); isInt = false; }
  else { long double f = floorl(t), g = ceill(t); fl = (i128)f; ce = (i128)g; isInt = f == t; if (t != 0 && fabsl(t) < 1e-4000L) isInt = false; }
  if (t == 0 && c != 0) { isInt = false; fl = c > 0 ? 0 : -1; ce = c > 0 ? 1 : 0; }
  i128 k; bool strict;  // reduce to P < k / P <= k
  switch (pred) {
    case 0: if (!isInt) return ZC->bool_val(false); k = fl; if (k < p.lo || k > p.hi) return ZC->bool_val(false); { unsigned w = std::max(polyW(p), bitsFor(k) + 1); return polyBV(p, w) == bvI(k, w); }
    case 1: k = ce; strict = true; break; case 2: k = fl; strict = false; break;
    case 3: return !polyVsConst(p, c, 2); default: return !polyVsConst(p, c, 1);
  }
  if (strict) { if (p.hi < k) return ZC->bool_val(true); if (p.lo >= k) return ZC->bool_val(false); } else { if (p.hi <= k) return ZC->bool_val(true); if (p.lo > k) return ZC->bool_val(false); }
  unsigned w = std::max(polyW(p), bitsFor(k) + 1); z3::expr x = polyBV(p, w), y = bvI(k, w); return strict ? z3::slt(x, y) : z3::sle(x, y);
}
static SVal fcmp(unsigned pr, u8 ft, SVal a, SVal b) {
  if (pr == FCmpInst::FCMP_TRUE) return boolSV(1); if (pr == FCmpInst::FCMP_FALSE) return boolSV(0);
  if (!a.isK(K_POLY) && !b.isK(K_POLY)) {
    a = concVal(a, ft); b = concVal(b, ft); long double x = fpVal(a, ft), y = fpVal(b, ft); bool un = std::isnan(x) || std::isnan(y);
    bool r = ((pr & 8) && un) || ((pr & 4) && x < y) || ((pr & 2) && x > y) || ((pr & 1) && x == y); return boolSV(r);
  }
  // finite symbolic values are never NaN
  for (int s = 0; s < 2; ++s) { const SVal &k = s ? b : a; if (k.isK(K_POLY)) continue; long double kv = fpVal(k, ft); if (std::isnan(kv)) return boolSV(pr & 8); }
  unsigned q = pr & 7; if (q == 0) return boolSV(0); if (q == 7) return boolSV(1);
  auto cmpC = [&](const Poly &p, long double c, unsigned q) -> z3::expr {  // q bits: 4 lt, 2 gt, 1 eq
    switch (q) { case 1: return polyVsConst(p, c, 0); case 2: return polyVsConst(p, c, 3); case 3: return polyVsConst(p, c, 4); case 4: return polyVsConst(p, c, 1); case 5: return polyVsConst(p, c, 2); default: return !polyVsConst(p, c, 0); } };
  if (!a.isK(K_POLY)) { unsigned qq = (q & 1) | ((q & 4) >> 1) | ((q & 2) << 1); Poly p; if (!polyOf(b, ft, p)) throw Kill{2, "poly"}; return mkBV(cmpC(p, fpVal(a, ft), qq), 1); }
  if (!b.isK(K_POLY)) { Poly p; if (!polyOf(a, ft, p)) throw Kill{2, "poly"}; return mkBV(cmpC(p, fpVal(b, ft), q), 1); }
  Poly p, r, d; if (!polyOf(a, ft, p) || !polyOf(b, ft, r) || !polyAdd(p, r, -1, d)) throw Kill{2, "poly-overflow"};
  return mkBV(cmpC(d, 0.0L, q), 1);
}
static SVal doSelect(XI &x, const SVal &c, const SVal &a, const SVal &b) {
  if (!c.n) return c.c & 1 ? a : b;
  if (c.isK(K_AGG)) { std::vector<SVal> v; for (size_t i = 0; i < agg(c).size(); ++i) v.push_back(doSelect(x, agg(c)[i], agg(a)[i], agg(b)[i])); return mkAgg(std::move(v)); }
  z3::expr ce = bvOf(c, 1);
  if (!a.n && !b.n && a.c == b.c) return a;
  if (x.ft) { Poly p, q; bool ok = false; if (polyOf(a, x.ft, p) && polyOf(b, x.ft, q)) { SVal r = atomIte(ce, p, q, x.ft, ok); if (ok) return r; } return decide(ce) ? a : b; }
  if (a.isK(K_AGG) || b.isK(K_AGG) || a.isK(K_POLY) || b.isK(K_POLY) || !x.w) return decide(ce) ? a : b;
  if (x.ty->isPointerTy()) return decide(ce) ? a : b;
  if (x.w == 1) return mkBV((ce && bvOf(a, 1)) || (!ce && bvOf(b, 1)), 1);
  return mkBV(z3::ite(ce, bvOf(a, x.w), bvOf(b, x.w)), x.w);
}
static SVal viaMem(Type *from, Type *to, const SVal &v) { Obj o; o.size = 64; o.b.assign(64, 0); storeTy(&o, 0, from, v); return loadTy(&o, 0, to); }
static SVal doCast(XI &x, Type *st, Type *dt, const SVal &v) {
  if (v.isK(K_AGG) && !(x.sub == Instruction::BitCast)) { std::vector<SVal> r; for (auto &q : agg(v)) r.push_back(doCast(x, st->getScalarType(), dt->getScalarType(), q)); return mkAgg(std::move(r)); }
  unsigned w = x.w, w2 = x.w2;
  switch (x.sub) {
    case Instruction::Trunc: { if (!v.n) return SVal(v.c & maskw(w2)); SVal u = v.isK(K_POLY) ? concVal(v, w) : v; if (!u.n) return SVal(u.c & maskw(w2)); z3::expr e = bvOf(u, w).extract(w2 - 1, 0); return w2 == 1 ? mkBV(e == ZC->bv_val(1, 1), 1) : mkBV(e, w2); }
    case Instruction::ZExt: if (!v.n) return v; return mkBV(z3::zext(bvBits(v, w), w2 - w), w2);
    case Instruction::SExt: if (!v.n) return SVal((u64)sxt(v.c, w) & maskw(w2)); return mkBV(z3::sext(bvBits(v, w), w2 - w), w2);
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (!v.n) return SVal(v.c & maskw(w2)); if (w == w2) return v; unsup("ptr cast");
    case Instruction::BitCast: { if (st->isVectorTy() || dt->isVectorTy()) return viaMem(st, dt, v); if (ftOf(dt) && v.isK(K_BV)) return concVal(v, w); return v; }
    case Instruction::UIToFP: case Instruction::SIToFP: {
      u8 ft = ftOf(dt); bool sg = x.sub == Instruction::SIToFP; if (v.isK(K_POLY)) unsup("itofp of fp bits");
      if (!v.n) { if (ft == 64) return SVal(fromD(sg ? (double)sxt(v.c, w) : (double)v.c)); if (ft == 32) return SVal(fromF(sg ? (float)sxt(v.c, w) : (float)v.c)); return concFP(sg ? (long double)sxt(v.c, w) : (long double)v.c, 80); }
      z3::expr e = bvBits(v, w); if (!sg || w == 1) { e = z3::zext(e, 1); ++w; }
      if (w > 24) { z3::expr in = (e <= ZC->bv_val((int)(1 << 20), w)) && (e >= ZC->bv_val(-(1 << 20), w)); z3::expr out = !in; ensureModel(); std::shared_ptr<z3::model> om; if (check(&out, &om) != 0) return doCast(x, st, dt, SVal(concBV(bvBits(v, x.w), x.w))); e = e.extract(21, 0); w = 22; }
      u32 id = ATOMS.size(); ATOMS.push_back({e.simplify(), w, w == 22 ? -(1 << 20) : -(1 << (w - 1)), w == 22 ? (1 << 20) : (1 << (w - 1)) - 1, ""}); if (!sg) ATOMS.back().lo = 0;
      Poly p; p.t.push_back({{id}, 1}); if (!polyFinish(p)) throw Kill{2, "poly"}; return mkPoly(std::move(p), ft); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (!v.isK(K_POLY)) { long double d = fpVal(v, x.ft); if (std::isnan(d) || fabsl(d) > 1.8e19L) return SVal((1ull << (w2 - 1))); return SVal((x.sub == Instruction::FPToSI ? (u64)(i64)d : (d < 0 ? (u64)(i64)d : (u64)d)) & maskw(w2)); }
      Poly p; polyOf(v, x.ft, p); if (polyIsConst(p)) { return doCast(x, st, dt, concFP(polyConst(p), x.ft)); }
      unsigned ww = polyW(p) + 1; z3::expr t(*ZC); 
      if (p.e > 0) { if (!polyRescale(p, 0) ) throw Kill{2, "poly"}; ww = 0; for (auto &tt : p.t) (void)tt; Poly pp = p; i128 m = std::max(iabs(p.lo), iabs(p.hi)); ww = bitsFor(m) + 40; t = polyBV(p, ww); }
      else { ww = polyW(p) + 1; t = polyBV(p, ww); if (p.e < 0) { if (-p.e >= (int)ww - 1) { ww = -p.e + 3; t = polyBV(p, ww); } t = t / bvI(((i128)1) << (-p.e), ww); } }
      return mkBV(sextTo(t, ww, w2), w2); }
    case Instruction::FPExt: { if (!v.isK(K_POLY)) return concFP(fpVal(v, x.ft), ftOf(dt)); Poly p; polyOf(v, x.ft, p); return mkPoly(std::move(p), ftOf(dt)); }
    case Instruction::FPTrunc: { if (!v.isK(K_POLY)) return concFP(fpVal(v, x.ft), ftOf(dt)); Poly p; polyOf(v, x.ft, p); if (polyExact(p, ftOf(dt))) return mkPoly(std::move(p), ftOf(dt)); return concFP(fpVal(concPoly(p, x.ft), x.ft), ftOf(dt)); }
  }
  unsup("cast");
}
static SVal elemBin(XI &x, const SVal &a, const SVal &b) {
  if (a.isK(K_AGG)) { std::vector<SVal> r; for (size_t i = 0; i < agg(a).size(); ++i) r.push_back(elemBin(x, agg(a)[i], agg(b)[i])); return mkAgg(std::move(r)); }
  switch (x.k) { case X_BIN: return binI(x.sub, x.w, a, b); case X_FBIN: return fbin(x.sub, x.ft, a, b); case X_ICMP: return icmp(x.sub, x.w, a, b); default: return fcmp(x.sub, x.ft, a, b); }
}
static void callFn(Function *F, FnInfo *fi, int builtin, XI &x, size_t nargs) {
  if (builtin >= 0) {
    SVal r; try { r = BUILTINS[builtin].fn(x); } catch (Ctl &) { return; }
    Frame &f = S->st.back(); if (x.dst >= 0) f.r[x.dst] = std::move(r);
    if (x.b1 >= 0) jump(x.b1); else ++f.ip; return;
  }
  if (!fi) unsup("external function " + (F ? F->getName().str() : std::string("?")));
  std::vector<SVal> args; args.reserve(nargs); for (size_t i = 0; i < nargs; ++i) args.push_back(val(x.ops[i]));
  pushFrame(fi, args, &x);
}
static void step(XI &x) {
  switch (x.k) {
    case X_BIN: case X_FBIN: case X_ICMP: case X_FCMP: {
      const SVal &a = val(x.ops[0]), &b = val(x.ops[1]);
      if (!a.n && !b.n && x.k != X_FCMP) { setD(x, x.k == X_BIN ? binI(x.sub, x.w, a, b) : x.k == X_ICMP ? icmp(x.sub, x.w, a, b) : fbin(x.sub, x.ft, a, b)); return; }
      setD(x, elemBin(x, a, b)); return; }
    case X_LOAD: { u64 a = concOp(x.ops[0], 64), off; Obj *o = resolve(a, x.size, off, false, "read"); setD(x, loadTy(o, off, x.ty)); return; }
    case X_STORE: { u64 a = concOp(x.ops[1], 64), off; resolve(a, x.size, off, true, "write"); Obj *o = objRW(a >> 32); storeTy(o, off, x.ty, val(x.ops[0])); ++S->st.back().ip; return; }
    case X_GEP: {
      const SVal &b = val(x.ops[0]); bool sym = b.n; for (auto &g : x.gi) sym |= val(x.ops[g.op]).n != nullptr;
      if (!sym) { u64 a = b.c + x.goff; for (auto &g : x.gi) a += (u64)(sxt(val(x.ops[g.op]).c, g.w) * g.mul); setD(x, SVal(a)); return; }
      z3::expr e = bvOf(b, 64); u64 k = x.goff; for (auto &g : x.gi) { const SVal &v = val(x.ops[g.op]); if (!v.n) { k += (u64)(sxt(v.c, g.w) * g.mul); continue; } SVal u = v.isK(K_BV) ? v : concVal(v, g.w); e = e + z3::sext(bvBits(u, g.w), 64 - g.w) * ZC->bv_val((int64_t)g.mul, 64); }
      setD(x, mkBV(e + ZC->bv_val((uint64_t)k, 64), 64)); return; }
    case X_BR: jump(x.b1); return;
    case X_CBR: { const SVal &c = val(x.ops[0]); bool t; if (!c.n) t = c.c & 1; else { t = decide(bvOf(c, 1)); } jump(t ? x.b1 : x.b2); return; }
    case X_SWITCH: { u64 v = concOp(x.ops[0], x.w); for (auto &g : x.gi) if ((u64)g.mul == v) { jump(g.op); return; } jump(x.b1); return; }
    case X_RET: { SVal v; if (!x.ops.empty()) v = val(x.ops[0]); doRet(std::move(v)); return; }
    case X_CALL: {
      auto *cb = cast<CallBase>(x.I);
      if (x.callee) { callFn(x.callee, x.fi, x.builtin, x, cb->arg_size()); return; }
      u64 a = concOp(x.ops.back(), 64); u64 i = (a - FN_BASE) / 16; if (a < FN_BASE || i >= FNS.size()) violation("memory: call through an invalid function pointer");
      Function *F = FNS[i]; int bi = builtinId(F->getName().str()); callFn(F, bi < 0 && !F->isDeclaration() ? fnInfo(F) : nullptr, bi, x, cb->arg_size()); return; }
    case X_PHI: ++S->st.back().ip; return;
    case X_SELECT: setD(x, doSelect(x, val(x.ops[0]), val(x.ops[1]), val(x.ops[2]))); return;
    case X_CAST: setD(x, doCast(x, x.I->getOperand(0)->getType(), x.ty, val(x.ops[0]))); return;
    case X_ALLOCA: { u64 n = concOp(x.ops[0], 64); u32 id = newObj(x.size * n, O_STACK, 0xCB); S->st.back().allocas.push_back(id); setD(x, SVal(addrOf(id))); return; }
    case X_FNEG: { const SVal &a = val(x.ops[0]); if (a.isK(K_AGG)) { std::vector<SVal> r; for (auto &q : agg(a)) r.push_back(polyNeg(q, x.ft)); setD(x, mkAgg(std::move(r))); } else setD(x, polyNeg(a, x.ft)); return; }
    case X_EXTV: { SVal v = val(x.ops[0]); for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) { if (!v.isK(K_AGG)) unsup("extractvalue"); v = SVal(agg(v)[i]); } setD(x, v); return; }
    case X_INSV: {
      auto idx = cast<InsertValueInst>(x.I)->getIndices(); std::function<SVal(const SVal &, unsigned)> rec = [&](const SVal &v, unsigned d) -> SVal { if (d == idx.size()) return val(x.ops[1]); if (!v.isK(K_AGG)) unsup("insertvalue"); std::vector<SVal> c = agg(v); c[idx[d]] = rec(c[idx[d]], d + 1); return mkAgg(std::move(c)); };
      setD(x, rec(val(x.ops[0]), 0)); return; }
    case X_EXTE: { u64 i = concOp(x.ops[1], 64); setD(x, SVal(agg(val(x.ops[0]))[i])); return; }
    case X_INSE: { u64 i = concOp(x.ops[2], 64); std::vector<SVal> c = agg(val(x.ops[0])); c[i] = val(x.ops[1]); setD(x, mkAgg(std::move(c))); return; }
    case X_SHUF: { auto *s = cast<ShuffleVectorInst>(x.I); std::vector<SVal> r; auto &a = agg(val(x.ops[0])), &b = agg(val(x.ops[1])); for (int m : s->getShuffleMask()) r.push_back(m < 0 ? SVal(0ull) : m < (int)a.size() ? a[m] : b[m - a.size()]); setD(x, mkAgg(std::move(r))); return; }
    case X_FREEZE: setD(x, val(x.ops[0])); return;
    case X_UNREACH: violation("unreachable code reached (undefined behaviour)");
    case X_NOP: { Frame &f = S->st.back(); if (x.dst >= 0) f.r[x.dst] = SVal(0ull); if (x.b1 >= 0) jump(x.b1); else ++f.ip; return; }
    case X_LPAD: {
      auto *lp = cast<LandingPadInst>(x.I); int sel = 0; bool match = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) { u64 ti = constVal(cast<Constant>(lp->getClause(i))).c; if (tiMatch(S->excTy, ti)) { sel = ti ? (int)((ti >> 32) & 0x7fffffff) : 0x7ffffff0; match = true; break; } }
        else { auto *ca = cast<Constant>(lp->getClause(i)); if (isa<ConstantAggregateZero>(ca) || ca->getNumOperands() == 0) { sel = -1; match = true; break; } }
      }
      if (!match) { // continue unwinding past this frame
        if (S->st.size() == 1) violation("uncaught exception leaves the checked entry point"); popFrame(); unwind(); return; }
      std::vector<SVal> v; v.push_back(SVal(S->exc)); v.push_back(SVal((u64)(u32)sel)); setD(x, mkAgg(std::move(v))); return; }
    case X_RESUME: { if (S->st.size() == 1 || !S->st.back().call) violation("uncaught exception leaves the checked entry point"); popFrame(); unwind(); return; }
    case X_ATOMRMW: {
      u64 a = concOp(x.ops[0], 64), off; NOLOG = true; try { resolve(a, storeSz(x.ty), off, true, "write"); } catch (...) { NOLOG = false; throw; } NOLOG = false; Obj *o = objRW(a >> 32); SVal old = loadTy(o, off, x.ty), nv;
      switch (x.sub) { case AtomicRMWInst::Add: nv = binI(Instruction::Add, x.w, old, val(x.ops[1])); break; case AtomicRMWInst::Sub: nv = binI(Instruction::Sub, x.w, old, val(x.ops[1])); break; case AtomicRMWInst::Xchg: nv = val(x.ops[1]); break; default: unsup("atomicrmw"); }
      storeTy(o, off, x.ty, nv); setD(x, old); return; }
    case X_CMPXCHG: {
      u64 a = concOp(x.ops[0], 64), off; resolve(a, storeSz(x.ty), off, true, "write"); Obj *o = objRW(a >> 32); SVal old = loadTy(o, off, x.ty); SVal eq = icmp(ICmpInst::ICMP_EQ, x.w, old, val(x.ops[1])); bool t = eq.n ? decide(bvOf(eq, 1)) : eq.c & 1; if (t) storeTy(o, off, x.ty, val(x.ops[2]));
      std::vector<SVal> v; v.push_back(old); v.push_back(boolSV(t)); setD(x, mkAgg(std::move(v))); return; }
    default: { std::string s; raw_string_ostream os(s); os << *x.I; unsup("instruction " + s); }
  }
}
