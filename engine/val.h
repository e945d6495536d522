// Values of the symbolic executor: concrete 64-bit payloads or reference to a symbolic node.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <z3++.h>
typedef unsigned long long u64; typedef long long i64; typedef __int128 i128; typedef uint32_t u32; typedef uint8_t u8;

extern z3::context *ZC;

enum Kind : u8 { K_BV, K_POLY, K_AGG, K_LD };
struct Node { int rc = 0; Kind k; explicit Node(Kind kk) : k(kk) {} };
void nodeFree(Node *n);

struct SVal {
  u64 c = 0; Node *n = nullptr;
  SVal() {}
  SVal(u64 x) : c(x) {}
  SVal(int x) : c((u64)x) {}
  SVal(unsigned long x) : c(x) {}
  explicit SVal(Node *p) : n(p) { if (n) ++n->rc; }
  SVal(const SVal &o) : c(o.c), n(o.n) { if (n) ++n->rc; }
  SVal(SVal &&o) noexcept : c(o.c), n(o.n) { o.n = nullptr; }
  SVal &operator=(const SVal &o) { if (o.n) ++o.n->rc; rel(); c = o.c; n = o.n; return *this; }
  SVal &operator=(SVal &&o) noexcept { if (this != &o) { rel(); c = o.c; n = o.n; o.n = nullptr; } return *this; }
  ~SVal() { rel(); }
  void rel() { if (n && --n->rc == 0) nodeFree(n); n = nullptr; }
  bool conc() const { return !n || n->k == K_LD; }
  bool isK(Kind k) const { return n && n->k == k; }
};
struct BVNode : Node { z3::expr e; unsigned w; BVNode(const z3::expr &x, unsigned ww) : Node(K_BV), e(x), w(ww) {} };
struct AggNode : Node { std::vector<SVal> v; AggNode() : Node(K_AGG) {} };
struct LDNode : Node { long double v; explicit LDNode(long double x) : Node(K_LD), v(x) {} };

// an exactly represented floating-point value: sum c_i * prod(atoms) * 2^e, c_i integers
struct Term { std::vector<u32> m; i128 c; };
struct Poly { std::vector<Term> t; int e = 0; i128 lo = 0, hi = 0; u64 mask = 0; };
// op/l/r remember how the value was computed, so that assertions can be sent to the solver in the program's own structure
struct PolyNode : Node { Poly p; u8 ft; char op = 0; SVal l, r; PolyNode(Poly &&q, u8 f) : Node(K_POLY), p(std::move(q)), ft(f) {} };
struct Atom { z3::expr e; unsigned w; i64 lo, hi; std::string name; };
extern std::vector<Atom> ATOMS;

inline void nodeFree(Node *n) {
  switch (n->k) {
    case K_BV: delete (BVNode *)n; break;
    case K_POLY: delete (PolyNode *)n; break;
    case K_AGG: delete (AggNode *)n; break;
    case K_LD: delete (LDNode *)n; break;
  }
}
inline double asD(u64 c) { double d; memcpy(&d, &c, 8); return d; }
inline u64 fromD(double d) { u64 c; memcpy(&c, &d, 8); return c; }
inline float asF(u64 c) { u32 x = (u32)c; float d; memcpy(&d, &x, 4); return d; }
inline u64 fromF(float d) { u32 c; memcpy(&c, &d, 4); return c; }
inline SVal mkAgg(std::vector<SVal> &&v) { auto *a = new AggNode; a->v = std::move(v); return SVal((Node *)a); }
inline const std::vector<SVal> &agg(const SVal &s) { return ((AggNode *)s.n)->v; }
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sxt(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

// ---- polynomials --------------------------------------------------------
static const i128 BIGI = ((i128)1) << 100;
inline i128 iabs(i128 x) { return x < 0 ? -x : x; }
inline unsigned bitsFor(i128 a) { unsigned b = 1; i128 x = iabs(a); while (x) { ++b; x >>= 1; } return b; }
inline bool mulOv(i128 a, i128 b, i128 &r) { if (iabs(a) > BIGI || iabs(b) > BIGI) return true; return __builtin_mul_overflow(a, b, &r) || iabs(r) > BIGI; }

// returns false on overflow of the internal representation
inline bool polyFinish(Poly &p) {
  // strip zeros
  p.t.erase(std::remove_if(p.t.begin(), p.t.end(), [](const Term &x) { return x.c == 0; }), p.t.end());
  if (p.t.empty()) { p.e = 0; p.lo = p.hi = 0; p.mask = 0; return true; }
  int sh = 120;
  for (auto &x : p.t) { int s = 0; i128 c = x.c; while (!(c & 1)) { c >>= 1; ++s; if (s > 110) break; } sh = std::min(sh, s); }
  if (sh > 0) { for (auto &x : p.t) x.c >>= sh; p.e += sh; }
  p.lo = p.hi = 0; p.mask = 0;
  for (auto &x : p.t) {
    i128 lo = 1, hi = 1;
    for (size_t i = 0; i < x.m.size();) {
      size_t j = i; while (j < x.m.size() && x.m[j] == x.m[i]) ++j;
      const Atom &a = ATOMS[x.m[i]]; p.mask |= 1ull << (x.m[i] & 63);
      i128 l = a.lo, h = a.hi;
      i128 pl = 1, ph = 1;  // interval of a^k
      unsigned k = j - i;
      bool ov = false;
      i128 al = 1, ah = 1;
      for (unsigned q = 0; q < k; ++q) { ov |= mulOv(al, l, al); ov |= mulOv(ah, h, ah); if (ov) return false; }
      pl = std::min(al, ah); ph = std::max(al, ah);
      if (k % 2 == 0 && l < 0 && h > 0) pl = 0;
      i128 c1, c2, c3, c4;
      if (mulOv(lo, pl, c1) || mulOv(lo, ph, c2) || mulOv(hi, pl, c3) || mulOv(hi, ph, c4)) return false;
      lo = std::min(std::min(c1, c2), std::min(c3, c4)); hi = std::max(std::max(c1, c2), std::max(c3, c4));
      i = j;
    }
    i128 c1, c2; if (mulOv(lo, x.c, c1) || mulOv(hi, x.c, c2)) return false;
    p.lo += std::min(c1, c2); p.hi += std::max(c1, c2);
    if (iabs(p.lo) > BIGI || iabs(p.hi) > BIGI) return false;
  }
  return true;
}
inline bool polyRescale(Poly &p, int e) {  // e <= p.e
  int d = p.e - e; if (d == 0) return true; if (d < 0 || d > 90) return false;
  for (auto &x : p.t) { i128 r; if (mulOv(x.c, ((i128)1) << d, r)) return false; x.c = r; }
  p.e = e; return true;
}
inline bool termLess(const Term &a, const Term &b) { return a.m < b.m; }
inline bool polyAdd(const Poly &a0, const Poly &b0, int sb, Poly &r) {
  if (a0.t.empty()) { r = b0; if (sb < 0) { for (auto &x : r.t) x.c = -x.c; } return polyFinish(r); }
  if (b0.t.empty()) { r = a0; return true; }
  Poly a = a0, b = b0; int e = std::min(a.e, b.e);
  if (!polyRescale(a, e) || !polyRescale(b, e)) return false;
  r = Poly(); r.e = e; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].m < b.t[j].m)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].m < a.t[i].m) { r.t.push_back(b.t[j++]); if (sb < 0) r.t.back().c = -r.t.back().c; }
    else { Term x = a.t[i]; x.c += sb < 0 ? -b.t[j].c : b.t[j].c; ++i; ++j; r.t.push_back(x); }
  }
  return polyFinish(r);
}
inline bool polyMul(const Poly &a, const Poly &b, Poly &r) {
  r = Poly(); r.e = a.e + b.e;
  if (a.t.size() * b.t.size() > 20000) return false;
  std::map<std::vector<u32>, i128> m;
  for (auto &x : a.t) for (auto &y : b.t) {
    std::vector<u32> k(x.m.size() + y.m.size());
    std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), k.begin());
    i128 c; if (mulOv(x.c, y.c, c)) return false;
    auto &s = m[k]; s += c; if (iabs(s) > BIGI) return false;
  }
  for (auto &kv : m) if (kv.second) r.t.push_back({kv.first, kv.second});
  return polyFinish(r);
}
inline bool polyFromLD(long double v, Poly &r) {  // finite
  r = Poly(); if (v == 0) return true;
  int e; long double f = frexpl(v, &e); f = ldexpl(f, 64); e -= 64;
  bool neg = f < 0; u64 m = (u64)fabsl(f); i128 c = m; while (!(c & 1)) { c >>= 1; ++e; }
  r.e = e; r.t.push_back({{}, neg ? -c : c}); return polyFinish(r);
}
inline bool polyIsConst(const Poly &p) { return p.t.empty() || (p.t.size() == 1 && p.t[0].m.empty()); }
inline long double polyConst(const Poly &p) { return p.t.empty() ? 0.0L : ldexpl((long double)p.t[0].c, p.e); }
inline bool polyEq(const Poly &a, const Poly &b) {
  if (a.t.size() != b.t.size() || a.e != b.e) return a.t.empty() && b.t.empty();
  for (size_t i = 0; i < a.t.size(); ++i) if (a.t[i].c != b.t[i].c || a.t[i].m != b.t[i].m) return false;
  return true;
}
// exact polynomial division a / b (over dyadic rationals); true if b divides a exactly
inline bool polyDivExact(const Poly &a, const Poly &b, Poly &q) {
  if (b.t.empty()) return false;
  Poly rem = a; q = Poly();
  const Term &lb = b.t.back();  // greatest monomial in lexicographic order
  // lexicographic order on sorted index vectors is not a monomial order; use degree-lex instead
  auto deglex = [](const Term &x, const Term &y) { return x.m.size() != y.m.size() ? x.m.size() < y.m.size() : x.m < y.m; };
  auto lead = [&](const Poly &p) { return *std::max_element(p.t.begin(), p.t.end(), deglex); };
  (void)lb; Term L = lead(b);
  for (int it = 0; it < 400 && !rem.t.empty(); ++it) {
    Term R = lead(rem);
    std::vector<u32> d;
    if (!std::includes(R.m.begin(), R.m.end(), L.m.begin(), L.m.end())) return false;
    std::set_difference(R.m.begin(), R.m.end(), L.m.begin(), L.m.end(), std::back_inserter(d));
    i128 rc = R.c, lc = L.c; int e = rem.e - b.e;
    // rc/lc must be dyadic
    i128 g = lc; while (!(g & 1)) { g >>= 1; --e; }
    if (rc % g) return false;
    i128 c = rc / g;
    Poly qt; qt.e = e; qt.t.push_back({d, c}); if (!polyFinish(qt)) return false;
    Poly s; if (!polyAdd(q, qt, 1, s)) return false; q = s;
    Poly pr, nr; if (!polyMul(qt, b, pr) || !polyAdd(rem, pr, -1, nr)) return false; rem = nr;
  }
  return rem.t.empty();
}
inline std::string i128s(i128 v) { if (v == 0) return "0"; bool n = v < 0; std::string s; if (n) v = -v; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
inline z3::expr bvI(i128 v, unsigned w) {
  if (v >= 0) return ZC->bv_val(i128s(v).c_str(), w);
  return -ZC->bv_val(i128s(-v).c_str(), w);
}
inline z3::expr sextTo(const z3::expr &e, unsigned from, unsigned to) { return from == to ? e : (from < to ? z3::sext(e, to - from) : e.extract(to - 1, 0)); }
inline z3::expr polyBV(const Poly &p, unsigned w) {
  z3::expr s = ZC->bv_val(0, w); bool first = true;
  for (auto &x : p.t) {
    z3::expr t(*ZC); bool f = true;
    for (u32 a : x.m) { z3::expr ae = sextTo(ATOMS[a].e, ATOMS[a].w, w); t = f ? ae : t * ae; f = false; }
    if (f) t = bvI(x.c, w); else if (x.c == -1) t = -t; else if (x.c != 1) t = t * bvI(x.c, w);
    s = first ? t : s + t; first = false;
  }
  return s;
}
inline unsigned polyW(const Poly &p) { return std::max(bitsFor(p.lo), bitsFor(p.hi)) + 1; }
