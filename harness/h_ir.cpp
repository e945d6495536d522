// P14: stationary iterative refinement against its definition x <- x + M^{-1}(b - A x).
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
#include "xdense.hpp"
static int rg = 1;  // range of the preconditioner entries
#define RG rg
#include "mg.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TX
#define TX TA
#endif
#ifndef NN
#define NN 2
#endif
#ifndef NMAX
#define NMAX 3
#endif
typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs; typedef Pic<TA, NN> pic;
static double ab2(double v) { return v * v; }
template <class R> static double ab2(const std::complex<R> &v) { return (double)(v.real() * v.real() + v.imag() * v.imag()); }
// a preconditioner given by the inverse W it applies; it records how it is called
struct SM {
  int n; TA W[NN][NN]; mutable int calls; mutable bool tr_; mutable long last; mutable bool same;
  typedef std::size_t size_type;
  size_type nrows() const { return n; }
  size_type ncols() const { return n; }
  template <class B, class X> void solve(const B &b, X &x, bool tran = false, size_type r = 0) const {
    if (calls && (tran != tr_ || (long)r != last)) same = false; ++calls; tr_ = tran; last = r;
    sx_assert((int)b.size() == n && (int)x.size() == n, "sizes handed to the preconditioner");
    for (int i = 0; i < n; ++i) { TA s = TA(0); for (int j = 0; j < n; ++j) s += mulx(tran ? cj(W[j][i]) : W[i][j], TA(b[j])); x[i] = s; }
  }
};
template <class F> static void run(const pic &a, int fmt, F f) {
  if (fmt == 0) { crs A = mkcrs<crs>(a); f(A); chkcrs(A, a, true, "matrix modified"); }
  else if (fmt == 1) { ccs A = mkccs<ccs>(a); f(A); chkccs(A, a, true, "matrix modified"); }
}
static void step(const SM &M, const pic &a, const TA *b, TA *x, TA *r, bool tr) {  // one refinement by definition; r = residual of the old x
  const int n = M.n; TA d[NN];
  for (int i = 0; i < n; ++i) { r[i] = b[i]; for (int j = 0; j < n; ++j) if (tr ? a.p[j][i] : a.p[i][j]) r[i] -= mulx(tr ? cj(a.v[j][i]) : a.v[i][j], x[j]); }
  for (int i = 0; i < n; ++i) { d[i] = TA(0); for (int j = 0; j < n; ++j) d[i] += mulx(tr ? cj(M.W[j][i]) : M.W[i][j], r[j]); }
  for (int i = 0; i < n; ++i) x[i] += d[i];
}
extern "C" void fixed() {  // fixed number of steps, everything symbolic
  SM M; const int n = M.n = 1 + sx_choose(NN); const int fmt = sx_choose(2), N = sx_choose(NMAX + 1); const bool tr = sx_choose(2); pic a(n, n); mkpic(a, -1, 1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (NN > 2) M.W[i][j] = TA((i + 2 * j) % 3 - 1); else mk(M.W[i][j], "w", -1, 1);
  TA b0[NN], x0[NN], r0[NN]; for (int i = 0; i < n; ++i) { mk(b0[i], "b", -2, 2); x0[i] = TA(0); }
  for (int k = 0; k < (N < 1 ? 1 : N); ++k) step(M, a, b0, x0, r0, tr);
  M.calls = 0; M.same = true; IterRefine<TX> ir; const long ld = sx_choose(2) ? 5 : -1;
  run(a, fmt, [&](auto &A) {
    for (int rep = 0; rep < 2; ++rep) {  // used twice: the workspace of the first call must not matter
      Array<TX> b(n), x(n); for (int i = 0; i < n; ++i) { b[i] = b0[i]; x[i] = TX(77 + i); }
      ir.iter_refine(M, A, b, N, x, ld, tr);
      for (int i = 0; i < n; ++i) { eqv(x[i], x0[i], tr ? "iterate (transposed)" : "iterate"); eqv(b[i], b0[i], "right-hand side modified"); }
    }
  });
  if (M.calls) { sx_assert(M.same && M.tr_ == tr && M.last == ld, "flags handed to the preconditioner"); }
  if (tr) sx_cover("transposed"); if (N > 1) sx_cover("refined");
}
extern "C" void bounds() {  // residual bounds symbolic, data by case split
  SM M; const int n = M.n = 1 + sx_choose(NN); const int fmt = sx_choose(2); const int N = 1 + sx_choose(NMAX); const bool tr = sx_choose(2); pic a(n, n); const double av[3] = {0, 1, -2};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { const int k = sx_choose(3); a.p[i][j] = k; a.v[i][j] = TA(av[k]); if (k == 2 && i != j) imag_unit(a.v[i][j], 1); }
  const int w = sx_choose(2); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M.W[i][j] = TA(i == j ? (w ? 1 : 0.5) : (w && i < j ? -0.5 : 0));
  TA b0[NN], x0[NN], r0[NN]; double b2 = 0; for (int i = 0; i < n; ++i) { const int k = sx_choose(3); b0[i] = TA(k == 2 ? -2 : k); if (i && k == 2) imag_unit(b0[i], 1); x0[i] = TA(0); b2 += ab2(b0[i]); }
  const double be[2] = {sx_dbl("lo", 0, 48, -4), sx_dbl("hi", 0, 96, -4)};
  M.calls = 0; M.same = true; IterRefine<TX> ir; std::pair<std::size_t, int> R; Array<TX> b(n), x(n); for (int i = 0; i < n; ++i) { b[i] = b0[i]; x[i] = TX(77 + i); }
  run(a, fmt, [&](auto &A) { R = ir.iter_refine(M, A, b, N, be, x, (std::size_t)-1, tr); });
  int it = 0, fl = 0;
  if (b2 > 0) for (;;) {
    step(M, a, b0, x0, r0, tr); if (++it >= N) { fl = -1; sx_cover("limit"); break; }
    TA y[NN]; for (int i = 0; i < n; ++i) y[i] = x0[i]; step(M, a, b0, y, r0, tr); double r2 = 0; for (int i = 0; i < n; ++i) r2 += ab2(r0[i]);
    const double l2 = be[0] * be[0] * b2, h2 = be[1] * be[1] * b2; if (n > 1 && r2 > 0) sx_assume(l2 != r2 && h2 != r2);  // the relative residual itself is rounded
    if (r2 <= l2) { sx_cover("converged"); break; }
    if (r2 > h2) { fl = 1; sx_cover("diverged"); break; }
  } else sx_cover("zero rhs");
  if (b2 > 0 || N > 1) { sx_assert((int)R.first == it, "reported number of steps"); sx_assert((R.second > 0) == (fl > 0) && (R.second < 0) == (fl < 0), "reported outcome"); }
  for (int i = 0; i < n; ++i) { eqv(x[i], x0[i], "iterate where it stopped"); eqv(b[i], b0[i], "right-hand side modified"); }
}
#ifdef IRWRAP
struct H : HIF<TA, int, int, XDenseT> { void dims(int n) { this->_nrows = this->_ncols = n; } };
static pic *cbA; static int cb_n; static bool cb_tr;
extern "C" void wrap() {  // HIF::hifir hands everything on: matrix, steps, bounds, transposition, last-level dimension, null-space filter
  const int n = 1 + sx_choose(2); const int bb = sx_choose(2); rg = !bb; Mg<TA> g; g.make(n, 2, 0); const int N = 1 + sx_choose(2); const bool tr = sx_choose(2); const long r = sx_choose(3) - 1; const int fmt = sx_choose(3);
  pic a(n, n); Array<TA> b(n), x(n), y(n), w(n), d(n); TA b0[NN];
  if (bb) {  // residual norms need concrete data
    for (int k = 0; k < g.lv; ++k) for (int i = 0; i < g.l[k].n; ++i) for (int j = 0; j < g.l[k].n; ++j) { MgLev<TA> &q = g.l[k]; if (q.fl && j < i) { q.L[i][j] = TA(1); q.U[j][i] = TA(-1); } if (q.fe && i < q.n - q.m && j < q.m) { q.E[i][j] = TA(1); imag_unit(q.F[j][i], 2); } }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.p[i][j] = sx_choose(2); a.v[i][j] = TA(1 + i - 2 * j); if (i < j) imag_unit(a.v[i][j], 1); }
    for (int i = 0; i < n; ++i) b0[i] = TA(1 + i);
  } else { mkpic(a, -1, 1); for (int i = 0; i < n; ++i) mk(b0[i], "b", -1, 1); }
  for (int i = 0; i < n; ++i) { b[i] = b0[i]; x[i] = y[i] = TA(0); }
  H h, h2; g.build(h); g.build(h2); h.dims(n); h2.dims(n);
  xd_last = -7; int calls = 0;
  const auto go = [&](auto &A) { const double be[2] = {-1, 1e30}; if (bb) { auto R = h.hifir(A, b, N, be, x, tr, r); sx_assert((int)R.first == N && R.second < 0, "reported steps"); } else h.hifir(A, b, N, x, tr, r); };
  run(a, fmt, go);
  if (fmt == 2) {
    std::function<void(const void *, const std::size_t, const char, void *, const char, const bool)> A = [&](const void *xx, const std::size_t nn, const char, void *yy, const char, const bool t) {
      ++calls; sx_assert((int)nn == n && t == tr, "callback arguments"); const TA *u = (const TA *)xx; TA *v = (TA *)yy;
      for (int i = 0; i < n; ++i) { v[i] = TA(0); for (int j = 0; j < n; ++j) if (t ? a.p[j][i] : a.p[i][j]) v[i] += mulx(t ? cj(a.v[j][i]) : a.v[i][j], u[j]); } };
    go(A); sx_assert(calls == N - 1, "callback calls"); sx_cover("callback");
  }
  if (g.nd) sx_assert(xd_last == r, "last-level dimension");
  for (int k = 0; k < N; ++k) {
    for (int i = 0; i < n; ++i) { w[i] = b0[i]; for (int j = 0; j < n; ++j) if (tr ? a.p[j][i] : a.p[i][j]) w[i] -= mulx(tr ? cj(a.v[j][i]) : a.v[i][j], y[j]); }
    h2.solve(w, d, tr, r); for (int i = 0; i < n; ++i) y[i] += d[i];
  }
  for (int i = 0; i < n; ++i) { eqv(x[i], y[i], "refinement through the preconditioner object"); eqv(b[i], b0[i], "right-hand side modified"); }
  if (tr) sx_cover("transposed"); if (g.nd) sx_cover("dense level");
}
#endif
