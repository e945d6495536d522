// P10, P11: the multilevel factorization without dropping, on matrices all of whose minors are -1, 0 or 1 (so that every
// pivot order is exact), with symbolic entries.
#include "sx.hpp"
#include "common.hpp"
#ifdef PREM
#include "premodel.hpp"
#endif
#include "hifir.hpp"
#define XD_CRAMER
#include "xdense.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef NN
#define NN 3
#endif
#ifndef KIND
#define KIND 0   // 0 plain, 1 pivoting, 2 symmetric/Hermitian, 3 leading block symmetric, 4 automatic pivoting
#endif
#ifndef PAT
#define PAT 0    // 0: every entry stored, 1: only nonzero entries stored
#endif
#ifndef LO
#define LO -1
#endif
typedef HIF<TA, int, int, XDenseT> H; typedef Pic<TA, NN> pic;
#include "facchk.hpp"
// complex matrices: a real one with rows and columns multiplied by units (u and, Hermitian, its conjugate), so that minors keep their modulus
template <class T> struct Unit { static T mul(double v, int) { return v; } enum { N = 1 }; };
template <> struct Unit<zc> { static zc mul(double v, int k) { k &= 3; return k == 0 ? zc(v, 0) : k == 1 ? zc(0, v) : k == 2 ? zc(-v, 0) : zc(0, -v); } enum { N = 2 }; };
typedef Pic<double, NN> rpic;
static void tu(const rpic &a) {
  const int n = a.n; if (n == 1) sx_assume(a.v[0][0] != 0);
  auto d2 = [&](int i, int k, int j, int l) -> double { return mulx(a.v[i][j], a.v[k][l]) - mulx(a.v[i][l], a.v[k][j]); };
  for (int i = 0; i < n; ++i) for (int k = i + 1; k < n; ++k) for (int j = 0; j < n; ++j) for (int l = j + 1; l < n; ++l) { const double d = d2(i, k, j, l); sx_assume(d >= -1); sx_assume(d <= 1); if (n == 2) sx_assume(d != 0); }
  if (n >= 3) for (int r = 0; r < (n == 3 ? 1 : n); ++r) for (int c = 0; c < (n == 3 ? 1 : n); ++c) {
    int R[3], C[3]; for (int i = 0, k = 0; i < n && k < 3; ++i) if (n == 3 || i != r) R[k++] = i; for (int i = 0, k = 0; i < n && k < 3; ++i) if (n == 3 || i != c) C[k++] = i;
    double d = 0; for (int k = 0; k < 3; ++k) d += (k == 1 ? -1.0 : 1.0) * a.v[R[0]][C[k]] * d2(R[1], R[2], C[k == 0], C[k == 2 ? 1 : 2]);
    sx_assume(d >= -1); sx_assume(d <= 1); if (n == 3) sx_assume(d != 0);
  }
}
#if PAT == 2
// larger orders: 0/1 matrices whose rows are intervals of ones (totally unimodular), symmetric ones filtered by their minors
static long idet(const rpic &a, int k, const int *R, const int *C) {
  if (k == 1) return (long)a.v[R[0]][C[0]];
  long d = 0; int C2[NN]; for (int c = 0; c < k; ++c) { const long e = (long)a.v[R[0]][C[c]]; if (!e) continue; for (int j = 0, q = 0; j < k; ++j) if (j != c) C2[q++] = C[j]; d += (c & 1 ? -e : e) * idet(a, k - 1, R + 1, C2); } return d;
}
static void pattu(rpic &a, int m0) {
  const int n = a.n;
#if KIND == 2 || KIND == 3
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) if (i - j < 3) { a.v[i][j] = sx_choose(2); a.v[j][i] = KIND == 3 && i != j && i >= m0 ? sx_choose(2) : a.v[i][j]; }
#else
  for (int i = 0; i < n; ++i) { const int k = sx_choose(n * (n + 1) / 2); int c = 0; for (int lo = 0; lo < n; ++lo) for (int hi = lo; hi < n; ++hi) if (c++ == k) for (int j = lo; j <= hi; ++j) a.v[i][j] = i & 1 ? -1 : 1; }
#endif
  int id[NN]; for (int i = 0; i < n; ++i) id[i] = i; sx_assume(idet(a, n, id, id) != 0);
#if KIND == 2 || KIND == 3
  for (unsigned r = 1; r < 1u << n; ++r) for (unsigned c = 1; c < 1u << n; ++c) { int R[NN], C[NN], k = 0, q = 0; for (int i = 0; i < n; ++i) { if (r >> i & 1) R[k++] = i; if (c >> i & 1) C[q++] = i; } if (k != q || k == 1) continue; const long d = idet(a, k, R, C); sx_assume(d >= -1 && d <= 1); }
#endif
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a.p[i][j] = a.v[i][j] != 0;
}
#endif
extern "C" void fac() {
  const int n = PAT == 2 ? NN : 1 + sx_choose(NN); rpic r(n, n); pic a(n, n); int m0 = 0;
#ifdef FMT
  const bool crs = FMT == 1;
#else
  const bool crs = sx_choose(2);
#endif
#if KIND == 3
  m0 = 1 + sx_choose(n);
#endif
#if PAT == 2
  pattu(r, m0);
#else
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (KIND == 2 && j > i) continue;
    if (KIND == 3 && j > i && i < m0 && j < m0) continue;
    r.p[i][j] = true; mk(r.v[i][j], "a", LO, 1);
    if (PAT) { r.p[i][j] = r.v[i][j] != 0; if (!r.p[i][j]) r.v[i][j] = 0; }
  }
  if (KIND == 2 || KIND == 3) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (KIND == 2 || j < m0) { r.p[i][j] = r.p[j][i]; r.v[i][j] = r.v[j][i]; }
  tu(r);
#endif
  const int uv = sx_choose(Unit<TA>::N); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.p[i][j] = r.p[i][j]; const int u = uv ? i * i : i, w = KIND == 2 || KIND == 3 ? (uv ? j * j : j) + (KIND == 3) : uv + j + 1; a.v[i][j] = Unit<TA>::mul(r.v[i][j], (KIND == 2 ? u - w : u + w)); if (!r.p[i][j]) a.v[i][j] = TA(0); }
  Params p = DEFAULT_PARAMS; p.verbose = 0; p.tau_L = p.tau_U = 0; p.alpha_L = p.alpha_U = 100; p.kappa = p.kappa_d = 1e6; p.dense_thres = 1; p.c_d = 0.01; p.rho = 1e9; p.rf_par = 0; p.check = 0;
#ifdef KDS  // tight pivot bounds: many or all of the pivots are deferred
  p.kappa_d = sx_choose(2) ? 0.8 : 0.3;
#endif
  p.pivot = KIND == 1 ? PIVOTING_ON : KIND == 4 ? PIVOTING_AUTO : PIVOTING_OFF; p.is_symm = KIND == 2;
#ifndef PREM
  p.no_pre = 1;
#endif
  H h; const int nz = a.nnz();
  if (crs) { H::crs_type A = mkcrs<H::crs_type>(a); h.factorize(A, p, m0); chkcrs(A, a, true, "input modified"); } else { H::ccs_type A = mkccs<H::ccs_type>(a); h.factorize(A, p, m0); chkccs(A, a, true, "input modified"); }
  sx_cover(crs ? "crs" : "ccs"); (void)nz;
#ifdef P11
  chklevels(h, a);
#else
  for (int tr = 0; tr < 2; ++tr) {
    Array<TA> b(n), x(n); TA X[NN]; for (int i = 0; i < n; ++i) { mk(X[i], "x", -4, 4); x[i] = TA(77); }
    for (int i = 0; i < n; ++i) { b[i] = TA(0); for (int j = 0; j < n; ++j) b[i] += mulx(tr ? cj(a.v[j][i]) : a.v[i][j], X[j]); }
    h.solve(b, x, tr); for (int i = 0; i < n; ++i) eqv(x[i], X[i], tr ? "transposed solve is not exact" : "solve is not exact");
  }
#endif
  const auto &f = h.precs().front();
  if (f.m == 0) sx_cover("all dense"); else if (f.m < f.n) sx_cover("deferred"); else sx_cover("one level");
  if (h.precs().size() > 1) sx_cover("two sparse levels");
}
