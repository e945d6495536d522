// P22: factorization with dropping, fill limits and deferral: the result is a well-formed multilevel structure, pivots
// respect the stability threshold, fill stays within its limits, nothing is lost and the statistics count what happened.
#include "sx.hpp"
#include "common.hpp"
#ifdef PREM
#include "premodel.hpp"
#endif
#include "hifir.hpp"
#define XD_CRAMER
#include "xdense.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef NN
#define NN 4
#endif
#ifndef KIND
#define KIND 0   // 0 plain, 1 pivoting, 2 symmetric/Hermitian, 3 leading block symmetric, 4 automatic pivoting
#endif
typedef HIF<TA, int, int, XDenseT> H; typedef Pic<TA, NN> pic;
static bool fin(double v) { return v - v == 0; }
template <class M> static void shape(const M &A, int n, int m, TA (&o)[NN][NN], int kind, const char *l) {
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o[i][j] = TA(0);
  if (!n || !m) { sx_assert(A.nnz() == 0, l); return; }
  sx_assert((int)A.nrows() == n && (int)A.ncols() == m, l); const auto &st = A.col_start(); sx_assert((int)st.size() >= m + 1 && st[0] == 0, l);
  for (int j = 0; j < m; ++j) sx_assert(st[j] <= st[j + 1], l);
  sx_assert((long)A.row_ind().size() >= (long)st[m] && (long)A.vals().size() >= (long)st[m], l);
  for (int j = 0; j < m; ++j) { int prev = -1; for (int k = st[j]; k < (int)st[j + 1]; ++k) { const int i = A.row_ind()[k]; sx_assert(i > prev && i < n, l); if (kind == SLOW) sx_assert(i > j, l); if (kind == SUPP) sx_assert(i < j, l); prev = i; o[i][j] = A.vals()[k]; sx_assert(fin(o[i][j]), l); } }
}
template <class P, class Q> static void bij(const P &p, const Q &pi, int n, const char *l) {
  unsigned seen = 0; sx_assert((int)p.size() >= n && (int)pi.size() >= n, l);
  for (int i = 0; i < n; ++i) { const int k = p[i]; sx_assert(k >= 0 && k < n, l); sx_assert(!(seen >> k & 1), l); seen |= 1u << k; sx_assert((int)pi[k] == i, l); }
}
static TA det(const pic &a) {  // fraction-free elimination, exact for these integers
  const int n = a.n; TA w[NN][NN], prev = TA(1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[i][j] = a.p[i][j] ? a.v[i][j] : TA(0); int sg = 1;
  for (int k = 0; k + 1 < n; ++k) {
    int r = k; while (r < n && w[r][k] == TA(0)) ++r; if (r == n) return TA(0);
    if (r != k) { for (int j = 0; j < n; ++j) std::swap(w[r][j], w[k][j]); sg = -sg; }
    for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) w[i][j] = (w[i][j] * w[k][k] - w[i][k] * w[k][j]) / prev;
    prev = w[k][k];
  }
  return sg > 0 ? w[n - 1][n - 1] : -w[n - 1][n - 1];
}
extern "C" void fdrop() {
  const int n = NN; pic a(n, n); int m0 = 0;
#ifdef FMT
  const bool crs = FMT == 1;
#else
  const bool crs = sx_choose(2);
#endif
#if KIND == 3
  m0 = 1 + sx_choose(n);
#endif
#ifdef BLK
  // zero leading block: its rows and columns are all deferred and form the next level
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a.v[i][j] = TA(0);
  for (int i = 0; i < BLK; ++i) {
    const int w = 1 + sx_choose(n - BLK); for (int j = BLK; j < BLK + w; ++j) { a.p[i][j] = true; a.v[i][j] = TA(1 + (i * 2 + j * 3 + i * j) % 5); }
    const int u = KIND == 2 ? w : sx_choose(2) ? n - BLK : 1 + i % (n - BLK); for (int j = BLK; j < BLK + u; ++j) { a.p[j][i] = true; a.v[j][i] = KIND == 2 ? a.v[i][j] : TA(1 + (i * 3 + j + i * j) % 4); }
  }
  for (int i = BLK; i < n; ++i) { a.p[i][i] = true; a.v[i][i] = TA(1 + i % 2); }
#elif KIND == 2 || KIND == 3
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { const bool full = i == j || KIND == 2 || i < m0; a.p[i][j] = i - j < 3 && sx_choose(2); a.p[j][i] = full ? a.p[i][j] : i - j < 3 && sx_choose(2); if (a.p[i][j]) a.v[i][j] = 1 + (i * 2 + j * 3) % 4; if (a.p[j][i]) a.v[j][i] = full ? a.v[i][j] : TA(-(1 + (i + j * 2) % 4)); }
#else
  for (int i = 0; i < n; ++i) { const int k = sx_choose(n * (n + 1) / 2); int c = 0; for (int lo = 0; lo < n; ++lo) for (int hi = lo; hi < n; ++hi) if (c++ == k) for (int j = lo; j <= hi; ++j) { a.p[i][j] = true; a.v[i][j] = (i & 1 ? -1 : 1) * (1 + (i * 2 + j * 3) % 4); } }
#endif
  for (int i = 0; i < n; ++i) { int r = 0, c = 0; for (int j = 0; j < n; ++j) { r += a.p[i][j]; c += a.p[j][i]; } sx_assume(r && c); }
  Params p = DEFAULT_PARAMS; p.verbose = 0; p.dense_thres = 1; p.c_d = 0.01; p.rho = 1e9; p.rf_par = 0; p.check = 0; p.fat_schur_1st = 0;
  p.pivot = KIND == 1 ? PIVOTING_ON : KIND == 4 ? PIVOTING_AUTO : PIVOTING_OFF; p.is_symm = KIND == 2;
#ifndef PREM
  p.no_pre = 1;
#endif
  const double HUGE_ = 1e9; p.tau_L = p.tau_U = 0; p.alpha_L = p.alpha_U = 100; p.kappa = p.kappa_d = 1e6;
  const bool sy = KIND == 2;
#ifdef BLK
  const int sc = 7; p.fat_schur_1st = 1; const int al = sx_choose(2); p.alpha_L = al == 0 ? 100 : 0.5; const int au = sx_choose(2); p.alpha_U = au == 0 ? 100 : 0.5; p.kappa_d = sx_dbl("kappa_d", 2, 8, -1);
#else
  const int sc = sx_choose(7);
#endif
  if (sc == 0) p.alpha_L = 0.5 * (1 + sx_choose(6));
  else if (sc == 1) p.alpha_U = 0.5 * (1 + sx_choose(6));
  else if (sc == 2) p.kappa = sx_dbl("kappa", 2, 24, -1);
  else if (sc == 3) p.kappa_d = sx_dbl("kappa_d", 1, 16, -2);
  else if (sc == 4) { p.tau_L = HUGE_; if (sx_choose(2)) p.tau_U = HUGE_; }
  else if (sc == 5) { p.tau_U = HUGE_; if (sx_choose(2)) { p.kappa = 2; p.kappa_d = 4; } }
  else if (sc == 6) { p.tau_L = p.tau_U = 2; p.alpha_L = p.alpha_U = 1 + sx_choose(3); p.kappa = 3; p.kappa_d = 4; }
  H h; bool fail = false;
  try {
    if (crs) { H::crs_type A = mkcrs<H::crs_type>(a); h.factorize(A, p, m0); chkcrs(A, a, true, "input modified"); } else { H::ccs_type A = mkccs<H::ccs_type>(a); h.factorize(A, p, m0); chkccs(A, a, true, "input modified"); }
  } catch (const std::exception &) { fail = true; }
  if (fail) {  // only a remainder with nothing left in it may be refused
    sx_assert(p.tau_L > 0 || p.tau_U > 0 || det(a) == TA(0), "factorization of a nonsingular matrix failed"); if (det(a) == TA(0)) sx_cover("singular refused");
    int r = n; for (auto it = h.precs().cbegin(); it != h.precs().cend(); ++it) { sx_assert(it->dense_solver.empty() && it->symm_dense_solver.empty(), "failure after the last level"); r = it->n - it->m; }
    sx_assert(r > 0, "failure with nothing left"); sx_cover("empty remainder refused"); return;
  }
  // reference sizes of rows and columns for the fill limits
  long rs[NN], cs[NN], r2[NN], c2[NN]; const long nz = a.nnz(); const double f = 0.85 * nz / n; long lo = (long)f; if (lo < f) ++lo;
  for (int i = 0; i < n; ++i) { rs[i] = cs[i] = 0; for (int j = 0; j < n; ++j) { rs[i] += a.p[i][j]; cs[i] += a.p[j][i]; } if (rs[i] < lo) rs[i] = lo; if (cs[i] < lo) cs[i] = lo; }
  const double pf = KIND == 1 || KIND == 4 ? 4 : 1;
  const bool keepL = !(p.tau_L >= HUGE_), keepU = !(p.tau_U >= HUGE_);
  TA hat[NN][NN], L[NN][NN], U[NN][NN], E[NN][NN], F[NN][NN]; int cur = n, lvl = 0; bool done = false; bool exact = true; TA cv[NN][NN];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cv[i][j] = a.v[i][j];
  long tot = 0, st0 = 0; bool direct = false;
  for (auto it = h.precs().cbegin(); it != h.precs().cend(); ++it, ++lvl) {
    const auto &q = *it; sx_assert(!done, "level after the last level"); const int N = q.n, m = q.m, r = N - m; sx_assert(N == cur, "level size"); sx_assert(m >= 0 && m <= N, "leading size");
    bij(q.p, q.p_inv, N, "row permutation"); bij(q.q, q.q_inv, N, "column permutation");
    sx_assert((int)q.s.size() >= N && (int)q.t.size() >= N, "scaling size"); for (int i = 0; i < N; ++i) sx_assert(q.s[i] > 0 && q.t[i] > 0, "scaling positive");
    shape(q.L_B, m, m, L, SLOW, "L_B structure"); shape(q.U_B, m, m, U, SUPP, "U_B structure"); shape(q.E, r, m, E, ANY, "E structure"); shape(q.F, m, r, F, ANY, "F structure");
    sx_assert((int)q.d_B.size() >= m, "d_B size");
    for (int i = 0; i < m; ++i) { const double d = q.d_B[i]; sx_assert(fin(d) && d != 0, "pivot is finite and nonzero"); sx_assert(1. / (d < 0 ? -d : d) <= p.kappa_d, "pivot within the stability threshold"); }
    if (exact) {
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) hat[i][j] = q.s[q.p[i]] * cv[q.p[i]][q.q[j]] * q.t[q.q[j]];
      for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) { eqv(E[i][j], hat[m + i][j], "E block"); eqv(F[j][i], hat[j][m + i], "F block"); }
    }
    for (int k = 0; k < m; ++k) {
      long nl = 0, nu = 0; for (int i = 0; i < m; ++i) { nl += L[i][k] != TA(0); nu += U[k][i] != TA(0); }
      if (!keepL && !(KIND == 3 && lvl == 0)) { sx_assert(nl == 0, "entry of L kept below the threshold"); if (sy) sx_assert(nu == 0, "entry of U kept below the threshold"); }
      if (!keepU && !sy) { sx_assert(nu == 0, "entry of U kept below the threshold"); if (KIND == 3 && lvl == 0) sx_assert(nl == 0, "symmetric entry of L kept below the threshold"); }
      if (!(KIND == 3 && lvl == 0)) { const long ref = sy ? rs[q.p[k]] : cs[q.q[k]]; sx_assert(nl == 0 || nl - 1 < pf * p.alpha_L * ref, "column of L exceeds its fill limit"); }
      if (!sy) sx_assert(nu == 0 || nu - 1 < pf * p.alpha_U * rs[q.p[k]], "row of U exceeds its fill limit");
    }
    const long m0k = lvl == 0 && KIND == 3 ? m0 : N; tot += m0k - m;
    const bool d1 = !q.dense_solver.empty(), d2 = !q.symm_dense_solver.empty(); sx_assert(!(d1 && d2), "two dense solvers"); sx_assert(!d2 || KIND == 2, "symmetric dense solver for a general matrix");
    // without L or without U nothing is subtracted from the trailing block
    const bool plain = exact && (!keepL || (!keepU && !sy)) && !(KIND == 3 && lvl == 0 && keepU);
    if (d1 || d2) {
      const auto &D = d1 ? q.dense_solver.mat_backup() : q.symm_dense_solver.mat_backup(); sx_assert((int)D.nrows() == r && (int)D.ncols() == r, "dense level size");
      for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) { sx_assert(fin(D(i, j)), "dense level is finite"); if ((plain || (exact && m == 0)) && !(d2 && j > i)) eqv(D(i, j), hat[m + i][m + j], "trailing block changed although nothing was kept"); }
      done = true; sx_cover("dense level");
    } else if (r == 0) done = true;
    for (int i = 0; i < r; ++i) { r2[i] = rs[q.p[m + i]]; c2[i] = cs[q.q[m + i]]; } for (int i = 0; i < r; ++i) { rs[i] = r2[i]; cs[i] = c2[i]; }
    if (plain) for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) cv[i][j] = hat[m + i][m + j]; else exact = false;
    cur = r; if (m && r) sx_cover("deferred"); if (m == 0) sx_cover("all deferred"); (void)st0; (void)direct;
  }
  sx_assert(done, "no last level"); if (lvl > 1) sx_cover("several levels");
  sx_assert((long)h.stats(0) == tot, "statistics: total deferrals"); sx_assert(h.stats(1) <= h.stats(0), "statistics: dynamic deferrals"); sx_assert(h.stats(5) <= h.stats(4), "statistics: space drops");
  sx_assert(h.stats(1) == h.stats(2) + h.stats(3), "statistics: causes of dynamic deferrals");
#ifndef PREM
  sx_assert(h.stats(1) == h.stats(0) || h.precs().front().m == 0 || lvl > 1, "statistics: no static deferral");
#endif
  if (p.tau_L == 0 && p.tau_U == 0) sx_assert(h.stats(4) == h.stats(5), "statistics: threshold drops without a threshold");
  if (p.alpha_L >= 100 && p.alpha_U >= 100) sx_assert(h.stats(5) == 0, "statistics: space drops without a limit");
  if (p.kappa >= 1e6) sx_assert(h.stats(3) == 0, "statistics: conditioning deferrals without a bound");
  if (h.stats(4)) sx_cover("dropped"); if (h.stats(3)) sx_cover("conditioning deferral"); if (h.stats(2)) sx_cover("diagonal deferral");
}
