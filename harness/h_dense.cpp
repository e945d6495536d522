// P18: built-in dense last-level solvers (LUP, QRCP, SYEIG).  LAPACK/BLAS are replaced by their contracts (lapackstub.hpp):
// the harness picks a decomposition, builds the matrix from it, and the stub hands the decomposition back.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef TA
#define TA double
#define LP d
#define PT double *
#endif
#ifndef TY
#define TY TA
#endif
#ifndef NN
#define NN 3
#endif
typedef ValueTypeTrait<TA>::value_type RT;
#include "lapackstub.hpp"
static Options opt() { Options o = DEFAULT_PARAMS; o.verbose = 0; return o; }
typedef DenseMatrix<TA> DM; typedef CRS<TA, int> CR; typedef CCS<TA, int> CC_;
template <class S> static void setm(S &s, int how, int n) {  // the ways of handing over the matrix
  if (how == 0) { DM D(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) D(i, j) = mA[i][j]; s.set_matrix(std::move(D)); }
  else if (how == 1) { const DM D0(n, n); DM D(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) D(i, j) = mA[i][j]; const DM &C = D; s.set_matrix(C); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) eqv(D(i, j), mA[i][j], "source changed"); }
  else { Pic<TA, NN> d(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { d.p[i][j] = true; d.v[i][j] = mA[i][j]; } if (how == 2) s.set_matrix(mkcrs<CR>(d)); else s.set_matrix(mkccs<CC_>(d)); }
}
static void mkx(TA *x, int n, const char *l, int a = 2) { for (int i = 0; i < n; ++i) mk(x[i], l, -a, a); }
static TA unit(int k) { return k == 0 ? TA(1) : TA(-1); }
#ifdef CX
static TA iu() { return TA(0, 1); }
#endif
static void mul(const TA A[NN][NN], const TA *x, TA *y, int n, bool tran) { for (int i = 0; i < n; ++i) { y[i] = TA(0); for (int j = 0; j < n; ++j) y[i] += tran ? mulx(cj(A[j][i]), x[j]) : mulx(A[i][j], x[j]); } }
// run one of the call forms of solve/multiply: b -> x
enum { F_SAME, F_OTHER, F_MRHS };
template <class G> static void form(int f, const TA *b, TA *x, int n, G g) { g(f, b, x, n); }
extern "C" void lup() {
  const int n = 1 + sx_choose(NN); mN = n; kind = 1; Options o = opt();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { F[i][j] = TA(0); if (i == j) { const int c = sx_choose(3); F[i][j] = c == 0 ? TA(2) : c == 1 ? TA(-1) : TA(0); } else mk(F[i][j], i > j ? "l" : "u", -1, 1); }
  for (int i = 0; i < n; ++i) mpiv[i] = 1 + i + sx_choose(n - i);
  TA L[NN][NN], U[NN][NN]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { L[i][j] = i > j ? F[i][j] : i == j ? TA(1) : TA(0); U[i][j] = i <= j ? F[i][j] : TA(0); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { mA[i][j] = TA(0); for (int k = 0; k < n; ++k) mA[i][j] += mulx(L[i][k], U[k][j]); }
  for (int i = n - 1; i >= 0; --i) { const int p = mpiv[i] - 1; if (p != i) for (int j = 0; j < n; ++j) { TA t = mA[i][j]; mA[i][j] = mA[p][j]; mA[p][j] = t; } }
  int rk = n; for (int i = n - 1; i >= 0; --i) if (F[i][i] == TA(0)) rk = i;
  const int how = sx_choose(5); LUP<TA> s; setm(s, how == 4 ? 0 : how, n); s.factorize(o); if (how == 4) s.refactorize(o); sx_assert(calls_f == (how == 4 ? 2 : 1), "number of factorizations");
  sx_assert((int)s.rank() == rk && s.full_rank() == (rk == n), "reported rank"); sx_assert(!s.empty(), "empty");
  if (rk != n) { sx_cover("singular"); const bool tr = sx_choose(2); TA x[NN], y[NN]; mkx(x, n, "x"); mul(mA, x, y, n, tr); Array<TA> X(n), Y(n); for (int i = 0; i < n; ++i) { X[i] = x[i]; Y[i] = TA(9); } s.multiply(X, Y, 0, tr); for (int i = 0; i < n; ++i) eqv(Y[i], y[i], "product"); return; }
  const bool tr = sx_choose(2); const int f = sx_choose(5); TA x[NN], y[NN], x2[NN], y2[NN]; mkx(x, n, "x"); mul(mA, x, y, n, tr);
  if (f == 0) { Array<TA> X(n); for (int i = 0; i < n; ++i) X[i] = y[i]; s.solve(X, 0, tr); for (int i = 0; i < n; ++i) eqv(X[i], x[i], "solve"); sx_cover(tr ? "solve tran" : "solve"); }
  else if (f == 1) { Array<TY> X(n); for (int i = 0; i < n; ++i) X[i] = TY(y[i]); s.solve(X, 0, tr); for (int i = 0; i < n; ++i) eqv(X[i], x[i], "solve, other type"); }
  else if (f == 2) { mkx(x2, n, "w"); mul(mA, x2, y2, n, tr); Array<std::array<TY, 2>> X(n); for (int i = 0; i < n; ++i) { X[i][0] = TY(y[i]); X[i][1] = TY(y2[i]); } s.solve_mrhs(X, 0, tr); for (int i = 0; i < n; ++i) { eqv(X[i][0], x[i], "solve mrhs"); eqv(X[i][1], x2[i], "solve mrhs"); } sx_cover("mrhs"); }
  else if (f == 3) { Array<TA> X(n), Y(n); for (int i = 0; i < n; ++i) { X[i] = x[i]; Y[i] = TA(9); } s.multiply(X, Y, 0, tr); for (int i = 0; i < n; ++i) { eqv(Y[i], y[i], "product"); eqv(X[i], x[i], "input changed"); } sx_cover("product"); }
  else { Array<TY> X(n), Y(n); for (int i = 0; i < n; ++i) { X[i] = TY(x[i]); Y[i] = TY(9); } s.multiply(X, Y, 0, tr); for (int i = 0; i < n; ++i) eqv(Y[i], y[i], "product, other type"); }
}
static TA Qm[NN][NN];
static void applyQ(TA *y, int n, bool tr) { TA t[NN]; mul(Qm, y, t, n, tr); for (int i = 0; i < n; ++i) y[i] = t[i]; }
static void mkqr(int n, bool fewq) {  // reflectors, R and pivots
  kind = 2; mN = n;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { F[i][j] = TA(0); Qm[i][j] = TA(i == j); }
  for (int i = 0; i < n; ++i) {
    int c; if (fewq) c = i + 1 < n ? 2 : 1; else c = sx_choose(i + 1 < n ? (i + 2 < n ? 4 : 3) : 2);
    mtau[i] = c == 0 ? TA(0) : c == 1 ? TA(2) : TA(1);
#ifdef CX
    if (c == 1) mtau[i] = TA(1, -1);
#endif
    if (c >= 2) {
      const int j = c == 2 ? i + 1 : n - 1;
#ifdef CX
      F[j][i] = c == 2 ? iu() : TA(-1);
#else
      F[j][i] = c == 2 ? TA(1) : TA(-1);
#endif
    }
  }
  for (int i = n - 1; i >= 0; --i) for (int c = 0; c < n; ++c) { TA v[NN]; for (int k = 0; k < n; ++k) v[k] = k < i ? TA(0) : k == i ? TA(1) : F[k][i]; TA d = TA(0); for (int k = i; k < n; ++k) d += mulx(cj(v[k]), Qm[k][c]); d = mulx(mtau[i], d); for (int k = i; k < n; ++k) Qm[k][c] -= mulx(v[k], d); }
  int p[NN]; if (fewq) for (int i = 0; i < n; ++i) p[i] = (i + 1) % n; else mkperm(n, p); for (int i = 0; i < n; ++i) mpiv[i] = p[i] + 1;
}
static int mkR(int n) {  // returns number of large diagonals; the others are zero or tiny
  const int r = sx_choose(n + 1); const int pr = sx_choose(2); const bool tiny = r < n && sx_choose(2);
  for (int i = 0; i < n; ++i) {
    if (i < r) F[i][i] = pr ? (i == 0 ? TA(-2) : i == 1 ? TA(2) : TA(1)) : (i == 0 ? TA(4) : i == 1 ? TA(-2) : TA(-1)); else F[i][i] = tiny && r ? TA(RT(1) / RT(sizeof(RT) == 8 ? 1l << 30 : 1l << 14)) : TA(0);
#ifdef CX
    if (i < r && pr) F[i][i] = mulx(F[i][i], iu());
#endif
    for (int j = i + 1; j < n; ++j) if (i < r) mk(F[i][j], "r", -1, 1); else F[i][j] = TA(0);
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { TA v = TA(0); for (int k = 0; k <= j; ++k) v += mulx(Qm[i][k], F[k][j]); mA[i][mpiv[j] - 1] = v; }
  mtiny = tiny && r; return r;
}
static void mulR(const TA *x, TA *y, int rk, bool tr) { for (int i = 0; i < rk; ++i) { y[i] = TA(0); for (int j = 0; j < rk; ++j) { if (tr ? j > i : j < i) continue; y[i] += tr ? mulx(cj(F[j][i]), x[j]) : mulx(F[i][j], x[j]); } } }
extern "C" void qrrank() {  // the reported numerical rank
  const int n = 1 + sx_choose(NN); mkqr(n, true); const int r = mkR(n); Options o = opt(); const int c = sx_choose(3); o.rrqr_cond = c == 0 ? 0.0 : c == 1 ? 1000.0 : -1.0; const double cond = c == 1 ? 1000.0 : 1.0 / std::pow((double)Const<RT>::EPS, 2. / 3);
  QRCP<TA> s; const int how = sx_choose(5); setm(s, how == 4 ? 0 : how, n); s.factorize(o); if (how == 4) { est_n = 0; s.refactorize(o); } sx_assert(calls_f == (how == 4 ? 2 : 1), "number of factorizations");
  int rk = n; if (r == 0) rk = 0; else if (r < n) { sx_assert(est_n > 0, "tiny diagonal without condition estimate"); for (int j = n - 1; j >= 1; --j) if (est[1][j] >= 0 && (double)est[1][j] > (double)est[2][j] * cond) rk = j; for (int j = 1; j < rk; ++j) sx_assert(est[1][j] >= 0 && est[2][j] >= 0, "leading block accepted without an estimate"); }
  else if (est_n) { for (int j = n - 1; j >= 1; --j) if (est[1][j] >= 0 && (double)est[1][j] > (double)est[2][j] * cond) rk = j; }
  sx_assert((int)s.rank() == rk && s.full_rank() == (rk == n), "reported rank"); sx_cover(rk == n ? "full rank" : rk ? "deficient" : "zero");
}
template <class A, class B> static void put(A &X, const B *b, int n) { for (int i = 0; i < n; ++i) X[i] = b[i]; }
extern "C" void qrsolve() {
  const int n = 1 + sx_choose(NN); mkqr(n, false); est_fix = true; const int r = mkR(n); Options o = opt(); QRCP<TA> s; setm(s, 0, n); s.factorize(o); const int rep = s.rank();
  const int nz = mtiny ? n : r; int arg = sx_choose(nz + 2), rk; if (arg == 0) rk = rep; else if (arg == nz + 1) { if (nz != n) return; arg = n + 1 + sx_choose(2); rk = n; } else rk = arg;
  if (rk > nz) return; const bool tr = sx_choose(2); const int f = sx_choose(3); const bool prod = sx_choose(2);
  TA b[2][NN], e[2][NN];
  for (int c = 0; c < (f == 2 ? 2 : 1); ++c) {
    TA y[NN], w[NN], u[NN]; mkx(y, n, "y", 1); mkx(w, n, "w", 1);
    if (!prod && !tr) { mulR(y, u, rk, false); for (int i = 0; i < n; ++i) b[c][i] = i < rk ? u[i] : w[i]; applyQ(b[c], n, false); for (int i = 0; i < n; ++i) e[c][mpiv[i] - 1] = i < rk ? y[i] : TA(0); }
    else if (!prod) { mulR(y, u, rk, true); for (int i = 0; i < n; ++i) b[c][mpiv[i] - 1] = i < rk ? u[i] : w[i]; for (int i = 0; i < n; ++i) e[c][i] = i < rk ? y[i] : TA(0); applyQ(e[c], n, false); }
    else if (!tr) { for (int i = 0; i < n; ++i) b[c][mpiv[i] - 1] = i < rk ? y[i] : w[i]; mulR(y, u, rk, false); for (int i = 0; i < n; ++i) e[c][i] = i < rk ? u[i] : TA(0); applyQ(e[c], n, false); }
    else { for (int i = 0; i < n; ++i) b[c][i] = i < rk ? y[i] : w[i]; applyQ(b[c], n, false); mulR(y, u, rk, true); for (int i = 0; i < n; ++i) e[c][mpiv[i] - 1] = i < rk ? u[i] : TA(0); }
  }
  if (f == 0) { Array<TA> X(n); put(X, b[0], n); if (prod) s.multiply(X, arg, tr); else s.solve(X, arg, tr); for (int i = 0; i < n; ++i) eqv(X[i], e[0][i], prod ? "product" : "solve"); }
  else if (f == 1) { Array<TY> X(n); put(X, b[0], n); if (prod) s.multiply(X, arg, tr); else s.solve(X, arg, tr); for (int i = 0; i < n; ++i) eqv(X[i], e[0][i], "other type"); }
  else { Array<std::array<TY, 2>> X(n); for (int i = 0; i < n; ++i) { X[i][0] = b[0][i]; X[i][1] = b[1][i]; } if (prod) s.multiply_mrhs(X, arg, tr); else s.solve_mrhs(X, arg, tr); for (int i = 0; i < n; ++i) { eqv(X[i][0], e[0][i], "several right-hand sides"); eqv(X[i][1], e[1][i], "several right-hand sides"); } sx_cover("mrhs"); }
  sx_cover(prod ? (tr ? "product tran" : "product") : (tr ? "solve tran" : "solve")); if (rk < n) sx_cover("truncated");
}
extern "C" void syeig() {
  const int n = 1 + sx_choose(NN); kind = 3; mN = n; int p[NN]; mkperm(n, p); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) F[i][j] = TA(0);
  const int sg = sx_choose(2); for (int j = 0; j < n; ++j) { F[p[j]][j] = unit(sg ? j % 2 : 0);
#ifdef CX
    if (j % 2 != sg) F[p[j]][j] = mulx(F[p[j]][j], iu());
#endif
  }
  static const int NE = 9; const RT ty = RT(1) / RT(sizeof(RT) == 8 ? 1l << 40 : 1l << 20); const RT ev[NE] = {-8, -2, -1, -ty, 0, ty, 1, 4, 16};
  int last = -1; for (int i = 0; i < n; ++i) { const int k = last + (last < 0 ? 1 : 0) + sx_choose(last < 0 ? NE : NE - last); mw[i] = ev[k]; last = k; if (k == 3 || k == 5) sx_assume(true); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { TA v = TA(0); for (int k = 0; k < n; ++k) { TA t = mulx(F[i][k], cj(F[j][k])); t *= mw[k]; v += t; } mA[i][j] = v; }
  Options o = opt(); o.spd = sx_choose(3) - 1; SYEIG<TA> s; const int how = NN > 2 ? 2 * sx_choose(2) : sx_choose(5); setm(s, how == 4 ? 0 : how, n); s.factorize(o); if (how == 4) s.refactorize(o);
  RT mx = 0; for (int i = 0; i < n; ++i) if (__builtin_fabs((double)mw[i]) > mx) mx = __builtin_fabs((double)mw[i]); const double th = std::pow((double)Const<RT>::EPS, 2. / 3) * mx;
  int ord[NN], rk = 0; for (int i = 0; i < n; ++i) ord[i] = o.spd > 0 ? n - 1 - i : i; if (o.spd == 0) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (__builtin_fabs((double)mw[ord[j]]) > __builtin_fabs((double)mw[ord[i]])) { int t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  for (int i = 0; i < n; ++i) { const double w = mw[i]; if (o.spd > 0 ? w > th : o.spd < 0 ? w < -th : __builtin_fabs(w) > th) ++rk; }
  sx_assert((int)s.rank() == rk && s.full_rank() == (rk == n), "reported rank"); sx_cover(rk == n ? "full rank" : rk ? "deficient" : "nothing kept");
  const int arg = sx_choose(n + 2), use = arg == 0 ? rk : arg > n ? n : arg; for (int i = 0; i < use; ++i) if (mw[ord[i]] == RT(0)) return;
  if (use < n && use && __builtin_fabs((double)mw[ord[use - 1]]) == __builtin_fabs((double)mw[ord[use]]) && o.spd == 0) return;  // tie: any choice is right
  const int f = sx_choose(3); const bool prod = sx_choose(2); TA b[2][NN], e[2][NN];
  for (int c = 0; c < (f == 2 ? 2 : 1); ++c) {
    TA y[NN], z[NN]; mkx(y, n, "y"); for (int i = 0; i < n; ++i) z[i] = TA(0);
    TA yb[NN]; for (int i = 0; i < n; ++i) yb[i] = y[i]; for (int i = 0; i < use; ++i) { const int k = ord[i]; if (prod) { z[k] = y[k]; z[k] *= mw[k]; } else { z[k] = y[k]; yb[k] = y[k]; yb[k] *= mw[k]; } }
    for (int i = 0; i < n; ++i) { b[c][i] = e[c][i] = TA(0); for (int k = 0; k < n; ++k) { b[c][i] += mulx(F[i][k], yb[k]); e[c][i] += mulx(F[i][k], z[k]); } }
  }
  if (f == 0) { Array<TA> X(n); put(X, b[0], n); if (prod) s.multiply(X, arg); else s.solve(X, arg); for (int i = 0; i < n; ++i) eqv(X[i], e[0][i], prod ? "product" : "solve"); }
  else if (f == 1) { Array<TY> X(n); put(X, b[0], n); if (prod) s.multiply(X, arg); else s.solve(X, arg); for (int i = 0; i < n; ++i) eqv(X[i], e[0][i], "other type"); }
  else { Array<std::array<TY, 2>> X(n); for (int i = 0; i < n; ++i) { X[i][0] = b[0][i]; X[i][1] = b[1][i]; } if (prod) s.multiply_mrhs(X, arg); else s.solve_mrhs(X, arg); for (int i = 0; i < n; ++i) { eqv(X[i][0], e[0][i], "several right-hand sides"); eqv(X[i][1], e[1][i], "several right-hand sides"); } sx_cover("mrhs"); }
  sx_cover(prod ? "product" : "solve"); if (o.spd > 0) sx_cover("positive"); if (o.spd < 0) sx_cover("negative");
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <class S> static void refuse(S &s) {  // unset matrix, unfactorized matrix, wrong sizes
  Options o = opt(); const int n = 1 + sx_choose(2), k = sx_choose(4); if (k == n) return; Array<TA> x(k), y(k); for (int i = 0; i < k; ++i) x[i] = y[i] = TA(1);
  sx_assert(throws([&]() { s.factorize(o); }), "factorizing nothing"); sx_assert(s.rank() == 0 && s.empty(), "initial state"); Array<TA> z(n); for (int i = 0; i < n; ++i) z[i] = TA(1);
  sx_assert(throws([&]() { s.solve(z); }), "solving without a matrix"); DM D(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) D(i, j) = mA[i][j] = TA(0); s.set_matrix(std::move(D)); sx_assert(throws([&]() { s.solve(z); }), "solving without a factorization");
  sx_assert(throws([&]() { s.solve(x); }), "wrong size"); sx_cover("end");
}
extern "C" void refused() { switch (sx_choose(3)) { case 0: { LUP<TA> s; refuse(s); break; } case 1: { QRCP<TA> s; refuse(s); break; } default: { SYEIG<TA> s; refuse(s); } } }
