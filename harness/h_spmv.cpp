// P02: matrix-vector products.  TA matrix value type, TX input type, TY output type.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TX
#define TX TA
#endif
#ifndef TY
#define TY TA
#endif
#ifndef NN
#define NN 3
#endif
static const int MX = NN, NR = 2;
typedef Pic<TA, MX> pic;
template <class S> void run(const S &A, const pic &d, const char *l) {
  const int n = d.n, m = d.m;
  Array<TX> x(m), xt(n); Array<TY> y(n), yt(m);
  for (int j = 0; j < m; ++j) mk(x[j], "x", -8, 8); for (int i = 0; i < n; ++i) mk(xt[i], "xt", -8, 8);
  for (int i = 0; i < n; ++i) y[i] = TY(77); for (int j = 0; j < m; ++j) yt[j] = TY(77);
  TY e[MX], et[MX];
  for (int i = 0; i < n; ++i) { e[i] = TY(0); for (int j = 0; j < m; ++j) e[i] += mulx(TY(d.v[i][j]), TY(x[j])); }
  for (int j = 0; j < m; ++j) { et[j] = TY(0); for (int i = 0; i < n; ++i) et[j] += mulx(TY(cj(d.v[i][j])), TY(xt[i])); }
  A.multiply(x, y, false); for (int i = 0; i < n; ++i) eqv(y[i], e[i], "A*x");
  A.multiply(xt, yt, true); for (int j = 0; j < m; ++j) eqv(yt[j], et[j], "A^H*x");
  for (int i = 0; i < n; ++i) y[i] = TY(77); for (int j = 0; j < m; ++j) yt[j] = TY(77);
  A.multiply_nt_low(x.data(), y.data()); for (int i = 0; i < n; ++i) eqv(y[i], e[i], "A*x (pointer)");
  A.multiply_t_low(xt.data(), yt.data()); for (int j = 0; j < m; ++j) eqv(yt[j], et[j], "A^H*x (pointer)");
  for (int i = 0; i < n; ++i) y[i] = TY(77);
  hif::multiply(A, x, y, false); for (int i = 0; i < n; ++i) eqv(y[i], e[i], "multiply()");
  // several right-hand sides
  Array<std::array<TX, NR>> X(m), Xt(n); Array<std::array<TY, NR>> Y(n), Yt(m);
  for (int j = 0; j < m; ++j) for (int k = 0; k < NR; ++k) mk(X[j][k], "X", -8, 8);
  for (int i = 0; i < n; ++i) for (int k = 0; k < NR; ++k) mk(Xt[i][k], "Xt", -8, 8);
  for (int i = 0; i < n; ++i) Y[i].fill(TY(77)); for (int j = 0; j < m; ++j) Yt[j].fill(TY(77));
  A.multiply_mrhs(X, Y, false); A.multiply_mrhs(Xt, Yt, true);
  for (int k = 0; k < NR; ++k) {
    for (int i = 0; i < n; ++i) { TY s(0); for (int j = 0; j < m; ++j) s += mulx(TY(d.v[i][j]), TY(X[j][k])); eqv(Y[i][k], s, "A*X several vectors"); }
    for (int j = 0; j < m; ++j) { TY s(0); for (int i = 0; i < n; ++i) s += mulx(TY(cj(d.v[i][j])), TY(Xt[i][k])); eqv(Yt[j][k], s, "A^H*X several vectors"); }
  }
  // mismatched sizes are refused
  if (n != m) { bool thrown = false; Array<TX> xb(n); Array<TY> yb(m); for (int i = 0; i < n; ++i) xb[i] = TX(0); try { A.multiply(xb, yb, false); } catch (const std::exception &) { thrown = true; } sx_assert(thrown, "size mismatch accepted"); }
}
extern "C" void spmv() {
  pic d; d.n = sx_choose(MX + 1); d.m = sx_choose(MX + 1); mkpic(d, -8, 8);
  typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
  if (sx_choose(2)) {
    crs A = mkcrs<crs>(d); run(A, d, "crs");
    // leading row ranges (the unit of work of the threaded products)
    if (d.n) { const int s = sx_choose(d.n), len = sx_choose(d.n - s + 1); Array<TX> x(d.m); Array<TY> y(d.n); for (int j = 0; j < d.m; ++j) mk(x[j], "x", -8, 8); for (int i = 0; i < d.n; ++i) y[i] = TY(55 + i);
      A.multiply_nt(x, s, len, y);
      for (int i = 0; i < d.n; ++i) { TY e(0); for (int j = 0; j < d.m; ++j) e += mulx(TY(d.v[i][j]), TY(x[j])); if (i < s || i >= s + len) e = TY(55 + i); eqv(y[i], e, "row range"); }
      Array<std::array<TX, NR>> X(d.m); Array<std::array<TY, NR>> Y(d.n); for (int j = 0; j < d.m; ++j) for (int k = 0; k < NR; ++k) mk(X[j][k], "x", -8, 8); for (int i = 0; i < d.n; ++i) Y[i].fill(TY(55 + i));
      A.multiply_mrhs_nt(X, s, len, Y);
      for (int k = 0; k < NR; ++k) for (int i = 0; i < d.n; ++i) { TY e(0); for (int j = 0; j < d.m; ++j) e += mulx(TY(d.v[i][j]), TY(X[j][k])); if (i < s || i >= s + len) e = TY(55 + i); eqv(Y[i][k], e, "row range, several vectors"); }
      sx_cover("range");
    }
    sx_cover("crs");
  } else { ccs A = mkccs<ccs>(d); run(A, d, "ccs"); sx_cover("ccs"); }
}
