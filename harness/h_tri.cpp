// P03: substitution with I + strictly triangular.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TY
#define TY TA
#endif
#ifndef NN
#define NN 3
#endif
static const int MX = NN, NR = 2;
typedef Pic<TA, MX> pic;
template <class S> void run(const S &A, const pic &d, bool low) {
  const int n = d.n;
  for (int tran = 0; tran < 2; ++tran) {
    Array<TY> y(n); TY x[MX]; Array<std::array<TY, NR>> Y(n); TY X[MX][NR];
    for (int i = 0; i < n; ++i) mk(x[i], "x", -8, 8); for (int i = 0; i < n; ++i) for (int k = 0; k < NR; ++k) mk(X[i][k], "X", -8, 8);
    for (int i = 0; i < n; ++i) {
      y[i] = x[i]; for (int k = 0; k < NR; ++k) Y[i][k] = X[i][k];
      for (int j = 0; j < n; ++j) { const TY a = tran ? TY(cj(d.v[j][i])) : TY(d.v[i][j]); y[i] += mulx(a, x[j]); for (int k = 0; k < NR; ++k) Y[i][k] += mulx(a, X[j][k]); }
    }
    if (low) { if (!tran) A.solve_as_strict_lower(y), A.solve_as_strict_lower_mrhs(Y); else A.solve_as_strict_lower_tran(y), A.solve_as_strict_lower_mrhs_tran(Y); }
    else { if (!tran) A.solve_as_strict_upper(y), A.solve_as_strict_upper_mrhs(Y); else A.solve_as_strict_upper_tran(y), A.solve_as_strict_upper_mrhs_tran(Y); }
    for (int i = 0; i < n; ++i) eqv(y[i], x[i], tran ? "transposed solve" : "solve");
    for (int i = 0; i < n; ++i) for (int k = 0; k < NR; ++k) eqv(Y[i][k], X[i][k], tran ? "transposed solve, several vectors" : "solve, several vectors");
  }
}
extern "C" void tri() {
  pic d; d.n = d.m = 1 + sx_choose(MX); const bool low = sx_choose(2); mkpic(d, -4, 4, low ? SLOW : SUPP);
  typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
  if (sx_choose(2)) { crs A = mkcrs<crs>(d); run(A, d, low); sx_cover(low ? "crs lower" : "crs upper"); }
  else { ccs A = mkccs<ccs>(d); run(A, d, low); sx_cover(low ? "ccs lower" : "ccs upper"); }
}
