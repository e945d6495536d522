// P13: solve, product, transposed and multi-vector forms of an arbitrary multilevel preconditioner.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
#include "xdense.hpp"
#include "mg.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TY
#define TY TA
#endif
#ifndef NN
#define NN 3
#endif
#ifndef LV
#define LV 3
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef PERMS
#define PERMS 1
#endif
typedef HIF<TA, int, int, XDenseT> H;
#ifndef NRHS
#define NRHS 2
#endif
enum { NR = NRHS };
extern "C" void forms() {
  const int n = 1 + sx_choose(NN);
  Mg<TA> g; g.make(n, LV, PERMS); H h; g.build(h);
  if (g.lv > 1) sx_cover("several levels"); if (g.nd) sx_cover(g.symm ? "symmetric dense level" : "dense level");
  TA x0[4], y0[4];
  for (int st = 0; st < STEPS; ++st) {
    const int op = sx_choose(5); const int r = sx_choose(2); xd_last = -1; xd_calls = 0;
    for (int i = 0; i < n; ++i) mk(x0[i], "x", -2, 2);
    if (op < 4) {
      const bool tr = op & 1; g.mul(0, x0, y0, tr); Array<TY> b(n), x(n); for (int i = 0; i < n; ++i) { b[i] = op < 2 ? y0[i] : x0[i]; x[i] = TY(77); }
      if (op < 2) { h.solve(b, x, tr, r); for (int i = 0; i < n; ++i) eqv(x[i], x0[i], tr ? "transposed solve inverts M^H" : "solve inverts M"); }
      else { h.mmultiply(b, x, tr, r); for (int i = 0; i < n; ++i) eqv(x[i], y0[i], tr ? "transposed product equals M^H x" : "product equals M x"); }
      for (int i = 0; i < n; ++i) eqv(b[i], op < 2 ? y0[i] : x0[i], "right-hand side modified");
      sx_cover(op == 0 ? "solve" : op == 1 ? "solve tran" : op == 2 ? "product" : "product tran");
    } else {
      typedef std::array<TY, NR> row; Array<row> b(n), x(n); TA X[NR][4], Y[NR][4];
      for (int k = 0; k < NR; ++k) { for (int i = 0; i < n; ++i) X[k][i] = x0[i]; if (k) for (int i = 0; i < n; ++i) mk(X[k][i], "x2", -2, 2); g.mul(0, X[k], Y[k], false); for (int i = 0; i < n; ++i) { b[i][k] = Y[k][i]; x[i][k] = TY(77); } }
      h.solve_mrhs(b, x, r);
      for (int k = 0; k < NR; ++k) for (int i = 0; i < n; ++i) { eqv(x[i][k], X[k][i], "solve with several vectors inverts M"); eqv(b[i][k], Y[k][i], "right-hand side modified"); }
      sx_cover("mrhs");
    }
    if (g.nd) { sx_assert(xd_last == r, "requested rank passed to the dense level"); sx_assert(xd_calls == 1, "dense level used once"); }
    sx_assert((int)h.precs().size() == g.lv, "number of levels kept");
  }
}
