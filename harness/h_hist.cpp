// P21: the result of an operation depends only on the last factorized matrix, not on what happened before with the object.
#include "sx.hpp"
#include "common.hpp"
#include "hifir.hpp"
#include "xdense.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TX
#define TX TA
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef CONC
#define CONC 0
#endif
enum { NN = 4, K2 = sizeof(TX) == 4 || sizeof(TA) == 4 ? 1 : 2 };
typedef HIF<TA, int, int, XDenseT> H; typedef Pic<TA, NN> pic; typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
static void put(pic &a, int i, int j, TA v) { a.p[i][j] = true; a.v[i][j] = v; }
#ifndef AR
#define AR 2
#endif
static void symv(double &v, int) { mk(v, "a", -AR, AR); }
static void symv(float &v, int) { mk(v, "a", -AR, AR); }
template <class R> static void symv(std::complex<R> &v, int k) { R r; mk(r, "a", -AR, AR); v = k % 2 ? std::complex<R>(0, r) : std::complex<R>(r, 0); }
static void sym(pic &a, int i, int j) { a.p[i][j] = true; if (CONC) a.v[i][j] = TA(2 * ((i + j) % 2) - 1); else symv(a.v[i][j], i + j); }
struct Prob { pic a; Params p; int fmt; bool bad; long m0; };
// 0: 1x1; 1: 2x2 upper; 2: 3x3 with a zero leading diagonal entry (deferral, dense last level); 3: several levels; 4: a dense
// level only; 5: leading symmetric block; 6: fails after the first level is built; 7: not square; 8: broken arrays
enum { NP = 9 };
static void make(int k, Prob &P) {
  Params p = DEFAULT_PARAMS; p.verbose = 0; p.no_pre = 1; p.check = 0; p.tau_L = p.tau_U = 0; p.alpha_L = p.alpha_U = 1000; p.kappa = p.kappa_d = 1e6; p.rf_par = 0; p.fat_schur_1st = 0; p.threads = 1; p.dense_thres = 1; p.c_d = 0.01; p.rho = 1e9;
  P.fmt = k % 3; P.bad = false; P.m0 = 0;
  if (k == 0) { P.a = pic(1, 1); put(P.a, 0, 0, TA(-2)); p.is_symm = 1; }
  else if (k == 1) { P.a = pic(2, 2); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(-2)); sym(P.a, 0, 1); }
  else if (k == 2) { P.a = pic(3, 3); put(P.a, 1, 1, TA(1)); put(P.a, 2, 2, TA(-1)); put(P.a, 0, 1, TA(1)); put(P.a, 1, 0, TA(2)); sym(P.a, 0, 2); put(P.a, 2, 0, TA(1)); }
  else if (k == 3) { P.a = pic(4, 4); put(P.a, 0, 0, TA(0)); put(P.a, 1, 1, TA(1)); put(P.a, 2, 2, TA(-1)); put(P.a, 3, 3, TA(2)); put(P.a, 0, 1, TA(1)); put(P.a, 1, 0, TA(1)); sym(P.a, 2, 3); put(P.a, 3, 0, TA(1)); p.pivot = PIVOTING_AUTO; }
  else if (k == 4) { P.a = pic(2, 2); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(2)); sym(P.a, 1, 0); p.dense_thres = 2000; p.c_d = 10; p.rho = 0.5; }
  else if (k == 5) { P.a = pic(3, 3); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(2)); put(P.a, 2, 2, TA(-1)); sym(P.a, 2, 0); sym(P.a, 1, 2); P.m0 = 2; }
  else if (k == 6) { P.a = pic(4, 4); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(1)); put(P.a, 2, 0, TA(2)); put(P.a, 3, 1, TA(1)); P.bad = true; P.fmt = 1; }
  else if (k == 7) { P.a = pic(2, 3); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(1)); put(P.a, 1, 2, TA(1)); P.bad = true; P.fmt = 0; }
  else { P.a = pic(2, 2); put(P.a, 0, 0, TA(1)); put(P.a, 1, 1, TA(1)); p.check = 1; P.bad = true; P.fmt = 3; }
  P.p = p;
}
template <class M> static void eqm(const M &A, const M &B, const char *l) {
  sx_assert(A.nrows() == B.nrows() && A.ncols() == B.ncols() && A.nnz() == B.nnz(), l); const int m = A.ncols(); if (!A.nnz()) return;
  for (int j = 0; j <= m; ++j) sx_assert(A.col_start()[j] == B.col_start()[j], l);
  for (int k = 0; k < (int)A.nnz(); ++k) { sx_assert(A.row_ind()[k] == B.row_ind()[k], l); eqv(A.vals()[k], B.vals()[k], l); }
}
static void same(const H &h, const H &f) {  // everything that can be queried
  const char *l = "factorization depends on history";
  sx_assert(h.levels() == f.levels() && h.nnz() == f.nnz() && h.nnz_ef() == f.nnz_ef() && h.nrows() == f.nrows() && h.ncols() == f.ncols(), l);
  sx_assert(h.rank() == f.rank() && h.schur_rank() == f.schur_rank() && h.schur_size() == f.schur_size(), l); for (int i = 0; i < 6; ++i) sx_assert(h.stats(i) == f.stats(i), l);
  auto a = h.precs().cbegin(); auto b = f.precs().cbegin(); sx_assert(h.precs().size() == f.precs().size(), l);
  for (; a != h.precs().cend(); ++a, ++b) {
    sx_assert(a->n == b->n && a->m == b->m, l); for (int i = 0; i < (int)a->n; ++i) { sx_assert(a->p[i] == b->p[i] && a->q[i] == b->q[i], l); eqv(a->s[i], b->s[i], l); eqv(a->t[i], b->t[i], l); }
    for (int i = 0; i < (int)a->m; ++i) eqv(a->d_B[i], b->d_B[i], l);
    eqm(a->L_B, b->L_B, l); eqm(a->U_B, b->U_B, l); eqm(a->E, b->E, l); eqm(a->F, b->F, l); sx_assert(a->dense_solver.empty() == b->dense_solver.empty(), l);
  }
}
static bool fact(H &h, const Prob &P) {
  try {
    const char *l = "matrix modified";
    if (P.fmt == 0) { crs A = mkcrs<crs>(P.a); h.factorize(A, P.p, P.m0); chkcrs(A, P.a, true, l); }
    else if (P.fmt == 1) { ccs A = mkccs<ccs>(P.a); h.factorize(A, P.p, P.m0); chkccs(A, P.a, true, l); }
    else if (P.fmt == 2) { crs A = mkcrs<crs>(P.a); h.factorize<true>((std::size_t)P.a.n, A.row_start().data(), A.col_ind().data(), A.vals().data(), P.p, P.m0); chkcrs(A, P.a, true, l); }
    else { crs A = mkcrs<crs>(P.a); A.col_ind()[1] = 5; h.factorize(A, P.p, P.m0); }
  } catch (const std::exception &) { return false; }
  return true;
}
enum { OSOLVE, OSOLVET, OMUL, OMULT, OREF, OREFT, OMRHS, OMRHS3, OBETA, NOP };
static double rhs[3 * NN];
template <int N> static void mrhs(const H &h, int n, TX (&o)[3 * NN]) { Array<std::array<TX, N>> b(n), x(n); for (int i = 0; i < n; ++i) for (int k = 0; k < N; ++k) { b[i][k] = TX(rhs[k * NN + i]); x[i][k] = TX(55); } h.solve_mrhs(b, x); for (int i = 0; i < n; ++i) for (int k = 0; k < N; ++k) { eqv(b[i][k], TX(rhs[k * NN + i]), "right-hand side modified"); o[k * NN + i] = x[i][k]; } }
static void use(const H &h, const Prob &P, int op, TX (&o)[3 * NN]) {
  const int n = P.a.n; if (op == OMRHS) { mrhs<K2>(h, n, o); return; } if (op == OMRHS3) { mrhs<3>(h, n, o); return; }
  Array<TX> b(n), x(n); for (int i = 0; i < n; ++i) { b[i] = TX(rhs[i]); x[i] = TX(77); }
  if (op == OSOLVE || op == OSOLVET) h.solve(b, x, op == OSOLVET);
  else if (op == OMUL || op == OMULT) h.mmultiply(b, x, op == OMULT);
  else { ccs A = mkccs<ccs>(P.a); if (op == OBETA) { const double be[2] = {1e-8, 10}; auto r = h.hifir(A, b, 3, be, x); o[NN] = TX((double)r.first); o[NN + 1] = TX((double)r.second); } else h.hifir(A, b, 2, x, op == OREFT); chkccs(A, P.a, true, "matrix modified"); }
  for (int i = 0; i < n; ++i) { eqv(b[i], TX(rhs[i]), "right-hand side modified"); o[i] = x[i]; }
}
static void go() {
  H h; int cur = -1; Prob P; P.a = pic(1, 1); put(P.a, 0, 0, TA(1)); H *f = nullptr; bool used = false;
  for (int i = 0; i < 3 * NN; ++i) rhs[i] = CONC ? i % 3 + 1 : 0;
  for (int st = 0; st < STEPS; ++st) {
    const int op = sx_choose(NP + NOP + 1 - (CONC ? 0 : 1));  // without concrete data no residual norms
    if (op < NP) {
      delete f; f = nullptr; make(op, P); cur = -1; const bool ok = fact(h, P); sx_assert(ok == !P.bad, "outcome of the factorization");
      if (ok) { cur = op; f = new H; fact(*f, P); same(h, *f); if (st) sx_cover("factorized again"); } else { sx_assert(h.empty() && h.levels() == 0 && h.nnz() == 0, "preconditioner left behind by a failed factorization"); sx_cover(op == 6 ? "failed at a later level" : "failed"); }
      used = false;
    } else if (op == NP) { delete f; f = nullptr; h.clear(); cur = -1; sx_assert(h.empty(), "cleared"); sx_cover("cleared"); }
    else {
      const int u = op - NP - 1; const int n = P.a.n; TX o1[3 * NN], o2[3 * NN]; for (int i = 0; i < 3 * NN; ++i) { if (!CONC) rhs[i] = i % NN == 1 ? sx_dbl("b", 1, 4, 0) : 1 + i % 3; o1[i] = o2[i] = TX(0); }
      bool thrown = false; try { use(h, P, u, o1); } catch (const std::exception &) { thrown = true; }
      if (cur < 0) { sx_assert(thrown, "result without a factorized matrix"); sx_cover("refused"); }
      else { sx_assert(!thrown, "error for a factorized matrix"); use(*f, P, u, o2); for (int i = 0; i < 3 * NN; ++i) eqv(o1[i], o2[i], "result depends on history"); delete f; f = new H; fact(*f, P); if (used) sx_cover("used again"); used = true; if (st > 1) sx_cover("used after other operations"); }
    }
  }
  delete f;
}
extern "C" void hist() { const long l0 = sx_heap_live(); go(); sx_assert(sx_heap_live() == l0, "memory left behind"); }
