// P19: the C interface, driven through its exported functions and compared with the C++ objects it wraps.
#include "sx.hpp"
#include "memfile.hpp"
#include <cstdlib>
static long lh_live, lh_fail = -1;
static void *lh_malloc(unsigned long n) { if (lh_fail == 0) { lh_fail = -1; return nullptr; } if (lh_fail > 0) --lh_fail; ++lh_live; return sx_malloc(n); }
static void lh_free(void *p) { if (p) --lh_live; sx_free(p); }
namespace std { using ::lh_malloc; using ::lh_free; }
#include <hifir.hpp>
#include "common.hpp"
#include "xdense.hpp"
namespace hif { template <class V, class I, class P> using XHIF = HIF<V, I, P, XDenseT>; }
#define HIF XHIF
#define malloc lh_malloc
#define free lh_free
#ifdef F2D  // single precision variants executed with double in place of float
#define float double
#endif
#include "../libhifir/include/libhifir.h"
#include "../libhifir/src/libhifir.cpp"
#undef float
#undef malloc
#undef free
#undef HIF
// one of KD, KS, KZ, KC, KSD, KCZ: K factorization prefix, KV prefix of the functions taking vectors, KM prefix of the matrix used in refinement
#if defined(KS)
#define K s
#define KV s
#define KM s
#elif defined(KZ)
#define K z
#define KV z
#define KM z
#define CPLX
#elif defined(KC)
#define K c
#define KV c
#define KM c
#define CPLX
#elif defined(KSD)
#define K s
#define KV sd
#define KM d
#define MIXED
#elif defined(KCZ)
#define K c
#define KV cz
#define KM z
#define MIXED
#define CPLX
#else
#define K d
#define KV d
#define KM d
#endif
#if defined(F2D) || defined(KZ) || !(defined(KS) || defined(KSD) || defined(KC) || defined(KCZ))
typedef double rf;
#else
typedef float rf;
#endif
#if defined(KS) && !defined(F2D)
typedef float rv;
#else
typedef double rv;
#endif
#ifdef CPLX
typedef std::complex<rf> TF; typedef std::complex<rv> TV;
#if defined(F2D) || defined(KZ)
typedef double _Complex CF;
#else
typedef float _Complex CF;
#endif
typedef double _Complex CV;
#else
typedef rf TF; typedef rv TV; typedef rf CF; typedef rv CV;
#endif
#define C3_(a, b, c) a##b##c
#define C3(a, b, c) C3_(a, b, c)
#define LF(x) C3(lhf, K, x)
#define LV(x) C3(lhf, KV, x)
#define LM(x) C3(lhf, KM, x)
typedef C3(Lhf, K, MatrixHdl) FMat; typedef C3(Lhf, KM, MatrixHdl) VMat; typedef C3(Lhf, K, HifHdl) HH;
typedef TF tf; typedef TV tv; typedef hif::XHIF<tf, LhfInt, LhfIndPtr> RM;
#ifdef MIXED
static const bool MIX = true;
#else
static const bool MIX = false;
#endif
#ifndef NN
#define NN 2
#endif
static const CF *fp(const tf *p) { return (const CF *)p; } static const CV *vp(const tv *p) { return (const CV *)p; } static CV *vp(tv *p) { return (CV *)p; }
template <class T> struct Ar { LhfIndPtr p[NN + 1], p0[NN + 1]; LhfInt i[NN * NN], i0[NN * NN]; T v[NN * NN], v0[NN * NN]; int n, nz; bool row;
  void make(int n_, bool r, int kind, bool conc = false) {  // unit triangular matrices with one kind of symbolic fill and diagonal +-1
    n = n_; row = r; nz = 0; for (int a = 0; a < n; ++a) { p[a] = nz; for (int b = 0; b < n; ++b) { if ((kind & 4) && n > 1 && (a == 0 || b == 0)) { if (a + b != 1) continue; v[nz] = a > b ? T(-1) : T(1); } else if (a == b) v[nz] = (kind + a) % 2 ? T(-1) : T(1); else if ((kind & 2) ? a < b : a > b) { if (conc) v[nz] = T(1 - 2 * ((a + b) % 2)); else mk(v[nz], "a", -2, 2); } else continue; i[nz++] = b; } } p[n] = nz;
    for (int a = 0; a <= n; ++a) p0[a] = p[a]; for (int k = 0; k < nz; ++k) { i0[k] = i[k]; v0[k] = v[k]; }
  }
  void same() const { for (int a = 0; a <= n; ++a) sx_assert(p[a] == p0[a], "user matrix modified"); for (int k = 0; k < nz; ++k) { sx_assert(i[k] == i0[k], "user matrix modified"); eqv(v[k], v0[k], "user matrix modified"); } }
};
static FMat fm(Ar<tf> &a) { return LF(CreateMatrix)(a.row, a.n, a.p, a.i, fp(a.v)); }
static VMat vm(Ar<tv> &a) { return LM(CreateMatrix)(a.row, a.n, a.p, a.i, vp(a.v)); }
static void mkparams(double *p) { sx_assert(lhfSetDefaultParams(p) == LHF_SUCCESS, "status"); lhfSetDroptol(0, p); lhfSetAlpha(1e6, p); lhfSetKappa(1e6, p); p[LHF_NOPRE] = 1; p[LHF_VERBOSE] = 0; p[LHF_THREADS] = 1; p[LHF_REORDER] = 0; }
static hif::Params mkref() { hif::Params p = hif::get_default_params(); p.tau_L = p.tau_U = 0; p.alpha_L = p.alpha_U = 1e6; p.kappa = p.kappa_d = 1e6; p.no_pre = 1; p.verbose = 0; p.threads = 1; p.reorder = 0; return p; }
template <class T> struct RowM { typedef hif::CRS<T, LhfInt, LhfIndPtr> crs; typedef typename crs::other_type ccs; };
static void reffac(RM &m, const Ar<tf> &a, const hif::Params &p) { if (a.row) { typename RowM<tf>::crs A(a.n, a.n); A.row_start().resize(a.n + 1); A.col_ind().resize(a.nz); A.vals().resize(a.nz); for (int k = 0; k <= a.n; ++k) A.row_start()[k] = a.p0[k]; for (int k = 0; k < a.nz; ++k) { A.col_ind()[k] = a.i0[k]; A.vals()[k] = a.v0[k]; } m.factorize(A, p); } else { typename RowM<tf>::ccs A(a.n, a.n); A.col_start().resize(a.n + 1); A.row_ind().resize(a.nz); A.vals().resize(a.nz); for (int k = 0; k <= a.n; ++k) A.col_start()[k] = a.p0[k]; for (int k = 0; k < a.nz; ++k) { A.row_ind()[k] = a.i0[k]; A.vals()[k] = a.v0[k]; } m.factorize(A, p); } }
template <class F> static void withmat(const Ar<tv> &a, F f) { if (a.row) { typename RowM<tv>::crs A(a.n, a.n); A.row_start().resize(a.n + 1); A.col_ind().resize(a.nz); A.vals().resize(a.nz); for (int k = 0; k <= a.n; ++k) A.row_start()[k] = a.p0[k]; for (int k = 0; k < a.nz; ++k) { A.col_ind()[k] = a.i0[k]; A.vals()[k] = a.v0[k]; } f(A); } else { typename RowM<tv>::ccs A(a.n, a.n); A.col_start().resize(a.n + 1); A.row_ind().resize(a.nz); A.vals().resize(a.nz); for (int k = 0; k <= a.n; ++k) A.col_start()[k] = a.p0[k]; for (int k = 0; k < a.nz; ++k) { A.row_ind()[k] = a.i0[k]; A.vals()[k] = a.v0[k]; } f(A); } }
// ---- application
extern "C" void apply() {
  const long live0 = sx_heap_live(); {
  const int n = 1 + sx_choose(NN); Ar<tf> a, s; Ar<tv> b2; const bool bem = sx_choose(2), rw = sx_choose(2); const int kd = sx_choose(2); a.make(n, rw, kd ? 2 : 6, bem); s.make(n, sx_choose(2), kd ? 4 : 0, bem); b2.make(n, !rw, 1, bem); const FMat A = fm(a), S = fm(s); const VMat A2 = vm(b2);
  double par[LHF_NUMBER_PARAMS]; mkparams(par); const int how = sx_choose(5);  // A only, S only, both, created empty then set up, factorized then refactorized and updated
  HH M = nullptr; const Ar<tf> *fac = nullptr, *ref = nullptr;
  if (how == 0) { M = LF(Create)(A, nullptr, par); fac = ref = &a; } else if (how == 1) { M = LF(Create)(nullptr, S, par); fac = ref = &s; } else if (how == 2) { M = LF(Create)(A, S, par); fac = &s; ref = &a; }
  else if (how == 3) { M = LF(Create)(nullptr, nullptr, nullptr); sx_assert(M != nullptr, "empty handle"); sx_assert(LF(GetNnz)(M) == 0 && LF(GetLevels)(M) == 0, "empty handle"); sx_assert(LF(Setup)(M, A, S, par) == LHF_SUCCESS, "setup"); fac = &s; ref = &a; }
  else { M = LF(Create)(A, nullptr, par); sx_assert(M && LF(Refactorize)(M, S, par) == LHF_SUCCESS, "refactorize"); fac = &s; ref = &a; }
  sx_assert(M != nullptr, "create"); RM R; reffac(R, *fac, mkref());
  size_t st[9]; sx_assert(LF(GetStats)(M, st) == LHF_SUCCESS, "stats"); sx_assert(st[0] == R.nnz() && st[1] == R.stats(0) && st[2] == R.stats(1) && st[3] == R.stats(4) && st[4] == R.stats(5) && st[5] == R.levels() && st[6] == R.rank() && st[7] == R.schur_rank() && st[8] == R.schur_size(), "statistics");
  sx_assert(LF(GetNnz)(M) == R.nnz() && LF(GetLevels)(M) == R.levels() && LF(GetSchurSize)(M) == R.schur_size() && LF(GetSchurRank)(M) == R.schur_rank(), "queries");
  const bool upd = MIX || sx_choose(2); if (upd) { sx_assert(LV(Update)(M, A2) == LHF_SUCCESS, "update"); }
  const int opk = sx_choose(5); const LhfOperationType op[4] = {LHF_S, LHF_SH, LHF_M, LHF_MH}; const bool tr = opk == 1 || opk == 3, mul = opk == 2 || opk == 3;
  int nirs = 1, rank = LHF_DEFAULT_RANK; bool be = false, sta = false; if (opk < 4) { nirs = bem ? 2 + (int)sx_choose(2) : (int)sx_choose(3); rank = (int)sx_choose(4) - 2; be = bem; sta = be && sx_choose(2); }
  const bool ir = nirs > 1 && !mul; tv b[NN], b0[NN], x[NN], r[NN]; const double bet[2] = {0.25, 64}; int is[3] = {-7, -7, -7};
  for (int i = 0; i < n; ++i) { if (be) b[i] = tv(1 + (int)sx_choose(2)); else mk(b[i], "b", -3, 3); b0[i] = b[i]; x[i] = tv(55 + i); r[i] = tv(0); }
  const int inc = 1;  // applied twice: the workspace of the first call must not matter
  for (int rep = 0; rep <= inc; ++rep) {
    for (int i = 0; i < n; ++i) x[i] = tv(55 + i); is[0] = is[1] = -7; xd_last = -5; xd_calls = 0;
    const LhfStatus z = opk < 4 ? LV(Apply)(M, op[opk], vp(b), nirs, be ? bet : nullptr, rank, vp(x), sta ? is : nullptr) : LV(Solve)(M, vp(b), vp(x)); sx_assert(z == LHF_SUCCESS, "status of apply"); const long la = xd_last, ca = xd_calls; const int is0 = is[0], is1 = is[1]; sx_assert(is[2] == -7, "status array overrun");
    const std::size_t rk = rank != LHF_DEFAULT_RANK ? (std::size_t)(long)rank : (mul || ir) ? (std::size_t)-1 : 0; xd_last = -5; xd_calls = 0;
    hif::Array<tv> bb(n), xx(n); for (int i = 0; i < n; ++i) { bb[i] = b0[i]; xx[i] = tv(-3); } std::pair<std::size_t, int> inf(0, 0);
    if (mul) R.mmultiply(bb, xx, tr, rk); else if (!ir) R.solve(bb, xx, tr, rk); else { auto go = [&](const auto &AA) { if (be) inf = R.hifir(AA, bb, nirs, bet, xx, tr, rk); else R.hifir(AA, bb, nirs, xx, tr, rk); };
      if (upd) withmat(b2, go); else { Ar<tv> t; t.n = ref->n; t.nz = ref->nz; t.row = ref->row; for (int k = 0; k <= n; ++k) t.p0[k] = ref->p0[k]; for (int k = 0; k < t.nz; ++k) { t.i0[k] = ref->i0[k]; t.v0[k] = tv(ref->v0[k]); } withmat(t, go); } sx_cover("refined"); }
    for (int i = 0; i < n; ++i) { eqv(x[i], xx[i], mul ? "product" : ir ? "refined solution" : "solution"); eqv(b[i], b0[i], "right-hand side modified"); }
    sx_assert(la == xd_last && ca == xd_calls, "rank handed to the last level");
    if (sta && ir) { sx_assert(is0 == (int)inf.first && is1 == inf.second, "refinement status"); sx_cover("status"); } else sx_assert(is0 == -7 && is1 == -7, "status touched without bounds");
  }
  if (R.schur_size()) sx_cover("dense last level"); if (tr) sx_cover("transposed"); if (mul) sx_cover("product"); a.same(); s.same(); b2.same();
  sx_assert(LF(Destroy)(M) == LHF_SUCCESS && LF(DestroyMatrix)(A) == LHF_SUCCESS && LF(DestroyMatrix)(S) == LHF_SUCCESS && LM(DestroyMatrix)(A2) == LHF_SUCCESS, "destroy"); a.same(); s.same(); }
  sx_assert(lh_live == 0 && sx_heap_live() == live0, "memory left after destroying the handles"); sx_assert(lhfGetErrorMsg() == nullptr, "error message without an error");
}
// ---- parameters
extern "C" void params() {
  double p[LHF_NUMBER_PARAMS + 1]; p[LHF_NUMBER_PARAMS] = 77; for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) p[i] = -55; const hif::Params d = hif::get_default_params();
  auto same = [](const hif::Params &a, const hif::Params &b) {
    sx_eq(a.tau_L, b.tau_L, "droptol L"); sx_eq(a.tau_U, b.tau_U, "droptol U"); sx_eq(a.kappa_d, b.kappa_d, "cond d"); sx_eq(a.kappa, b.kappa, "cond"); sx_eq(a.alpha_L, b.alpha_L, "alpha L"); sx_eq(a.alpha_U, b.alpha_U, "alpha U"); sx_eq(a.rrqr_cond, b.rrqr_cond, "rrqr"); sx_eq(a.beta, b.beta, "beta"); sx_eq(a.nzp_thres, b.nzp_thres, "nzp"); sx_eq(a.rho, b.rho, "rho"); sx_eq(a.c_d, b.c_d, "c_d"); sx_eq(a.c_h, b.c_h, "c_h"); sx_eq(a.rf_par, b.rf_par, "rf_par");
    sx_assert(a.N == b.N && a.verbose == b.verbose && a.reorder == b.reorder && a.check == b.check && a.pre_scale == b.pre_scale && a.symm_pre_lvls == b.symm_pre_lvls && a.threads == b.threads && a.mumps_blr == b.mumps_blr && a.fat_schur_1st == b.fat_schur_1st && a.pivot == b.pivot && a.is_symm == b.is_symm && a.no_pre == b.no_pre && a.dense_thres == b.dense_thres, "integer options");
  };
  sx_assert(lhfSetDefaultParams(p) == LHF_SUCCESS, "status"); sx_assert(p[LHF_NUMBER_PARAMS] == 77, "array overrun"); same(libhifir_impl::create_params(p), d);
  hif::Params e = d; const double v[LHF_NUMBER_PARAMS] = {sx_dbl("v", 1, 50, -2), sx_dbl("v", 51, 99, -2), sx_dbl("v", 100, 150, -2), sx_dbl("v", 151, 199, -2), sx_dbl("v", 200, 250, -2), sx_dbl("v", 251, 299, -2), 3, 2, 5, 7, sx_dbl("v", 300, 350, -2), 2, sx_dbl("v", 351, 399, -2), 1, 1, sx_dbl("v", 400, 450, -2), 123};
  const int which = sx_choose(LHF_NUMBER_PARAMS + 4);
  auto set = [&](int i) { switch (i) { case LHF_DROPTOL_L: e.tau_L = v[i]; break; case LHF_DROPTOL_U: e.tau_U = v[i]; break; case LHF_COND_D: e.kappa_d = v[i]; break; case LHF_COND: e.kappa = v[i]; break; case LHF_ALPHA_L: e.alpha_L = v[i]; break; case LHF_ALPHA_U: e.alpha_U = v[i]; break; case LHF_VERBOSE: e.verbose = v[i]; break; case LHF_REORDER: e.reorder = v[i]; break; case LHF_SYMMPRELVLS: e.symm_pre_lvls = v[i]; break; case LHF_THREADS: e.threads = v[i]; break; case LHF_RRQR_COND: e.rrqr_cond = v[i]; break; case LHF_PIVOT: e.pivot = v[i]; break; case LHF_BETA: e.beta = v[i]; break; case LHF_ISSYMM: e.is_symm = v[i]; break; case LHF_NOPRE: e.no_pre = v[i]; break; case LHF_NZP_THRES: e.nzp_thres = v[i]; break; case LHF_DENSE_THRES: e.dense_thres = v[i]; break; default: sx_assert(false, "position without a meaning"); } p[i] = v[i]; };
  if (which < LHF_NUMBER_PARAMS) set(which); else if (which == LHF_NUMBER_PARAMS) { for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) set(i); sx_cover("all"); }
  else if (which == LHF_NUMBER_PARAMS + 1) { sx_assert(lhfSetDroptol(v[0], p) == LHF_SUCCESS, "status"); e.tau_L = e.tau_U = v[0]; } else if (which == LHF_NUMBER_PARAMS + 2) { sx_assert(lhfSetAlpha(v[0], p) == LHF_SUCCESS, "status"); e.alpha_L = e.alpha_U = v[0]; } else { sx_assert(lhfSetKappa(v[0], p) == LHF_SUCCESS, "status"); e.kappa = e.kappa_d = v[0]; sx_cover("unified setters"); }
  same(libhifir_impl::create_params(p), e); int ver[4] = {-1, -1, -1, -9}; lhfGetVersions(ver); sx_assert(ver[0] == HIF_GLOBAL_VERSION && ver[1] == HIF_MAJOR_VERSION && ver[2] == HIF_MINOR_VERSION && ver[3] == -9, "versions"); sx_assert(lhfGetErrorMsg() == nullptr, "error message without an error");
}
// ---- matrix handles
extern "C" void handles() {
  Ar<tf> a, c; const int n = 1 + sx_choose(NN); const bool row = sx_choose(2); a.make(n, row, 0); c.make(NN, row, 2);
  const int nul = sx_choose(5); FMat A = LF(CreateMatrix)(row, nul == 1 ? 0 : n, nul == 2 ? nullptr : a.p, nul == 3 ? nullptr : a.i, nul == 4 ? nullptr : fp(a.v)); sx_assert(A != nullptr, "create");
  sx_assert(LF(GetMatrixSize)(A) == (size_t)(nul ? 0 : n) && LF(GetMatrixNnz)(A) == (size_t)(nul ? 0 : a.nz), "size of a created matrix"); if (nul) sx_cover("empty matrix");
  const int w = sx_choose(5); const LhfStatus z = LF(WrapMatrix)(A, w == 1 ? 0 : NN, w == 2 ? nullptr : c.p, w == 3 ? nullptr : c.i, w == 4 ? nullptr : fp(c.v)); sx_assert(z == (w ? LHF_NULL_OBJ : LHF_SUCCESS), "status of wrap");
  sx_assert(LF(GetMatrixSize)(A) == (size_t)(!w ? NN : nul ? 0 : n) && LF(GetMatrixNnz)(A) == (size_t)(!w ? c.nz : nul ? 0 : a.nz), "size of a wrapped matrix");
  sx_assert(LF(GetMatrixSize)(nullptr) == 0 && LF(GetMatrixNnz)(nullptr) == 0 && LF(WrapMatrix)(nullptr, NN, c.p, c.i, fp(c.v)) == LHF_NULL_OBJ && LF(DestroyMatrix)(nullptr) == LHF_SUCCESS, "null matrix"); 
  if (!w || !nul) {  // the wrapped arrays are used in place
    double par[LHF_NUMBER_PARAMS]; mkparams(par); HH M = LF(Create)(nullptr, A, par); sx_assert(M != nullptr, "create"); RM R; reffac(R, !w ? c : a, mkref()); sx_assert(LF(GetNnz)(M) == R.nnz() && LF(GetLevels)(M) == R.levels(), "factorized matrix"); const int N = !w ? NN : n; tv b[NN], x[NN]; hif::Array<tv> bb(N), xx(N); for (int i = 0; i < N; ++i) { mk(b[i], "b", -3, 3); bb[i] = b[i]; } sx_assert(LV(Solve)(M, vp(b), vp(x)) == LHF_SUCCESS, "solve"); R.solve(bb, xx); for (int i = 0; i < N; ++i) eqv(x[i], xx[i], "solution"); LF(Destroy)(M); sx_cover("used");
  }
  LF(DestroyMatrix)(A); a.same(); c.same(); sx_assert(lh_live == 0 && lhfGetErrorMsg() == nullptr, "memory left after destroying the handles");
}
// ---- misuse: every call comes back with the documented status
extern "C" void errors() {
  const long live0 = sx_heap_live(); {
  Ar<tf> a, s, bad; Ar<tv> b1, b2; a.make(NN, true, 2, true); s.make(NN, sx_choose(2), 0, true); bad.make(NN, sx_choose(2), 0, true); b1.make(NN - 1, true, 0, true); b2.make(NN, true, 2, true); const FMat A = fm(a), S = fm(s), B = fm(bad); const VMat V1 = vm(b1), V2 = vm(b2); Ar<tf> sm; sm.make(NN - 1, true, 0, true); const FMat A1 = fm(sm);
  tv b[NN], x[NN]; for (int i = 0; i < NN; ++i) { b[i] = tv(1); x[i] = tv(2); } double par[LHF_NUMBER_PARAMS]; mkparams(par); size_t st[9]; const LhfOperationType op[4] = {LHF_S, LHF_SH, LHF_M, LHF_MH}; const int o = sx_choose(4), nirs = 1 + 2 * (int)sx_choose(2); const bool ir = nirs > 1 && o < 2;
  auto err = [&](LhfStatus z, const char *l) { sx_assert(z == LHF_HIFIR_ERROR, l); const char *m = lhfGetErrorMsg(); sx_assert(m != nullptr && m[0], "error without a message"); sx_assert(lhfGetErrorMsg() == nullptr, "message not cleared"); };
  sx_assert(LV(Solve)(nullptr, vp(b), vp(x)) == LHF_NULL_OBJ && LV(Apply)(nullptr, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr) == LHF_NULL_OBJ && LF(Setup)(nullptr, A, S, par) == LHF_NULL_OBJ && LF(Refactorize)(nullptr, S, par) == LHF_NULL_OBJ && LV(Update)(nullptr, V2) == LHF_NULL_OBJ && LF(Destroy)(nullptr) == LHF_SUCCESS, "null handle");
  for (int i = 0; i < 9; ++i) st[i] = 5; sx_assert(LF(GetStats)(nullptr, st) == LHF_SUCCESS, "null handle"); for (int i = 0; i < 9; ++i) sx_assert(st[i] == 0, "statistics of a null handle"); sx_assert(LF(GetNnz)(nullptr) == 0 && LF(GetLevels)(nullptr) == 0 && LF(GetSchurSize)(nullptr) == 0 && LF(GetSchurRank)(nullptr) == 0, "null handle");
  HH M = LF(Create)(nullptr, nullptr, sx_choose(2) ? par : nullptr); sx_assert(M != nullptr, "empty handle"); sx_assert(lhfGetErrorMsg() == nullptr, "error message without an error");
  auto unusable = [&]() { LhfStatus z = LV(Solve)(M, vp(b), vp(x)); err(z, "solve with an unfactorized handle"); z = LV(Apply)(M, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr); sx_assert(z != LHF_SUCCESS, "apply with an unfactorized handle"); lhfGetErrorMsg(); for (int i = 0; i < 9; ++i) st[i] = 5; sx_assert(LF(GetStats)(M, st) == LHF_SUCCESS, "stats"); for (int i = 0; i < 9; ++i) sx_assert(st[i] == 0, "statistics of an empty handle"); sx_assert(LF(GetNnz)(M) == 0 && LF(GetLevels)(M) == 0 && LF(GetSchurSize)(M) == 0 && LF(GetSchurRank)(M) == 0, "empty handle"); };
  unusable(); sx_assert(LF(Setup)(M, nullptr, nullptr, par) == LHF_NULL_OBJ && LF(Refactorize)(M, nullptr, par) == LHF_NULL_OBJ, "null matrices"); sx_assert(LV(Update)(M, V2) == LHF_SUCCESS && LV(Update)(M, nullptr) == LHF_SUCCESS, "update before factorization"); unusable();
  // a malformed matrix: one offset or index arbitrary
  const int pos = sx_choose(NN + 1 + bad.nz); const long v = sx_choose(8) - 3; bool ok; if (pos <= NN) { ok = v == bad.p[pos]; if (pos) bad.p[pos] = v; else { ok = true; } } else { bad.i[pos - NN - 1] = v; ok = true; const int k = pos - NN - 1; if (v < 0 || v >= NN) ok = false; for (int j = 0; j < NN; ++j) if (k >= bad.p[j] && k < bad.p[j + 1]) for (int q = bad.p[j]; q < bad.p[j + 1]; ++q) if (q != k && bad.i[q] == v) ok = false; }
  if (sx_choose(2)) { sx_assert(LF(Setup)(M, A, S, par) == LHF_SUCCESS, "setup"); sx_cover("was factorized"); }
  if (!ok) { const int via = sx_choose(3); HH M2 = nullptr; if (via == 0) { M2 = LF(Create)(A, B, par); sx_assert(M2 == nullptr, "create on a malformed matrix"); err(LHF_HIFIR_ERROR, ""); } else { err(via == 1 ? LF(Setup)(M, A, B, par) : LF(Refactorize)(M, B, par), "malformed matrix"); unusable(); } sx_cover("malformed"); }
  sx_assert(LF(Setup)(M, A, S, par) == LHF_SUCCESS, "setup after an error"); sx_assert(LV(Solve)(M, vp(b), vp(x)) == LHF_SUCCESS, "solve after an error"); RM R; reffac(R, s, mkref()); hif::Array<tv> bb(NN), xx(NN); for (int i = 0; i < NN; ++i) bb[i] = tv(1); R.solve(bb, xx); for (int i = 0; i < NN; ++i) eqv(x[i], xx[i], "solution after an error");
  if (MIX && ir) sx_assert(LV(Apply)(M, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr) == LHF_NULL_OBJ, "refinement without a matrix");
  sx_assert(LV(Update)(M, V1) == LHF_MISMATCHED_SIZES, "update with another size"); sx_assert(LV(Apply)(M, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr) == (ir ? LHF_MISMATCHED_SIZES : LHF_SUCCESS), "refinement with another size"); sx_assert(LV(Update)(M, nullptr) == LHF_SUCCESS, "update with nothing"); sx_assert(LV(Apply)(M, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr) == (ir ? LHF_NULL_OBJ : LHF_SUCCESS), "refinement without a matrix"); sx_assert(LV(Update)(M, V2) == LHF_SUCCESS && LV(Apply)(M, op[o], vp(b), nirs, nullptr, -2, vp(x), nullptr) == LHF_SUCCESS, "apply after repairing"); if (ir) sx_cover("refinement"); sx_assert(lhfGetErrorMsg() == nullptr, "error message without an error");
  LF(Destroy)(M); LF(DestroyMatrix)(A); LF(DestroyMatrix)(S); LF(DestroyMatrix)(B); LF(DestroyMatrix)(A1); LM(DestroyMatrix)(V1); LM(DestroyMatrix)(V2); a.same(); s.same(); }
  sx_assert(lh_live == 0 && sx_heap_live() == live0, "memory left after destroying the handles");
}
// ---- creation when memory is short
extern "C" void oom() {
  const long live0 = sx_heap_live(); { Ar<tf> a; a.make(NN, true, 0); const int w = sx_choose(4); double par[LHF_NUMBER_PARAMS]; mkparams(par); FMat A = fm(a); sx_assert(A != nullptr, "create");
  if (w == 0) { lh_fail = 0; sx_assert(LF(CreateMatrix)(1, NN, a.p, a.i, fp(a.v)) == nullptr, "create without memory"); } else if (w == 1) { lh_fail = 0; sx_assert(LF(Create)(A, nullptr, par) == nullptr, "create without memory"); } else { sx_oom(0); const HH M = LF(Create)(w == 2 ? A : nullptr, nullptr, par); sx_oom(-1); sx_assert(M == nullptr, "create without memory"); sx_cover("object"); }
  lh_fail = -1; LF(DestroyMatrix)(A); } sx_assert(lh_live == 0 && sx_heap_live() == live0, "memory left after destroying the handles");
}
// ---- Matrix Market files through the C interface: query, allocate what was reported, read
static void putv(double v) { mf_dbl(v); } static void putv(float v) { mf_dbl(v); } template <class R> static void putv(const std::complex<R> &v) { mf_dbl(v.real()); mf_str(" "); mf_dbl(v.imag()); }
static tf negv(const tf &v) { return -v; }
extern "C" void files() {
  const long live0 = sx_heap_live(); {
  mf_reset(); const bool cx = !std::is_floating_point<tf>::value; const int kind = sx_choose(4); const char *KN[4] = {"general", "symmetric", "hermitian", "skew-symmetric"}; const int n = sx_choose(NN + 1); Pic<tf, NN> d(n, n); int cnt = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < (kind ? i + 1 : n); ++j) { d.p[i][j] = sx_choose(2); if (d.p[i][j]) { mk(d.v[i][j], "a", -9, 9); ++cnt; } }
  mf_str("%%MatrixMarket matrix coordinate "); mf_str(cx ? "complex " : "real "); mf_str(KN[kind]); mf_str("\n% c\n"); mf_int(n); mf_str(" "); mf_int(n); mf_str(" "); mf_int(cnt); mf_str("\n"); for (int i = n - 1; i >= 0; --i) for (int j = 0; j < n; ++j) if (d.p[i][j]) { mf_int(i + 1); mf_str(" "); mf_int(j + 1); mf_str(" "); putv(d.v[i][j]); mf_str("\n"); }
  if (kind) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (d.p[i][j]) { d.p[j][i] = true; d.v[j][i] = kind == 1 ? d.v[i][j] : kind == 2 ? cj(d.v[i][j]) : negv(d.v[i][j]); }
  int sp = -1, re = -1; size_t nr = 99, nc = 99, nz = 99; sx_assert(lhfQueryMmFile("f", &sp, &re, &nr, &nc, &nz) == LHF_SUCCESS, "query"); sx_assert(sp == 1 && re == !cx && nr == (size_t)n && nc == (size_t)n, "query"); sx_assert(nz == (size_t)d.nnz(), "reported number of nonzeros"); sx_assert(mf_opened == mf_closed, "file left open");
  const bool row = sx_choose(2); const int delta = sx_choose(2); const int N = n + delta; const size_t cz = sx_conc(nz); LhfIndPtr *p = (LhfIndPtr *)sx_malloc((N + 1) * sizeof(LhfIndPtr)); LhfInt *ix = (LhfInt *)sx_malloc(cz * sizeof(LhfInt) + 1); tf *v = (tf *)sx_malloc(cz * sizeof(tf) + 1); for (int k = 0; k <= N; ++k) p[k] = 0;
  FMat A = LF(CreateMatrix)(row, N, p, ix, fp(v)); const LhfStatus z = LF(ReadSparse)("f", A); sx_assert(mf_opened == mf_closed, "file left open"); sx_assert(LF(ReadSparse)("f", nullptr) == LHF_NULL_OBJ, "null matrix");
  if (delta && N) { sx_assert(z == LHF_MISMATCHED_SIZES, "size mismatch"); for (int k = 0; k <= N; ++k) sx_assert(p[k] == 0, "arrays touched on mismatch"); sx_cover("mismatch"); }
  else if (N) { sx_assert(z == LHF_SUCCESS, "read"); sx_assert(LF(GetMatrixNnz)(A) == cz, "entries read"); for (int i = 0; i < n; ++i) for (long k = p[i]; k < (long)p[i + 1]; ++k) { const int a = row ? i : ix[k], b = row ? ix[k] : i; sx_assert(ix[k] >= 0 && ix[k] < n && d.p[a][b], "pattern read"); eqv(v[k], d.v[a][b], "value read"); } if (kind && d.nnz() != cnt) sx_cover("symmetric"); }
  else sx_assert(z == LHF_SUCCESS || z == LHF_NULL_OBJ, "reading into an empty matrix");
  LF(DestroyMatrix)(A); sx_free(p); sx_free(ix); sx_free(v); } 
  sx_assert(lh_live == 0 && lhfGetErrorMsg() == nullptr, "error message without an error");
}
extern "C" void vectors() {
  mf_reset(); const bool cx = !std::is_floating_point<tf>::value; const int n = sx_choose(NN + 1), m = sx_choose(NN + 2); tf v[NN]; mf_str("%%MatrixMarket matrix array "); mf_str(cx ? "complex " : "real "); mf_str("general\n"); mf_int(n); mf_str(" 1\n"); for (int i = 0; i < n; ++i) { mk(v[i], "a", -9, 9); putv(v[i]); mf_str("\n"); }
  int sp = -1, re = -1; size_t nr = 99, nc = 99, nz = 99; sx_assert(lhfQueryMmFile("f", &sp, &re, &nr, &nc, &nz) == LHF_SUCCESS, "query"); sx_assert(sp == 0 && re == !cx && nr == (size_t)n && nz == 0, "query");
  tf *x = (tf *)sx_malloc(m * sizeof(tf) + 1); for (int i = 0; i < m; ++i) x[i] = tf(-5); const LhfStatus z = LF(ReadVector)("f", m, (CF *)x); sx_assert(z == (m == n ? LHF_SUCCESS : LHF_MISMATCHED_SIZES), "status of reading a vector"); for (int i = 0; i < m; ++i) if (m == n) eqv(x[i], v[i], "vector"); else eqv(x[i], tf(-5), "array touched on mismatch"); if (m == n) sx_cover("read"); sx_free(x); sx_assert(mf_opened == mf_closed && lhfGetErrorMsg() == nullptr, "file left open");
}
static const char *BADF[] = {"", "%%MatrixMarket matrix coordinate real\n", "%%MatrixMarket matrix coordinate pattern general\n1 1 0\n", "%%MatrixMarket matrix coordinate real general\n1 1\n", "%%MatrixMarket matrix coordinate real general\n1 1 2\n1 1 5\n", "%%MatrixMarket matrix coordinate real symmetric\n1 1 2\n1 1 5\n", "%%MatrixMarket matrix coordinate real general\n1 1 1\n2 1 5\n", "%%MatrixMarket matrix array real general\n-1 1\n", "%%MatrixMarket matrix array complex general\nx y\n", "%%MatrixMarket matrix array real general\n3 1\n1\n2\n", "nothing\n"};
extern "C" void badfiles() {  // nothing escapes the C interface
  mf_reset(); const int NB = sizeof(BADF) / sizeof(*BADF), k = sx_choose(NB + 1); if (k == NB) mf.exists = false; else mf_str(BADF[k]); int sp, re; size_t a, b, c; const int w = sx_choose(3); LhfStatus z; bool esc = false; LhfIndPtr p[2] = {0, 0}; LhfInt ix[1]; tf v[3]; FMat A = LF(CreateMatrix)(sx_choose(2), 1, p, ix, fp(v));
  try { z = w == 0 ? lhfQueryMmFile("f", &sp, &re, &a, &b, &c) : w == 1 ? LF(ReadSparse)("f", A) : LF(ReadVector)("f", 3, (CF *)v); } catch (...) { esc = true; } sx_assert(!esc, "exception escapes the C interface"); sx_assert(mf_opened == mf_closed, "file left open"); const bool lazy = w == 0 && (k == 4 || k == 6 || k == 9); sx_assert((z != LHF_SUCCESS) == !lazy, "malformed file must be refused"); if (z == LHF_HIFIR_ERROR) { sx_assert(lhfGetErrorMsg() != nullptr, "error without a message"); sx_cover("message"); } LF(DestroyMatrix)(A);
}
