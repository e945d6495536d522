// Contracts of the LAPACK/BLAS routines used by the dense solvers.  Factorizations check that they are given the matrix mA and
// return the decomposition chosen by the harness; solves, products and reflector applications are computed by definition from the
// memory the caller passes.  Workspaces and outputs are overwritten as LAPACK is allowed to.
#ifndef LAPACKSTUB_HPP
#define LAPACKSTUB_HPP
static int kind, mN, calls_f, est_n; static bool mtiny, est_fix; static TA mA[NN][NN], F[NN][NN], mtau[NN]; static int mpiv[NN]; static RT mw[NN], est[3][NN + 1];
static TA xv[3][NN + 1]; static RT sv[3]; static int xj[3];
#define CT2(a, b) a##b
#define CT(a, b) CT2(a, b)
typedef hif_lapack_int LI;
#ifdef CX
#define ORM unmqr_
#define SYE heev_
typedef void *RWP;
#else
#define ORM ormqr_
#define SYE syev_
#endif
static void chkA(const TA *A, int lda, int tri, const char *l) { for (int j = 0; j < mN; ++j) for (int i = 0; i < mN; ++i) if (tri == 0 || (tri == 1 ? i >= j : i <= j)) eqv(A[i + (long)j * lda], mA[i][j], l); }
static void putF(TA *A, int lda) { for (int j = 0; j < mN; ++j) for (int i = 0; i < mN; ++i) A[i + (long)j * lda] = F[i][j]; }
static bool isreal() { return !std::is_same<TA, zc>::value && !std::is_same<TA, cc>::value; }
static char okt(char c) { return c == 'N' || c == 'C' || c == 'T'; }
static TA opx(char t, const TA &v) { return t == 'C' ? cj(v) : v; }
static TA divx(const TA &a, const TA &b) { return a / b; }
extern "C" {
void CT(LP, getrf_)(LI *m, LI *n, PT a, LI *lda, LI *ipiv, LI *info) {
  sx_assert(kind == 1 && *m == mN && *n == mN && *lda >= mN, "getrf arguments"); TA *A = (TA *)a; chkA(A, *lda, 0, "getrf is given the matrix"); putF(A, *lda); *info = 0; ++calls_f;
  for (int i = 0; i < mN; ++i) ipiv[i] = mpiv[i]; for (int i = mN - 1; i >= 0; --i) if (F[i][i] == TA(0)) *info = i + 1;
}
void CT(LP, getrs_)(char *tr, LI *n, LI *nrhs, PT a, LI *lda, LI *ipiv, PT b, LI *ldb, LI *info) {
  const int N = *n, ld = *lda; const char t = *tr; sx_assert(kind == 1 && okt(t) && N == mN && ld >= N && *ldb >= N && *nrhs >= 0, "getrs arguments"); *info = 0; const TA *A = (const TA *)a;
  for (int c = 0; c < *nrhs; ++c) {
    TA *x = (TA *)b + (long)c * *ldb;
    if (t == 'N') { for (int i = 0; i < N; ++i) { const int p = ipiv[i] - 1; TA s = x[i]; x[i] = x[p]; x[p] = s; } for (int j = 0; j < N; ++j) for (int i = j + 1; i < N; ++i) x[i] -= mulx(A[i + (long)j * ld], x[j]); for (int j = N - 1; j >= 0; --j) { x[j] = divx(x[j], A[j + (long)j * ld]); for (int i = 0; i < j; ++i) x[i] -= mulx(A[i + (long)j * ld], x[j]); } }
    else { for (int j = 0; j < N; ++j) { for (int i = 0; i < j; ++i) x[j] -= mulx(opx(t, A[i + (long)j * ld]), x[i]); x[j] = divx(x[j], opx(t, A[j + (long)j * ld])); } for (int j = N - 1; j >= 0; --j) for (int i = j + 1; i < N; ++i) x[j] -= mulx(opx(t, A[i + (long)j * ld]), x[i]); for (int i = N - 1; i >= 0; --i) { const int p = ipiv[i] - 1; TA s = x[i]; x[i] = x[p]; x[p] = s; } }
  }
}
#ifdef CX
void CT(LP, geqp3_)(LI *m, LI *n, PT a, LI *lda, LI *jpvt, PT tau, PT work, LI *lwork, RT *rwork, LI *info) {
#else
void CT(LP, geqp3_)(LI *m, LI *n, PT a, LI *lda, LI *jpvt, PT tau, PT work, LI *lwork, LI *info) {
#endif
  sx_assert(kind == 2 && *m == mN && *n == mN && *lda >= mN, "geqp3 arguments"); *info = 0; const int need = 3 * mN + 1; if (*lwork == -1) { *(TA *)work = TA(need); return; } sx_assert(*lwork >= need, "geqp3 workspace");
  TA *A = (TA *)a; for (int i = 0; i < mN; ++i) sx_assert(jpvt[i] == 0, "every column must be free"); chkA(A, *lda, 0, "geqp3 is given the matrix"); putF(A, *lda); ++calls_f; est_n = 0;
  for (int i = 0; i < mN; ++i) { jpvt[i] = mpiv[i]; ((TA *)tau)[i] = mtau[i]; } for (int i = 0; i < *lwork; ++i) ((TA *)work)[i] = TA(-77);
#ifdef CX
  for (int i = 0; i < 2 * mN; ++i) rwork[i] = RT(-77);
#endif
  for (int k = 1; k < 3; ++k) { xj[k] = 0; for (int i = 0; i <= NN; ++i) est[k][i] = RT(-1); }
}
void CT(LP, ORM)(char *side, char *tr, LI *m, LI *n, LI *k, PT a, LI *lda, PT tau, PT c, LI *ldc, PT work, LI *lwork, LI *info) {
  const char t = *tr; const int M = *m, N = *n, K = *k; sx_assert(*side == 'L' && (t == 'N' || t == (isreal() ? 'T' : 'C')) && M >= 0 && N >= 0 && K >= 0 && K <= M && *lda >= M && *ldc >= M, "ormqr arguments"); *info = 0;
  const int need = 2 * N + 1; if (*lwork == -1) { *(TA *)work = TA(need); return; } sx_assert(*lwork >= need, "ormqr workspace"); for (int i = 0; i < *lwork; ++i) ((TA *)work)[i] = TA(-77);
  for (int j = 0; j < N; ++j) { TA *x = (TA *)c + (long)j * *ldc; for (int q = 0; q < K; ++q) { const int i = t == 'N' ? K - 1 - q : q; const TA *v = (const TA *)a + (long)i * *lda; TA d = x[i]; for (int r = i + 1; r < M; ++r) d += mulx(cj(v[r]), x[r]); d = mulx(t == 'N' ? ((TA *)tau)[i] : cj(((TA *)tau)[i]), d); x[i] -= d; for (int r = i + 1; r < M; ++r) x[r] -= mulx(v[r], d); } }
}
#ifdef CX
void CT(LP, laic1_)(LI *job, LI *j, PT x, RT *sest, PT w, PT gamma, RT *sp, PT s, PT c) {
#else
void CT(LP, laic1_)(LI *job, LI *j, PT x, RT *sest, PT w, PT gamma, RT *sp, PT s, PT c) {
#endif
  const int k = *job, J = *j; TA *S = (TA *)s, *C = (TA *)c; const TA *X = (const TA *)x, *W = (const TA *)w; sx_assert((k == 1 || k == 2) && J >= 0 && J < mN, "laic1 arguments"); ++est_n;
  eqv(*(const TA *)gamma, F[J][J], "laic1: diagonal entry"); for (int i = 0; i < J; ++i) eqv(W[i], F[i][J], "laic1: column of the triangular factor");
  if (J == 0) { *sp = hif::abs(F[0][0]); *S = TA(k == 1); *C = TA(k == 2); xj[k] = 1; xv[k][0] = *C; sv[k] = *sp; return; }
  if (!xj[k]) { xj[k] = 1; xv[k][0] = X[0]; sv[k] = hif::abs(F[0][0]); eqv(hif::abs(X[0]), RT(1), "laic1: starting vector must have norm one"); }
  sx_assert(xj[k] == J, "laic1: leading block grows by one"); RT nr = 0; for (int i = 0; i < J; ++i) { eqv(X[i], xv[k][i], "laic1: singular vector"); nr += hif::abs(X[i]); } sx_assert(nr == RT(1), "laic1: singular vector must have norm one"); eqv(*sest, sv[k], "laic1: estimate of the leading block");
  const int w2 = est_fix ? 0 : sx_choose(2); *S = TA(w2); *C = TA(1 - w2);
  if (k == 1) *sp = RT(8); else { const int e = est_fix ? (mtiny || hif::abs(F[J][J]) == RT(0) ? 2 : 0) : sx_choose(3); *sp = e == 0 ? RT(1) : e == 1 ? RT(1) / RT(1 << 12) : RT(0); if (mtiny && e == 2) *sp = RT(1) / RT(sizeof(RT) == 8 ? 1l << 50 : 1l << 30); }
  est[k][J] = *sp; for (int i = 0; i < J; ++i) xv[k][i] = mulx(xv[k][i], *S); xv[k][J] = *C; sv[k] = *sp; xj[k] = J + 1;
}
void CT(LP, trsv_)(char *up, char *tr, char *dg, LI *n, PT a, LI *lda, PT x, LI *incx) {
  const int N = *n, ld = *lda, ic = *incx; const char t = *tr; sx_assert(*up == 'U' && *dg == 'N' && okt(t) && N >= 0 && ic == 1 && ld >= (N > 1 ? N : 1), "trsv arguments"); const TA *A = (const TA *)a; TA *X = (TA *)x;
  if (t == 'N') for (int j = N - 1; j >= 0; --j) { X[j] = divx(X[j], A[j + (long)j * ld]); for (int i = 0; i < j; ++i) X[i] -= mulx(A[i + (long)j * ld], X[j]); }
  else for (int j = 0; j < N; ++j) { for (int i = 0; i < j; ++i) X[j] -= mulx(opx(t, A[i + (long)j * ld]), X[i]); X[j] = divx(X[j], opx(t, A[j + (long)j * ld])); }
}
void CT(LP, trmv_)(char *up, char *tr, char *dg, LI *n, PT a, LI *lda, PT x, LI *incx) {
  const int N = *n, ld = *lda, ic = *incx; const char t = *tr; sx_assert(*up == 'U' && *dg == 'N' && okt(t) && N >= 0 && ic == 1 && ld >= (N > 1 ? N : 1), "trmv arguments"); const TA *A = (const TA *)a; TA *X = (TA *)x;
  if (t == 'N') for (int i = 0; i < N; ++i) { TA s = TA(0); for (int j = i; j < N; ++j) s += mulx(A[i + (long)j * ld], X[j]); X[i] = s; }
  else for (int i = N - 1; i >= 0; --i) { TA s = TA(0); for (int j = 0; j <= i; ++j) s += mulx(opx(t, A[j + (long)i * ld]), X[j]); X[i] = s; }
}
void CT(LP, gemv_)(char *tr, LI *m, LI *n, PT al, PT a, LI *lda, PT x, LI *incx, PT be, PT y, LI *incy) {
  const int M = *m, N = *n, ld = *lda; const char t = *tr; sx_assert(okt(t) && *incx == 1 && *incy == 1 && ld >= M, "gemv arguments"); const TA *A = (const TA *)a, *X = (const TA *)x; TA *Y = (TA *)y; const TA alpha = *(const TA *)al, beta = *(const TA *)be;
  const int R = t == 'N' ? M : N, S = t == 'N' ? N : M; sx_assert(X != Y, "gemv operands must not overlap");
  for (int i = 0; i < R; ++i) { TA s = TA(0); for (int j = 0; j < S; ++j) s += mulx(t == 'N' ? A[i + (long)j * ld] : opx(t, A[j + (long)i * ld]), X[j]); if (!(alpha == TA(1))) s = mulx(alpha, s); Y[i] = beta == TA(0) ? s : s + mulx(beta, Y[i]); }
}
#ifdef CX
void CT(LP, SYE)(char *jz, char *up, LI *n, PT a, LI *lda, RT *w, PT work, LI *lwork, RT *rwork, LI *info) {
#else
void CT(LP, SYE)(char *jz, char *up, LI *n, PT a, LI *lda, RT *w, PT work, LI *lwork, LI *info) {
#endif
  sx_assert(kind == 3 && *jz == 'V' && (*up == 'L' || *up == 'U') && *n == mN && *lda >= mN, "syev arguments"); *info = 0; const int need = isreal() ? 3 * mN + 2 : 2 * mN; if (*lwork == -1) { *(TA *)work = TA(need); return; }
  sx_assert(*lwork >= (isreal() ? 3 * mN - 1 : 2 * mN - 1), "syev workspace"); for (int i = 0; i < *lwork; ++i) ((TA *)work)[i] = TA(-77); TA *A = (TA *)a; chkA(A, *lda, *up == 'L' ? 1 : 2, "syev is given the matrix"); putF(A, *lda); for (int i = 0; i < mN; ++i) w[i] = mw[i]; ++calls_f;
#ifdef CX
  for (int i = 0; i < 3 * mN - 2; ++i) rwork[i] = RT(-77);
#endif
}
}
#endif
