// Builders of symbolic matrices/vectors and comparison helpers shared by the harnesses.  Include after the library headers.
#ifndef SX_COMMON_HPP
#define SX_COMMON_HPP
#include <complex>
#include <array>
typedef std::complex<double> zc;
typedef std::complex<float> cc;
inline void mk(double &v, const char *n, long lo, long hi, int e = 0) { v = sx_dbl(n, lo, hi, e); }
inline void mk(float &v, const char *n, long lo, long hi, int e = 0) { v = (float)sx_dbl(n, lo, hi, e); }
template <class R> inline void mk(std::complex<R> &v, const char *n, long lo, long hi, int e = 0) { R a, b; mk(a, n, lo, hi, e); mk(b, n, lo, hi, e); v = std::complex<R>(a, b); }
inline void eqv(double a, double b, const char *l) { sx_eq(a, b, l); }
inline void eqv(float a, float b, const char *l) { sx_eq(a, b, l); }
inline void eqv(double a, float b, const char *l) { sx_eq(a, b, l); }
inline void eqv(float a, double b, const char *l) { sx_eq(a, b, l); }
template <class R, class S> inline void eqv(const std::complex<R> &a, const std::complex<S> &b, const char *l) { sx_eq(a.real(), b.real(), l); sx_eq(a.imag(), b.imag(), l); }
template <class R> inline void eqv(const std::complex<R> &a, double b, const char *l) { sx_eq(a.real(), b, l); sx_eq(a.imag(), 0.0, l); }
inline double cj(double a) { return a; }
inline float cj(float a) { return a; }
template <class R> inline std::complex<R> cj(const std::complex<R> &a) { return std::complex<R>(a.real(), -a.imag()); }
template <class T> inline T mulx(const T &a, const T &b) { return a * b; }
template <class R> inline std::complex<R> mulx(const std::complex<R> &a, const std::complex<R> &b) { return std::complex<R>(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
// dense picture of a sparse matrix: p = stored entry, v = value (0 where not stored)
template <class T, int MX> struct Pic {
  int n, m; bool p[MX][MX]; T v[MX][MX];
  Pic(int n_ = 0, int m_ = 0) : n(n_), m(m_) { for (int i = 0; i < MX; ++i) for (int j = 0; j < MX; ++j) { p[i][j] = false; v[i][j] = T(0); } }
  int nnz() const { int c = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c += p[i][j]; return c; }
  Pic tr() const { Pic t(m, n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { t.p[j][i] = p[i][j]; t.v[j][i] = v[i][j]; } return t; }
  Pic sub(int i0, int i1, int j0, int j1) const { Pic t(i1 - i0, j1 - j0); for (int i = i0; i < i1; ++i) for (int j = j0; j < j1; ++j) { t.p[i - i0][j - j0] = p[i][j]; t.v[i - i0][j - j0] = v[i][j]; } return t; }
};
enum { ANY = 0, SLOW = 1, SUPP = 2 };  // whole matrix, strictly lower, strictly upper part
template <class T, int MX> void mkpic(Pic<T, MX> &d, long lo, long hi, int kind = ANY, int e = 0) {
  for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) {
    if (kind == SLOW && j >= i) continue; if (kind == SUPP && j <= i) continue;
    d.p[i][j] = sx_choose(2); if (d.p[i][j]) mk(d.v[i][j], "a", lo, hi, e);
  }
}
template <class S, class T, int MX> S mkcrs(const Pic<T, MX> &d, bool rev = false) {
  S A(d.n, d.m); auto &st = A.row_start(); st.resize(d.n + 1); st[0] = 0; A.col_ind().reserve(d.nnz() + 1); A.vals().reserve(d.nnz() + 1);
  for (int i = 0; i < d.n; ++i) { for (int k = 0; k < d.m; ++k) { int j = rev ? d.m - 1 - k : k; if (d.p[i][j]) { A.col_ind().push_back(j); A.vals().push_back(d.v[i][j]); } } st[i + 1] = A.col_ind().size(); }
  return A;
}
template <class S, class T, int MX> S mkccs(const Pic<T, MX> &d, bool rev = false) {
  S A(d.n, d.m); auto &st = A.col_start(); st.resize(d.m + 1); st[0] = 0; A.row_ind().reserve(d.nnz() + 1); A.vals().reserve(d.nnz() + 1);
  for (int j = 0; j < d.m; ++j) { for (int k = 0; k < d.n; ++k) { int i = rev ? d.n - 1 - k : k; if (d.p[i][j]) { A.row_ind().push_back(i); A.vals().push_back(d.v[i][j]); } } st[j + 1] = A.row_ind().size(); }
  return A;
}
// the stored compressed structure (P primary vectors) describes exactly pic; sorted = indices must be increasing; vals = compare values
template <class ST, class IN, class VA, class F> void chkcs(long P, long Q, const ST &st, const IN &in, const VA &va, F at, bool sorted, bool vals, const char *l) {
  sx_assert((long)st.size() >= P + 1, l); sx_assert(st[0] == 0, l);
  for (long i = 0; i < P; ++i) sx_assert(st[i] <= st[i + 1], l);
  sx_assert((long)in.size() >= (long)st[P], l); if (vals) sx_assert((long)va.size() >= (long)st[P], l);
  for (long i = 0; i < P; ++i) {
    unsigned long seen = 0; long prev = -1;
    for (long k = st[i]; k < (long)st[i + 1]; ++k) {
      long j = in[k]; sx_assert(j >= 0 && j < Q, l); sx_assert(!(seen >> j & 1), l); seen |= 1ul << j; if (sorted) sx_assert(j > prev, l); prev = j;
      sx_assert(at(i, j, true, va, k, vals), l);
    }
    for (long j = 0; j < Q; ++j) if (!(seen >> j & 1)) sx_assert(!at(i, j, false, va, 0, false), l);
  }
}
template <class S, class T, int MX> void chkcrs(const S &A, const Pic<T, MX> &d, bool sorted, const char *l, bool vals = true) {
  sx_assert((long)A.nrows() == d.n, l); sx_assert((long)A.ncols() == d.m, l);
  chkcs(d.n, d.m, A.row_start(), A.col_ind(), A.vals(), [&](long i, long j, bool have, const typename S::array_type &va, long k, bool vv) -> bool { if (have && vv && d.p[i][j]) eqv(va[k], d.v[i][j], l); return d.p[i][j]; }, sorted, vals, l);
}
template <class S, class T, int MX> void chkccs(const S &A, const Pic<T, MX> &d, bool sorted, const char *l, bool vals = true) {
  sx_assert((long)A.nrows() == d.n, l); sx_assert((long)A.ncols() == d.m, l);
  chkcs(d.m, d.n, A.col_start(), A.row_ind(), A.vals(), [&](long j, long i, bool have, const typename S::array_type &va, long k, bool vv) -> bool { if (have && vv && d.p[i][j]) eqv(va[k], d.v[i][j], l); return d.p[i][j]; }, sorted, vals, l);
}
// case-split permutation of 0..n-1
inline void mkperm(int n, int *p) { for (int i = 0; i < n; ++i) p[i] = i; for (int i = 0; i < n; ++i) { int k = i + sx_choose(n - i); int t = p[i]; p[i] = p[k]; p[k] = t; } }
#endif
