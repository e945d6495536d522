// A multilevel preconditioner with symbolic contents, its exact operator M (and M^H) by definition, and its construction.
#ifndef MG_HPP
#define MG_HPP
#ifndef NDMAX
#define NDMAX 2
#endif
#ifndef RG
#define RG 1
#endif
inline void imag_unit(double &d, double v) { d = v; }
inline void imag_unit(float &d, double v) { d = (float)v; }
template <class R> inline void imag_unit(std::complex<R> &d, double v) { d = std::complex<R>(0, v); }
template <class T> struct MgLev { int n, m; bool fl, fe; T L[4][4], U[4][4], E[4][4], F[4][4], d[4]; double s[4], t[4]; int p[4], q[4]; };
template <class T> struct Mg {
  int lv = 0, nd = 0; bool symm = false; MgLev<T> l[4]; T S[4][4];
  // structure by case split, contents symbolic.  maxlv: number of sparse levels, dense last level optional
  void make(int n, int maxlv, int perms) {
    for (;;) {
      MgLev<T> &a = l[lv]; a.n = n;
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a.L[i][j] = a.U[i][j] = a.E[i][j] = a.F[i][j] = T(0);
      a.m = sx_choose(n + 1); const bool last = a.m == n || a.m == 0 || lv + 1 == maxlv || sx_choose(2);
      const double sc[4] = {1, 2, 0.5, 4}, tc[4] = {2, 0.25, 1, 8};
      for (int i = 0; i < n; ++i) { a.s[i] = sc[(i + lv) % 4]; a.t[i] = tc[(i + lv) % 4]; a.p[i] = n - 1 - i; a.q[i] = (i + 1 + lv) % n; }
      if (perms > 1 || (perms == 1 && !lv)) { mkperm(n, a.p); mkperm(n, a.q); }
      a.fl = a.m > 1 && sx_choose(2); a.fe = a.m && a.m < n && sx_choose(2);
      for (int i = 0; i < a.m; ++i) { if (i % 2) imag_unit(a.d[i], -2); else a.d[i] = T(lv % 2 ? -4 : 2); for (int j = 0; j < i; ++j) if (a.fl) { mk(a.L[i][j], "l", -RG, RG); mk(a.U[j][i], "u", -RG, RG); } }
      for (int i = 0; i < n - a.m; ++i) for (int j = 0; j < a.m; ++j) if (a.fe) { mk(a.E[i][j], "e", -RG, RG); mk(a.F[j][i], "f", -RG, RG); }
      ++lv; n -= a.m;
      if (last) { nd = n; break; }
    }
    if (!nd) return;
    symm = sx_choose(2);
    T sl[4][4], su[4][4], sd[4];
    for (int i = 0; i < nd; ++i) { for (int j = 0; j < nd; ++j) sl[i][j] = su[i][j] = T(i == j); }
    for (int i = 0; i < nd; ++i) {
      if (i % 2 == 0 && !symm) imag_unit(sd[i], 2); else sd[i] = T(-1);
      for (int j = nd > NDMAX ? i - 1 : 0; j < i; ++j) if (j >= 0) { mk(sl[i][j], "sl", -RG, RG); if (symm) su[j][i] = cj(sl[i][j]); else mk(su[j][i], "su", -RG, RG); }
    }
    for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) { S[i][j] = T(0); for (int k = 0; k <= i && k <= j; ++k) S[i][j] += mulx(mulx(sl[i][k], sd[k]), su[k][j]); }
  }
  template <class V> static void tri(const V (&A)[4][4], int m, V *x, bool low, bool herm) {  // x <- (I+A)^{-1} x, or with A^H (low: lower after conjugation)
    if (low) { for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) x[i] -= mulx(herm ? cj(A[j][i]) : A[i][j], x[j]); }
    else { for (int i = m - 1; i >= 0; --i) for (int j = i + 1; j < m; ++j) x[i] -= mulx(herm ? cj(A[j][i]) : A[i][j], x[j]); }
  }
  template <class V> static V over(const V &x, const V &d) { return x / d; }
  // y = M_k x (or M_k^H x)
  void mul(int k, const T *x, T *y, bool tr) const {
    if (k == lv) { for (int i = 0; i < nd; ++i) { y[i] = T(0); for (int j = 0; j < nd; ++j) y[i] += mulx(tr ? cj(S[j][i]) : S[i][j], x[j]); } return; }
    const MgLev<T> &a = l[k]; const int n = a.n, m = a.m; T w[4], o[4], g[4], z[4], b[4];
    for (int i = 0; i < n; ++i) { const int j = tr ? a.p[i] : a.q[i]; w[i] = x[j] * T(1 / (tr ? a.s[j] : a.t[j])); }
    // B u
    for (int i = 0; i < m; ++i) { g[i] = w[i]; for (int j = 0; j < m; ++j) if (j != i) g[i] += mulx(tr ? cj(a.L[j][i]) : a.U[i][j], w[j]); g[i] = mulx(g[i], tr ? cj(a.d[i]) : a.d[i]); }
    for (int i = 0; i < m; ++i) { o[i] = g[i]; for (int j = 0; j < m; ++j) if (j != i) o[i] += mulx(tr ? cj(a.U[j][i]) : a.L[i][j], g[j]); }
    // z = F r (E^H r), then B^{-1} z
    for (int i = 0; i < m; ++i) { z[i] = T(0); for (int j = 0; j < n - m; ++j) z[i] += mulx(tr ? cj(a.E[j][i]) : a.F[i][j], w[m + j]); o[i] += z[i]; }
    if (tr) tri(a.U, m, z, true, true); else tri(a.L, m, z, true, false);
    for (int i = 0; i < m; ++i) z[i] = z[i] / (tr ? cj(a.d[i]) : a.d[i]);
    if (tr) tri(a.L, m, z, false, true); else tri(a.U, m, z, false, false);
    if (n > m) mul(k + 1, w + m, b, tr);
    for (int i = 0; i < n - m; ++i) { o[m + i] = b[i]; for (int j = 0; j < m; ++j) o[m + i] += mulx(tr ? cj(a.F[j][i]) : a.E[i][j], w[j] + z[j]); }
    for (int i = 0; i < n; ++i) { const int j = tr ? a.q[i] : a.p[i]; y[j] = o[i] * T(1 / (tr ? a.t[j] : a.s[j])); }
  }
  template <class H> void build(H &h) const {
    typedef typename H::prec_type P; typedef typename P::mat_type ccs;
    for (int k = 0; k < lv; ++k) {
      const MgLev<T> &a = l[k]; const int n = a.n, m = a.m, r = n - m; typedef Pic<T, 4> pic;
      pic L(m, m), U(m, m), E(r, m), F(m, r);
      for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { if (a.fl && j < i) { L.p[i][j] = true; L.v[i][j] = a.L[i][j]; } if (a.fl && j > i) { U.p[i][j] = true; U.v[i][j] = a.U[i][j]; } }
      for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) if (a.fe) { E.p[i][j] = F.p[j][i] = true; E.v[i][j] = a.E[i][j]; F.v[j][i] = a.F[j][i]; }
      typename P::array_type d(m); typename P::sarray_type s(n), t(n); typename P::perm_type p(n), pi(n), q(n), qi(n);
      for (int i = 0; i < m; ++i) d[i] = a.d[i];
      for (int i = 0; i < n; ++i) { s[i] = a.s[i]; t[i] = a.t[i]; p[i] = a.p[i]; q[i] = a.q[i]; pi[a.p[i]] = i; qi[a.q[i]] = i; }
      h.precs().emplace_back(m, n, mkccs<ccs>(L), std::move(d), mkccs<ccs>(U), mkccs<ccs>(E), mkccs<ccs>(F), std::move(s), std::move(t), std::move(p), std::move(pi), std::move(q), std::move(qi));
    }
    if (nd) {
      P &b = h.precs().back(); hif::DenseMatrix<T> D(nd, nd); for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) D(i, j) = S[i][j];
      if (symm) { b.symm_dense_solver.set_matrix(std::move(D)); b.symm_dense_solver.factorize(hif::get_default_options()); }
      else { b.dense_solver.set_matrix(std::move(D)); b.dense_solver.factorize(hif::get_default_options()); }
    }
  }
};
#endif
