// every level of a factorization is the block decomposition it claims to be (P11)
template <class M> static void dens(const M &A, int n, int m, TA (&o)[NN][NN], int kind, const char *l) {
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o[i][j] = TA(0);
  if (!n || !m) { sx_assert(A.nnz() == 0, l); return; }
  sx_assert((int)A.nrows() == n, l); sx_assert((int)A.ncols() == m, l);
  const auto &st = A.col_start(); sx_assert((int)st.size() >= m + 1, l); sx_assert(st[0] == 0, l);
  for (int j = 0; j < m; ++j) sx_assert(st[j] <= st[j + 1], l);
  sx_assert((long)A.row_ind().size() >= (long)st[m], l); sx_assert((long)A.vals().size() >= (long)st[m], l);
  for (int j = 0; j < m; ++j) { int prev = -1; for (int k = st[j]; k < (int)st[j + 1]; ++k) { const int i = A.row_ind()[k]; sx_assert(i > prev && i < n, l); if (kind == SLOW) sx_assert(i > j, l); if (kind == SUPP) sx_assert(i < j, l); prev = i; o[i][j] = A.vals()[k]; } }
}
template <class P, class Q> static void chkbij(const P &p, const Q &pi, int n, const char *l) {
  unsigned seen = 0; sx_assert((int)p.size() >= n && (int)pi.size() >= n, l);
  for (int i = 0; i < n; ++i) { const int k = p[i]; sx_assert(k >= 0 && k < n, l); sx_assert(!(seen >> k & 1), l); seen |= 1u << k; sx_assert((int)pi[k] == i, l); }
}
template <class HH> static void chklevels(const HH &h, const pic &a, bool values = true) {
  TA cur[NN][NN], hat[NN][NN], L[NN][NN], U[NN][NN], E[NN][NN], F[NN][NN], X[NN][NN]; int n = a.n; bool done = false;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cur[i][j] = a.v[i][j];
  for (auto it = h.precs().cbegin(); it != h.precs().cend(); ++it) {
    const auto &q = *it; sx_assert(!done, "level after the last level"); sx_assert((int)q.n == n, "level size"); const int m = q.m, r = n - m; sx_assert(m >= 0 && m <= n, "leading size");
    chkbij(q.p, q.p_inv, n, "row permutation"); chkbij(q.q, q.q_inv, n, "column permutation");
    sx_assert((int)q.s.size() >= n && (int)q.t.size() >= n, "scaling size"); for (int i = 0; i < n; ++i) sx_assert(q.s[i] > 0 && q.t[i] > 0, "scaling positive");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) hat[i][j] = q.s[q.p[i]] * cur[q.p[i]][q.q[j]] * q.t[q.q[j]];
    dens(q.L_B, m, m, L, SLOW, "L_B structure"); dens(q.U_B, m, m, U, SUPP, "U_B structure"); dens(q.E, r, m, E, ANY, "E structure"); dens(q.F, m, r, F, ANY, "F structure");
    sx_assert((int)q.d_B.size() >= m, "d_B size"); for (int i = 0; i < m; ++i) sx_assert(q.d_B[i] != TA(0), "zero pivot");
    for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) { eqv(E[i][j], hat[m + i][j], "E block"); eqv(F[j][i], hat[j][m + i], "F block"); }
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { TA v = TA(0); for (int k = 0; k <= i && k <= j; ++k) v += mulx(mulx(k == i ? TA(1) : L[i][k], q.d_B[k]), k == j ? TA(1) : U[k][j]); eqv(v, hat[i][j], "L D U is not the leading block"); }
    for (int c = 0; c < r; ++c) {
      for (int i = 0; i < m; ++i) { X[i][c] = hat[i][m + c]; for (int k = 0; k < i; ++k) X[i][c] -= mulx(L[i][k], X[k][c]); }
      for (int i = 0; i < m; ++i) X[i][c] = X[i][c] / q.d_B[i];
      for (int i = m - 1; i >= 0; --i) for (int k = i + 1; k < m; ++k) X[i][c] -= mulx(U[i][k], X[k][c]);
    }
    TA nx[NN][NN]; for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) { nx[i][j] = hat[m + i][m + j]; for (int k = 0; k < m; ++k) nx[i][j] -= mulx(hat[m + i][k], X[k][j]); }
    const bool d1 = !q.dense_solver.empty(), d2 = !q.symm_dense_solver.empty(); sx_assert(!(d1 && d2), "two dense solvers");
    if (d1 || d2) {
      const auto &D = d1 ? q.dense_solver.mat_backup() : q.symm_dense_solver.mat_backup(); sx_assert((int)D.nrows() == r && (int)D.ncols() == r, "dense level size");
      for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) { if (d2 && j > i) continue; eqv(D(i, j), nx[i][j], "dense level is not the Schur complement"); }
      done = true;
    } else if (r == 0) done = true;
    for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) cur[i][j] = nx[i][j];
    n = r;
  }
  sx_assert(done, "no last level");
}
