// P20: partition of rows over threads, multi-threaded products, dropping and Schur complements against the sequential ones.
// Compiled with OpenMP; the executor runs the threads of a team up to each barrier and reports conflicting accesses as races.
#include "sx.hpp"
#include "common.hpp"
#include <cstdlib>
extern "C" char *sx_getenv(const char *);
namespace std { using ::sx_getenv; }
#define getenv(x) sx_getenv(x)
#include "hifir.hpp"
#undef getenv
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef TX
#define TX TA
#endif
#ifndef NROW
#define NROW 5
#endif
#ifndef NPART
#define NPART 255
#endif
#ifndef NT
#define NT 6
#endif
static const char *ENVV[2];
extern "C" char *sx_getenv(const char *n) { return (char *)ENVV[std::strcmp(n, "HIF_NUM_THREADS") ? std::strcmp(n, "OMP_NUM_THREADS") ? 0 : 1 : 0]; }
typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
extern "C" void part() {  // every row exactly once, as evenly as possible
  const int T = 1 + sx_choose(NT); const long n = sx_int("rows", 0, NPART) & NPART, r = sx_int("row", 0, NPART) & NPART; long at = 0; int mine = 0;
  for (int t = 0; t < T; ++t) {
    const auto p = mt::uniform_partition(n, T, t); const long a = p.first, b = p.second;
    sx_assert(a == at, "partition has a gap or an overlap"); sx_assert(b >= a && b - a >= n / T && b - a <= n / T + 1, "partition is not even"); at = b; mine += r >= a && r < b;
  }
  sx_assert(at == n, "partition does not end with the last row"); sx_assert(mine == (r < n), "row belongs to one thread"); if (T > 1) sx_cover("several threads");
}
static int team() {  // number of threads asked for; the runtime may provide fewer
  const int T = 1 + sx_choose(NT); const int lim = sx_choose(3); sx_omp(lim == 0 ? 64 : lim, sx_choose(2), 4); if (lim && lim < T) sx_cover("fewer threads than requested"); mt::get_nthreads(T); sx_assert(mt::get_nthreads() == T, "number of threads kept"); return T;
}
extern "C" void spmv() {
  const int n = sx_choose(NROW + 1), m = 44; const int T = team();
  crs A(n, m); A.row_start().resize(n + 1); A.row_start()[0] = 0; std::vector<int> ci; std::vector<TA> va; TX y0[NROW + 1][2], x0[44][2];
  for (int j = 0; j < m; ++j) for (int k = 0; k < 2; ++k) { x0[j][k] = TX((j * 5 + k * 3) % 4 - 2); }
  for (int k = 0; k < 2; ++k) mk(x0[1][k], "x", -2, 2);
  for (int i = 0; i < n; ++i) {
    y0[i][0] = y0[i][1] = TX(0); const bool thin = i && i % 3 == 2;  // some rows nearly empty
    for (int j = 0; j < (thin ? 1 : m); ++j) { TA v; if (j < 2) mk(v, "a", -2, 2); else v = TA((i + 2 * j) % 3 - 1); ci.push_back(j); va.push_back(v); for (int k = 0; k < 2; ++k) y0[i][k] += mulx(TX(v), x0[j][k]); }
    A.row_start()[i + 1] = ci.size();
  }
  A.col_ind().resize(ci.size()); A.vals().resize(va.size()); for (size_t k = 0; k < ci.size(); ++k) { A.col_ind()[k] = ci[k]; A.vals()[k] = va[k]; }
  const int form = sx_choose(4); typedef std::array<TX, 2> row;
  if (form < 2) {
    Array<TX> x(m), y(n + 1); for (int j = 0; j < m; ++j) x[j] = x0[j][0]; for (int i = 0; i <= n; ++i) y[i] = TX(77);
    if (form == 0) { Array<TX> v(n, y.data(), true); mt::multiply_nt(A, x, v); } else mt::multiply_nt_low(A, x.data(), y.data());
    for (int i = 0; i < n; ++i) eqv(y[i], y0[i][0], "threaded product"); eqv(y[n], TX(77), "entry behind the vector changed");
    const int s = sx_choose(2); ccs B(A); Array<TX> z(n); for (int i = 0; i < n; ++i) z[i] = TX(55); if (s) mt::multiply_nt(B, x, z); else mt::multiply_nt_low(B, x.data(), z.data()); for (int i = 0; i < n; ++i) eqv(z[i], y0[i][0], "product of column storage");
  } else {
    Array<row> x(m), y(n + 1); for (int k = 0; k < 2; ++k) { for (int j = 0; j < m; ++j) x[j][k] = x0[j][k]; for (int i = 0; i <= n; ++i) y[i][k] = TX(77); }
    if (form == 2) { Array<row> v(n, y.data(), true); mt::multiply_mrhs_nt(A, x, v); } else mt::multiply_mrhs_nt_low<2>(A, x[0].data(), y[0].data());
    for (int k = 0; k < 2; ++k) { for (int i = 0; i < n; ++i) eqv(y[i][k], y0[i][k], "threaded product with several vectors"); eqv(y[n][k], TX(77), "entry behind the vector changed"); }
    sx_cover("several vectors");
  }
  if (T > n) sx_cover("more threads than rows"); if (n % T) sx_cover("uneven");
}
template <class P, class I, class V> static void eqa(const P &a, const P &b, const I &i, const I &j, const V &v, const V &w, long n, const char *l) {
  sx_assert((long)a.size() >= n + 1 && (long)b.size() >= n + 1, l); for (long k = 0; k <= n; ++k) sx_assert(a[k] == b[k], l); const long z = a[n]; sx_assert((long)i.size() == z && (long)j.size() == (long)i.size() && (long)v.size() == (long)w.size() && (long)v.size() == z, l);
  for (long k = 0; k < z; ++k) { sx_assert(i[k] == j[k], l); eqv(v[k], w[k], l); }
}
// block with nv vectors of length len; some entries symbolic
template <class M> static void fill(M &A, int nv, int len, int per, int salt, const int *symat, int nsym) {
  auto &st = A.ind_start(); auto &in = A.inds(); auto &va = A.vals(); st.resize(nv + 1); st[0] = 0; std::vector<int> ci; std::vector<TA> v;
  for (int i = 0; i < nv; ++i) {
    bool s = false; for (int k = 0; k < nsym; ++k) s |= symat[k] == i; const int c = (i + salt) % 5 == 0 ? 0 : 1 + (i * 3 + salt) % per; unsigned seen = 0;
    for (int k = 0; k < c && k < len; ++k) { int j = (i + k * 3 + salt) % len; if (len <= 32) { while (seen >> j & 1) j = (j + 1) % len; seen |= 1u << j; } ci.push_back(j); TA x = TA(((i * 7 + k * 5 + salt) % 11) - 5); if (s && k < 2) mk(x, "e", -3, 3); v.push_back(x); }
    st[i + 1] = ci.size();
  }
  in.resize(ci.size()); va.resize(v.size()); for (size_t k = 0; k < ci.size(); ++k) { in[k] = ci[k]; va[k] = v[k]; }
}
extern "C" void drop() {
  const int n = 201, m = 6; const int T = team(); const int at[2] = {n / T - (n / T ? 1 : 0), n - 1};
  crs L(n, m); ccs U(m, n); fill(L, n, m, 5, 1, at, 2); fill(U, n, m, 6, 3, at, 2); crs L2(L); ccs U2(U); crs L1; ccs U1; L1.resize(n, m); U1.resize(m, n);
  // independent copies
  L1.row_start().resize(n + 1); L1.col_ind().resize(L.nnz()); L1.vals().resize(L.nnz()); U1.col_start().resize(n + 1); U1.row_ind().resize(U.nnz()); U1.vals().resize(U.nnz());
  for (int i = 0; i <= n; ++i) { L1.row_start()[i] = L.row_start()[i]; U1.col_start()[i] = U.col_start()[i]; } for (int k = 0; k < (int)L.nnz(); ++k) { L1.col_ind()[k] = L.col_ind()[k]; L1.vals()[k] = L.vals()[k]; } for (int k = 0; k < (int)U.nnz(); ++k) { U1.row_ind()[k] = U.row_ind()[k]; U1.vals()[k] = U.vals()[k]; }
  Array<int> P(n + 1), Q(n + 1); P[0] = Q[0] = 0; for (int i = 0; i < n; ++i) { P[i + 1] = P[i] + 1 + i % 2; Q[i + 1] = Q[i] + 1 + i % 3 % 2; }
  const double aL = 0.5 + sx_choose(3), aU = 1 + 0.5 * sx_choose(2); Array<TA> b1(m), b2(m), b3(m), b4(m); Array<int> g1(n), g2(n), g3(n), g4(n);
  drop_L_E(P, aL, L1, b1, g1); drop_U_F(Q, aU, U1, b2, g2);
  mt::drop_L_E_and_U_F(P, aL, Q, aU, L, U, b3, g3, b4, g4, T);
  eqa(L.row_start(), L1.row_start(), L.col_ind(), L1.col_ind(), L.vals(), L1.vals(), n, "threaded dropping of L"); eqa(U.col_start(), U1.col_start(), U.row_ind(), U1.row_ind(), U.vals(), U1.vals(), n, "threaded dropping of U");
  sx_cover(T > 3 ? "partitioned" : T > 1 ? "two threads" : "sequential");
}
extern "C" void schur() {
  const int N = 201, m = 10201, n = N + m; const int T = team();
  crs L(N, m), U(m, N), A(n, n); std::vector<int> ci; std::vector<TA> v;
  L.row_start().resize(N + 1); L.row_start()[0] = 0; for (int i = 0; i < N; ++i) { for (int k = i; k < m; k += N) { ci.push_back(k); TA x = TA((k + i) % 3 - 1); if (k == i && (i == N - 1 || i == N / T)) mk(x, "l", -2, 2); v.push_back(x); } L.row_start()[i + 1] = ci.size(); }
  L.col_ind().resize(ci.size()); L.vals().resize(v.size()); for (size_t k = 0; k < v.size(); ++k) { L.col_ind()[k] = ci[k]; L.vals()[k] = v[k]; }
  U.row_start().resize(m + 1); U.col_ind().resize(m); U.vals().resize(m); for (int k = 0; k <= m; ++k) { U.row_start()[k] = k; if (k < m) { U.col_ind()[k] = k * 7 / 3 % N; U.vals()[k] = TA(k % 4 - 1); } }
  mk(U.vals()[N - 1], "u", -2, 2);
  ci.clear(); v.clear(); A.row_start().resize(n + 1); A.row_start()[0] = 0; for (int i = 0; i < n; ++i) { if (i < N && i % 4) { ci.push_back((i + 2) % N); v.push_back(TA(i % 5)); ci.push_back(N + i); v.push_back(TA(3)); } A.row_start()[i + 1] = ci.size(); }
  A.col_ind().resize(ci.size()); A.vals().resize(v.size()); for (size_t k = 0; k < v.size(); ++k) { A.col_ind()[k] = ci[k]; A.vals()[k] = v[k]; }
  Array<double> s(n), t(n); Array<TA> d(m); BiPermMatrix<int> p(n), q(n); for (int i = 0; i < n; ++i) { s[i] = i % 2 ? 2 : 0.5; t[i] = i % 3 ? 1 : 4; p[i] = q[i] = (i + N) % n; } p.build_inv(); q.build_inv(); for (int k = 0; k < m; ++k) d[k] = TA(k % 2 ? -1 : 2);
  SparseVector<TA, int> b1(n), b2(n); crs S1 = compute_Schur_simple(s, A, t, p, q, (std::size_t)m, L, d, U, b1); crs S2 = mt::compute_Schur_simple(s, A, t, p, q, (std::size_t)m, L, d, U, b2, T);
  sx_assert(S2.nrows() == S1.nrows() && S2.ncols() == S1.ncols(), "threaded Schur complement"); eqa(S2.row_start(), S1.row_start(), S2.col_ind(), S1.col_ind(), S2.vals(), S1.vals(), N, "threaded Schur complement"); if (T > 1) sx_cover("several threads");
}
extern "C" void threads() {  // how many threads are used
  static const char *E[7] = {nullptr, "3", "1", "0", "-2", "abc", ""}; static const int V[7] = {0, 3, 1, 1, 1, 1, 1}; const int e1 = sx_choose(7), e2 = sx_choose(7), mx = 1 + sx_choose(3); ENVV[0] = E[e1]; ENVV[1] = E[e2]; sx_omp(64, 0, mx);
  const int want = e1 ? V[e1] : e2 ? V[e2] : mx;
  if (sx_choose(2)) { const int k = 1 + sx_choose(9); sx_assert(mt::get_nthreads(k) == k && mt::get_nthreads() == k, "requested number of threads"); sx_cover("requested"); }
  const int neg = -(int)sx_choose(3); sx_assert(mt::get_nthreads(neg) == want, "default number of threads"); sx_assert(mt::get_nthreads() == want, "number of threads kept");
  Array<double> x(1), y(1); x[0] = 2; y[0] = 7; CRS<double, int, int> A(1, 1); A.row_start().resize(2); A.col_ind().resize(1); A.vals().resize(1); A.row_start()[0] = 0; A.row_start()[1] = 1; A.col_ind()[0] = 0; A.vals()[0] = 3; mt::multiply_nt(A, x, y); eqv(y[0], 6.0, "product");
}
