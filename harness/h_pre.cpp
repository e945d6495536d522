// P12: scaling, matching, deferral of zero diagonals and reordering.
// The real templates are instantiated with LG, an exact number type for powers of two: 2^e with a symbolic integer e, so that
// products become sums and every comparison of the matching is a linear question for the solver. exp and log are base 2.
#include "sx.hpp"
#include "common.hpp"
#include <cmath>
#include <limits>
#include <vector>
#include <array>
#ifndef NMAX
#define NMAX 3
#endif
#ifndef ER
#define ER 6
#endif
struct LG {  // kind 0: the number v itself, kind 1: 2^v
  int kind; double v;
  constexpr LG() : kind(2), v(0) {}
  constexpr LG(double d) : kind(0), v(d) {}
  constexpr LG(int k, double d) : kind(k), v(d) {}
  explicit operator double() const { return pl(*this); }
  static double lg(const LG &x) { sx_assert(x.kind < 2, "uninitialised number used"); return x.kind ? x.v : std::log2(sx_concd(x.v)); }  // base 2 logarithm
  static double pl(const LG &x) { sx_assert(x.kind < 2, "uninitialised number used"); return x.kind ? std::exp2(sx_concd(x.v)) : x.v; }
  bool zero() const { return kind == 0 && v == 0; }
};
static int cmp(const LG &a, const LG &b) {  // -1, 0, 1; 2: unordered
  double x = a.v, y = b.v; sx_assert(a.kind < 2 && b.kind < 2, "uninitialised number compared");
  if (a.kind != b.kind) { const LG &p = a.kind ? b : a; if (p.v <= 0) return a.kind ? 1 : -1; if (p.v != p.v) return 2; x = LG::lg(a); y = LG::lg(b); }
  return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
}
inline bool operator<(const LG &a, const LG &b) { return cmp(a, b) == -1; }
inline bool operator>(const LG &a, const LG &b) { return cmp(a, b) == 1; }
inline bool operator<=(const LG &a, const LG &b) { const int c = cmp(a, b); return c == -1 || c == 0; }
inline bool operator>=(const LG &a, const LG &b) { const int c = cmp(a, b); return c == 1 || c == 0; }
inline bool operator==(const LG &a, const LG &b) { return cmp(a, b) == 0; }
inline bool operator!=(const LG &a, const LG &b) { return cmp(a, b) != 0; }
inline LG operator*(const LG &a, const LG &b) { if (a.kind == 0 && b.kind == 0) return LG(a.v * b.v); if (a.zero() || b.zero()) return LG(0.0); return LG(1, LG::lg(a) + LG::lg(b)); }
inline LG operator/(const LG &a, const LG &b) { if (a.kind == 0 && b.kind == 0) return LG(a.v / b.v); if (a.zero()) return LG(0.0); return LG(1, LG::lg(a) - LG::lg(b)); }
inline LG operator+(const LG &a, const LG &b) { return LG(LG::pl(a) + LG::pl(b)); }
inline LG operator-(const LG &a, const LG &b) { return LG(LG::pl(a) - LG::pl(b)); }
inline LG operator-(const LG &a) { return LG(-LG::pl(a)); }
inline LG &operator*=(LG &a, const LG &b) { return a = a * b; }
inline LG &operator/=(LG &a, const LG &b) { return a = a / b; }
inline LG &operator+=(LG &a, const LG &b) { return a = a + b; }
inline LG &operator-=(LG &a, const LG &b) { return a = a - b; }
namespace std {
inline LG log(const LG &x) { return LG(LG::lg(x)); }
inline LG exp(const LG &x) { return LG(1, LG::pl(x)); }
inline LG sqrt(const LG &x) { return x.kind == 1 ? LG(1, x.v * 0.5) : LG(std::sqrt(x.v)); }
inline LG abs(const LG &x) { return x.kind == 0 && x.v < 0 ? LG(-x.v) : x; }
template <> struct numeric_limits<LG> { static constexpr LG min() { return LG(1, -1022.); } static constexpr LG max() { return LG(1, 1024.); } static constexpr LG epsilon() { return LG(1, -52.); } };
}  // namespace std
#include "hif/utils/common.hpp"
namespace hif {
template <> struct ValueTypeTrait<LG> { using value_type = LG; static constexpr char signature = 'g'; };
template <> class Const<LG> { public: typedef LG value_type; constexpr static LG MIN = LG(1, -1022.), MAX = LG(1, 1024.), EPS = LG(1, -52.), ONE = LG(1.0), ZERO = LG(0.0); };
constexpr LG Const<LG>::MIN, Const<LG>::MAX, Const<LG>::EPS, Const<LG>::ONE, Const<LG>::ZERO;
}
#include "hif/ds/PermMatrix.hpp"
#include "hif/pre/driver.hpp"
using namespace hif;
typedef CRS<LG, int, int> crs; typedef CCS<LG, int, int> ccs; typedef BiPermMatrix<int> perm; typedef Array<LG> vec;
struct Mat { int n; int st[8][8]; LG a[8][8]; };  // st: 0 absent, 1 power of two, 2 explicit zero
static bool fin(const LG &x) { double d = LG::lg(x); return x.kind == 0 ? x.v > 0 && d - d == 0 : d - d == 0; }
static crs tocrs(const Mat &M) { int z = 0; for (int i = 0; i < M.n; ++i) for (int j = 0; j < M.n; ++j) z += M.st[i][j] > 0; crs A(M.n, M.n); A.row_start().resize(M.n + 1); A.col_ind().resize(z); A.vals().resize(z); z = 0; A.row_start()[0] = 0; for (int i = 0; i < M.n; ++i) { for (int j = 0; j < M.n; ++j) if (M.st[i][j]) { A.col_ind()[z] = j; A.vals()[z++] = M.a[i][j]; } A.row_start()[i + 1] = z; } return A; }
static ccs toccs(const Mat &M) { int z = 0; for (int i = 0; i < M.n; ++i) for (int j = 0; j < M.n; ++j) z += M.st[i][j] > 0; ccs A(M.n, M.n); A.col_start().resize(M.n + 1); A.row_ind().resize(z); A.vals().resize(z); z = 0; A.col_start()[0] = 0; for (int i = 0; i < M.n; ++i) { for (int j = 0; j < M.n; ++j) if (M.st[j][i]) { A.row_ind()[z] = j; A.vals()[z++] = M.a[j][i]; } A.col_start()[i + 1] = z; } return A; }
static bool same(const LG &a, const LG &b) { return a.kind == b.kind && a.v == b.v; }
static bool pm(const Mat &M, int m0, int i, unsigned used) { if (i == m0) return true; for (int j = 0; j < m0; ++j) if (M.st[i][j] == 1 && !(used >> j & 1) && pm(M, m0, i + 1, used | 1u << j)) return true; return false; }
static void biject(const perm &p, int n, const char *l) { sx_assert((int)p.size() == n, l); unsigned seen = 0; for (int i = 0; i < n; ++i) { const int k = p[i]; sx_assert(k >= 0 && k < n, l); seen |= 1u << k; sx_assert(p.inv(k) == i, l); } sx_assert(seen == (1u << n) - 1, l); }
// the common part: run the real driver and judge its result
template <bool S> static int judge(const Mat &M, int m0, int level, const Options &o, vec &s, vec &t, perm &p, perm &q, bool scaled = true) {
  const int n = M.n; crs A = tocrs(M); ccs C = toccs(M); const long live = sx_heap_live(); (void)live;
  int m; try { m = do_preprocessing<S>(C, A, m0, level, o, s, t, p, q); } catch (const std::exception &) { if (!A.nnz()) throw; sx_assert(0, "preprocessing refused a matrix"); throw; }
  { int z = 0; for (int i = 0; i < n; ++i) { sx_assert(A.row_start()[i] == z, "user matrix changed"); for (int j = 0; j < n; ++j) if (M.st[i][j]) { sx_assert(A.col_ind()[z] == j && same(A.vals()[z], M.a[i][j]), "user matrix changed"); ++z; } } sx_assert(A.row_start()[n] == z, "user matrix changed"); z = 0; for (int i = 0; i < n; ++i) { sx_assert(C.col_start()[i] == z, "user matrix changed"); for (int j = 0; j < n; ++j) if (M.st[j][i]) { sx_assert(C.row_ind()[z] == j && same(C.vals()[z], M.a[j][i]), "user matrix changed"); ++z; } } }
  sx_assert(m >= 0 && m <= m0, "leading block size"); biject(p, n, "row permutation is a bijection"); biject(q, n, "column permutation is a bijection");
  for (int i = 0; i < n; ++i) sx_assert(fin(s[i]) && fin(t[i]), "scalings are positive and finite");
  for (int k = 0; k < n; ++k) { if (k >= m0) sx_assert(p[k] == k && q[k] == k && same(s[k] * LG(1.0), LG(1.0)) && same(t[k] * LG(1.0), LG(1.0)), "offset is left alone"); else sx_assert(p[k] < m0 && q[k] < m0, "leading block stays leading"); if (S) sx_assert(p[k] == q[k] && LG::lg(s[k]) == LG::lg(t[k]), "symmetric case is treated symmetrically"); }
  const bool full = m0 && pm(M, m0, 0, 0);
  for (int k = 0; k < m0; ++k) {  // deferred exactly when the diagonal is missing or negligible
    const int i = p[k], j = q[k]; bool good = M.st[i][j] == 1; if (good) for (int c = 0; c < n && good; ++c) { if (M.st[i][c] == 1 && M.a[i][c].v >= M.a[i][j].v + 52) good = false; if (M.st[c][j] == 1 && M.a[c][j].v >= M.a[i][j].v + 52) good = false; }
    sx_assert(good == (k < m), k < m ? "zero diagonal entry kept in the leading block" : "good diagonal entry deferred");
  }
  if (m < m0) sx_cover("deferred"); if (!full) { sx_cover("structurally singular"); return m; }
  if (!scaled) return m;
  for (int i = 0; i < m0; ++i) for (int j = 0; j < m0; ++j) if (M.st[i][j] == 1 && level == 1) sx_assert(LG::lg(s[i]) + M.a[i][j].v + LG::lg(t[j]) <= 0, "scaled entry exceeds one");
  if (!S) { for (int k = 0; k < m0; ++k) sx_assert(M.st[p[k]][q[k]] == 1 && LG::lg(s[p[k]]) + M.a[p[k]][q[k]].v + LG::lg(t[q[k]]) == 0, "matched entry is not one"); sx_cover("matched"); }
  else if (level == 1) for (int i = 0; i < m0; ++i) { int one = 0; for (int j = 0; j < m0; ++j) if (M.st[i][j] == 1) one |= LG::lg(s[i]) + M.a[i][j].v + LG::lg(t[j]) == 0; sx_assert(one, "row without an entry of magnitude one"); }
  return m;
}
static Options opts(int reorder, int pre) { Options o = get_default_options(); o.verbose = 0; o.reorder = reorder; o.pre_scale = pre; return o; }
static LG sym(const char *nm, int lo, int hi) { return LG(1, sx_dbl(nm, lo, hi, 0)); }
#ifndef MINN
#define MINN 1
#endif
#ifndef ZR
#define ZR 1
#endif
// stored entry number k of a matrix: symbolic for SYMS of them (all by default), otherwise one of several fixed magnitudes
#ifndef SYMS
#define SYMS 99
#endif
#ifndef SPINS
#define SPINS 3
#endif
struct Gen { int off, left, k; unsigned r; Gen() : off(0), left(SYMS), k(0), r(0) { if (SYMS < 99) { off = sx_choose(SPINS); r = 99 + off * 7919; } }
  LG operator()(int lo, int hi) { ++k; r = r * 1103515245 + 12345; if (SYMS == 99 || (left && (k + off) % SPINS == 0)) { --left; return sym("e", lo, hi); } return LG(1, (int)((r >> 16) % (hi - lo + 1)) + lo); } };
static void match_() {  // all patterns, symbolic magnitudes
  Mat M; M.n = MINN + sx_choose(NMAX - MINN + 1); const int n = M.n; int zeros = 0; Gen gen;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { M.st[i][j] = sx_choose(zeros < ZR ? 3 : 2); zeros += M.st[i][j] == 2; M.a[i][j] = LG(0.0); if (M.st[i][j] == 1) M.a[i][j] = gen(-ER, ER); }
  if (zeros) sx_cover("explicit zero"); vec s, t; perm p, q; judge<false>(M, n, 1, opts(REORDER_OFF, sx_choose(2)), s, t, p, q);
}
static void matchsym_() {  // symmetric leading block, offsets
  Mat M; M.n = MINN + sx_choose(NMAX - MINN + 1); const int n = M.n, m0 = n - (n > 1 ? sx_choose(2) : 0); int zeros = 0; Gen gen; if (m0 < n) sx_cover("offset");
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int k = sx_choose(zeros < ZR ? 3 : 2); zeros += k == 2; M.a[i][j] = M.a[j][i] = LG(0.0); M.st[i][j] = M.st[j][i] = k; if (k == 1) { M.a[i][j] = M.a[j][i] = gen(-ER, ER); } }
  vec s, t; perm p, q; judge<true>(M, m0, 1, opts(REORDER_OFF, sx_choose(2)), s, t, p, q);
}
static void levels_() {  // later levels: badly balanced scalings are repaired; partial leading blocks; tiny diagonals
  Mat M; M.n = NMAX; const int n = M.n, m0 = n - sx_choose(2); static const int PAT[4] = {0x1ff, 0x0eb, 0x1d7, 0x133}; const int pt = PAT[sx_choose(4)]; const int hi = sx_choose(2) ? 40 : 3; Gen gen;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { M.st[i][j] = i < 3 && j < 3 ? pt >> (3 * i + j) & 1 : 1; M.a[i][j] = LG(0.0); if (M.st[i][j]) M.a[i][j] = gen(-hi, hi); }
  Options o = opts(REORDER_OFF, sx_choose(2)); const int b = sx_choose(3); o.beta = b == 0 ? 16 : b == 1 ? -1 : 1; vec s, t; perm p, q; judge<false>(M, m0, 2, o, s, t, p, q);
  if (b == 0) for (int k = 0; k < m0; ++k) { const double d = LG::lg(s[p[k]]) - LG::lg(t[q[k]]); sx_assert(d <= 4 && d >= -4, "badly balanced scaling left"); }
}
#ifndef SEEDS
#define SEEDS 12
#endif
#ifndef NSYM
#define NSYM 3
#endif
static void paths_() {  // larger matrices, in which long augmenting paths and several queue entries occur
  Mat M; M.n = NMAX; const int n = M.n, seed = sx_choose(SEEDS), sparse = sx_choose(2); unsigned r = 12345 + 7919 * seed; int k = 0, sp[NSYM];
  for (int i = 0; i < NSYM; ++i) { r = r * 1103515245 + 12345; sp[i] = (r >> 16) % (n * n); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r = r * 1103515245 + 12345; const int h = (r >> 16) & 255; M.st[i][j] = !sparse || h % 5 < 3 || i == (j + 1) % n; M.a[i][j] = M.st[i][j] ? LG(1, (h >> 3) % 13 - (j < n / 2 ? 0 : 6)) : LG(0.0); for (k = 0; k < NSYM; ++k) if (sp[k] == i * n + j && M.st[i][j]) M.a[i][j] = sym("e", -14, 14); }
  vec s, t; perm p, q; judge<false>(M, n, 1, opts(REORDER_OFF, 0), s, t, p, q);
}
static void iter_() {  // iterative scaling first (concrete magnitudes)
  Mat M; M.n = 2; const int n = 2; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { const int k = sx_choose(5); M.st[i][j] = k > 1 ? 1 : k == 1 ? 2 : 0; M.a[i][j] = k > 1 ? LG(1, 8 * (k - 3)) : LG(0.0); }
  vec s, t; perm p, q; if (sx_choose(2) && M.st[0][1] == M.st[1][0] && same(M.a[0][1], M.a[1][0])) { judge<true>(M, n, 1, opts(REORDER_OFF, 2), s, t, p, q, false); sx_cover("symmetric"); } else judge<false>(M, n, 1, opts(REORDER_OFF, 2), s, t, p, q, false);
  const bool full = pm(M, n, 0, 0); if (full) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (M.st[i][j] == 1) sx_assert(LG::lg(s[i]) + M.a[i][j].v + LG::lg(t[j]) <= 1e-9, "scaled entry exceeds one"); }
}
// ---- reordering
static int fill(const Mat &M, const perm &p, int m) {  // entries created by eliminating in this order
  bool g[8][8]; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) g[i][j] = M.st[p[i]][p[j]] || M.st[p[j]][p[i]]; int f = 0;
  for (int k = 0; k < m; ++k) for (int i = k + 1; i < m; ++i) if (g[i][k]) for (int j = k + 1; j < m; ++j) if (i != j && g[k][j] && !g[i][j]) { g[i][j] = true; ++f; } return f;
}
static void order_() {  // identity matching; the pattern decides
  Mat M; M.n = 1 + sx_choose(NMAX); const int n = M.n, m0 = n - (n > 1 ? sx_choose(2) : 0), symm = NMAX > 3 ? 1 : sx_choose(2), ro = sx_choose(4); static const int RO[4] = {REORDER_OFF, REORDER_AUTO, REORDER_AMD, REORDER_RCM}; Gen gen;
  for (int i = 0; i < n; ++i) { M.st[i][i] = 1; M.a[i][i] = LG(1, 0.0); } const int zd = NMAX < 5 && n > 1 ? sx_choose(n + 1) : n; if (zd < n) { M.st[zd][zd] = symm ? 2 : 0; M.a[zd][zd] = LG(0.0); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < (symm ? i : n); ++j) if (i != j) { M.st[i][j] = sx_choose(2); M.a[i][j] = M.st[i][j] ? gen(-3, -1) : LG(0.0); if (symm) { M.st[j][i] = M.st[i][j]; M.a[j][i] = M.a[i][j]; } }
  vec s, t; perm p, q; Options o = opts(RO[ro], 0); const int m = symm ? judge<true>(M, m0, 1, o, s, t, p, q) : judge<false>(M, m0, 1, o, s, t, p, q);
  // the same pairs are matched, and the same ones are leading
  vec s2, t2; perm p2, q2; o.reorder = REORDER_OFF; crs A = tocrs(M); ccs C = toccs(M); const int m2 = symm ? do_preprocessing<true>(C, A, m0, 1, o, s2, t2, p2, q2) : do_preprocessing<false>(C, A, m0, 1, o, s2, t2, p2, q2);
  sx_assert(m == m2, "reordering changed the leading block size"); for (int k = 0; k < n; ++k) { const int k2 = p2.inv(p[k]); sx_assert(q2[k2] == q[k] && (k2 < m) == (k < m) && (k < m || k2 == k), "reordering broke matched pairs"); sx_assert(LG::lg(s[k]) == LG::lg(s2[k]) && LG::lg(t[k]) == LG::lg(t2[k]), "reordering changed the scaling"); }
  if (ro == 0) return;
  if (!symm) return; int e = 0, comp = 0; unsigned vis = 0; for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) e += M.st[p[i]][p[j]] != 0;
  for (int i = 0; i < m; ++i) if (!(vis >> i & 1)) { ++comp; unsigned f = 1u << i; vis |= f; for (int r = 0; r < m; ++r) for (int a = 0; a < m; ++a) if (f >> a & 1) for (int b = 0; b < m; ++b) if (M.st[p[a]][p[b]]) f |= 1u << b; vis |= f; }
  const bool rcm = RO[ro] == REORDER_RCM || (RO[ro] == REORDER_AUTO && m != m0);
  if (rcm) { int last = 0; for (int i = 0; i < m; ++i) { bool later = false; for (int j = i + 1; j < m; ++j) later |= M.st[p[i]][p[j]] != 0; last += !later; } sx_assert(last == comp, "not a reversed breadth-first ordering"); sx_cover("bandwidth reduction"); }
  if (e + comp == m) { sx_assert(fill(M, p, m) == 0, "reordering creates fill on a forest"); sx_cover("forest"); }
}
#ifndef BIGSEED
#define BIGSEED 4
#endif
static void big_() {  // larger graphs: trees (some with a vertex of high degree), random symmetric and unsymmetric patterns
  const int kind = sx_choose(4), cut = sx_choose(3), n = cut == 2 ? 66 : 22, m0 = cut ? n - 2 : n, ro = sx_choose(3), seed = sx_choose(BIGSEED); static const int RO[3] = {REORDER_AUTO, REORDER_AMD, REORDER_RCM}; unsigned r = 77 + 31 * seed; const bool symm = kind < 3;
  std::vector<std::vector<char>> g(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) g[i][i] = 1;
  auto rnd = [&](int k) { r = r * 1103515245 + 12345; return (int)((r >> 16) % k); };
  if (kind < 2) { std::vector<int> perm_(n); for (int i = 0; i < n; ++i) perm_[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm_[i], perm_[rnd(i + 1)]); for (int i = 1; i < n; ++i) { const int f = kind && i > 2 ? rnd(3) ? 0 : rnd(i) : rnd(i); if (rnd(12)) g[perm_[i]][perm_[f]] = g[perm_[f]][perm_[i]] = 1; } }
  else for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { const int j = rnd(n); g[i][j] = 1; if (symm) g[j][i] = 1; }
  crs A(n, n); A.row_start().resize(n + 1); A.row_start()[0] = 0; std::vector<int> ci; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (g[i][j]) ci.push_back(j); A.row_start()[i + 1] = ci.size(); }
  A.col_ind().resize(ci.size()); A.vals().resize(ci.size()); for (int i = 0; i < n; ++i) for (int k = A.row_start()[i]; k < A.row_start()[i + 1]; ++k) { A.col_ind()[k] = ci[k]; A.vals()[k] = LG(1, ci[k] == i ? 0.0 : -1.0); }
  if (ci[0] != 0 || ci.size() > 1) { const int k = ci[0] == 0 ? 1 : 0; if (k < A.row_start()[1]) A.vals()[k] = sym("e", -9, -1); } ccs C(A);
  vec s, t; perm p, q; Options o = opts(RO[ro], 0); const int m = symm ? do_preprocessing<true>(C, A, m0, 1, o, s, t, p, q) : do_preprocessing<false>(C, A, m0, 1, o, s, t, p, q);
  sx_assert(m == m0, "leading block size"); std::vector<char> seen(n, 0); for (int i = 0; i < n; ++i) { const int k = p[i]; sx_assert(k >= 0 && k < n && !seen[k] && (k < m0) == (i < m0), "row permutation is a bijection"); seen[k] = 1; sx_assert(q[i] == k && p.inv(k) == i && q.inv(k) == i, "column permutation is a bijection"); }
  if (kind < 2) { int f = 0; std::vector<std::vector<char>> h(m, std::vector<char>(m)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) h[i][j] = g[p[i]][p[j]]; for (int k = 0; k < m; ++k) for (int i = k + 1; i < m; ++i) if (h[i][k]) for (int j = k + 1; j < m; ++j) if (h[k][j] && !h[i][j]) { h[i][j] = 1; ++f; } sx_assert(f == 0, "reordering creates fill on a forest"); sx_cover("forest"); }
  if (cut == 2) sx_cover("more than one word of flags");
}
#define ENTRY(e) extern "C" void e() { try { e##_(); } catch (const SxHifError &) { sx_cover("nothing stored"); } }
ENTRY(match) ENTRY(matchsym) ENTRY(levels) ENTRY(iter) ENTRY(order) ENTRY(paths) ENTRY(big)
