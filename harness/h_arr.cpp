// P06: array and dense-matrix storage histories.  P08: permutation pairs.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
typedef Array<double> arr;
#ifndef DEPTH
#define DEPTH 3
#endif
enum { MXB = 4 * DEPTH + 6, CAPM = 24 };
// model: buffers with known/unknown contents, handles refer to a buffer (-1: none)
static double val[MXB][CAPM]; static bool kn[MXB][CAPM]; static const double *addr[MXB]; static int nb;
struct Hd { int b; long sz; };
static Hd hd[2];
static int newbuf() { sx_assume(nb < MXB); for (int i = 0; i < CAPM; ++i) kn[nb][i] = false; addr[nb] = nullptr; return nb++; }
static double wrapmem[2][3];
static void check(arr *s, const char *l) {
  for (int i = 0; i < 2; ++i) {
    sx_assert((long)s[i].size() == hd[i].sz, l); sx_assert(s[i].size() <= s[i].capacity(), l); sx_assert(s[i].empty() == (hd[i].sz == 0), l);
    if (hd[i].b < 0) { sx_assert(hd[i].sz == 0, l); continue; }
    const int b = hd[i].b; if (!addr[b]) addr[b] = s[i].data(); sx_assert(s[i].data() == addr[b], "storage identity");
    for (long k = 0; k < hd[i].sz; ++k) if (kn[b][k]) sx_eq(s[i][k], val[b][k], l);
    sx_assert(s[i].end() - s[i].begin() == hd[i].sz, l);
    if (hd[i].sz && kn[b][hd[i].sz - 1]) sx_eq(s[i].back(), val[b][hd[i].sz - 1], l);
  }
  if (hd[0].b >= 0 && hd[1].b >= 0) sx_assert((s[0].data() == s[1].data()) == (hd[0].b == hd[1].b), "sharing");
}
static void grow(int i, long n) { const int b = newbuf(), o = hd[i].b; for (long k = 0; k < hd[i].sz && k < n; ++k) { val[b][k] = val[o][k]; kn[b][k] = kn[o][k]; } hd[i].b = b; }
static double newv() { static int c; (void)c; return sx_dbl("v", -9, 9, 0); }
extern "C" void arrays() {
  const long live0 = sx_heap_live(); nb = 0;
  alignas(16) static unsigned char mem[2][sizeof(arr)]; arr *s = (arr *)mem;
  for (int i = 0; i < 2; ++i) { new (s + i) arr(); hd[i].b = -1; hd[i].sz = 0; for (int k = 0; k < 3; ++k) wrapmem[i][k] = 10 * i + k; }
  int wb[2] = {-1, -1};
  // initial contents
  const int n0 = sx_choose(3); if (n0) { s[0] = arr(n0 + 1); hd[0].b = newbuf(); hd[0].sz = n0 + 1; for (int k = 0; k <= n0; ++k) { const double v = newv(); s[0][k] = v; val[hd[0].b][k] = v; kn[hd[0].b][k] = true; } }
  check(s, "initial contents");
  for (int t = 0; t < DEPTH; ++t) {
    const int i = sx_choose(2), j = 1 - i, op = sx_choose(20); arr &a = s[i]; const long cap = a.capacity();
    switch (op) {
      case 0: case 1: case 2: case 3: { const long n = op == 0 ? 0 : op == 1 ? 1 : op == 2 ? 3 : 5; a.resize(n); if (n > cap) grow(i, n); hd[i].sz = n; break; }
      case 4: case 5: { const long n = op == 4 ? 2 : 6; a.reserve(n); sx_assert((long)a.capacity() >= n, "reserved space"); if (n > cap) grow(i, n); break; }
      case 6: { const double v = newv(); a.push_back(v); const long n = hd[i].sz + 1; if (n > cap) grow(i, n); hd[i].sz = n; val[hd[i].b][n - 1] = v; kn[hd[i].b][n - 1] = true; break; }
      case 7: case 8: { double r[2] = {newv(), newv()}; if (op == 7) a.push_back(r, r + 2); else a.push_back_n(r, 2); const long n = hd[i].sz + 2; if (n > cap) grow(i, n); hd[i].sz = n; for (int k = 0; k < 2; ++k) { val[hd[i].b][n - 2 + k] = r[k]; kn[hd[i].b][n - 2 + k] = true; } break; }
      case 9: { s[j].~arr(); new (s + j) arr(a); hd[j] = hd[i]; sx_cover("shallow copy"); break; }
      case 10: { s[j].~arr(); new (s + j) arr(a, true); const long n = hd[i].sz; const int o = hd[i].b; hd[j].b = newbuf(); hd[j].sz = n; for (long k = 0; k < n; ++k) { val[hd[j].b][k] = val[o][k]; kn[hd[j].b][k] = kn[o][k]; } break; }
      case 11: { s[j] = a; hd[j] = hd[i]; sx_cover("assignment"); break; }
      case 12: { s[j] = std::move(a); hd[j] = hd[i]; sx_assert(a.size() == 0 || hd[i].b == hd[j].b, "moved-from state"); if (a.size()) { s[i].~arr(); new (s + i) arr(); } hd[i].b = -1; hd[i].sz = 0; sx_cover("move"); break; }
      case 13: { arr &r = a; a = r; break; }
      case 14: { s[0].swap(s[1]); const Hd h = hd[0]; hd[0] = hd[1]; hd[1] = h; break; }
      case 15: { a = arr(); hd[i].b = -1; hd[i].sz = 0; break; }
      case 16: { double c[2] = {newv(), newv()}; s[i].~arr(); new (s + i) arr(2, c, false); hd[i].b = newbuf(); hd[i].sz = 2; for (int k = 0; k < 2; ++k) { val[hd[i].b][k] = c[k]; kn[hd[i].b][k] = true; } break; }
      case 17: { s[i].~arr(); new (s + i) arr(3, wrapmem[i], true); if (wb[i] < 0) { wb[i] = newbuf(); for (int k = 0; k < 3; ++k) { val[wb[i]][k] = wrapmem[i][k]; kn[wb[i]][k] = true; } } hd[i].b = wb[i]; hd[i].sz = 3; sx_assert(a.status() == DATA_WRAP, "wrapping"); sx_cover("wrap"); break; }
      case 18: { if (hd[i].sz) { const double v = newv(); a[0] = v; val[hd[i].b][0] = v; kn[hd[i].b][0] = true; } break; }
      case 19: { sx_oom(0); const int w = sx_choose(3); if (w == 0) a.resize(cap + 3); else if (w == 1) a.reserve(cap + 3); else { double c[2] = {1, 2}; s[i].~arr(); new (s + i) arr(2, c, false); } sx_oom(-1); sx_assert(a.status() == DATA_UNDEF, "failed allocation must be visible"); hd[i].b = -1; hd[i].sz = 0; sx_cover("allocation failure"); break; }
    }
    check(s, "contents after an operation");
  }
  for (int i = 0; i < 2; ++i) s[i].~arr();
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) sx_eq(wrapmem[i][k], wb[i] >= 0 && kn[wb[i]][k] ? val[wb[i]][k] : 10 * i + k, "user memory");
  sx_assert(sx_heap_live() == live0, "every owned block is released exactly once"); sx_cover("end");
}
extern "C" void steal() {
  const long live0 = sx_heap_live();
  { const int n = 1 + sx_choose(3), sh = sx_choose(2); arr a(n); double v[4]; for (int k = 0; k < n; ++k) { v[k] = newv(); a[k] = v[k]; }
    arr b; if (sh) b = a; double *p; size_t sz, cp; steal_array_ownership(a, p, sz, cp);
    sx_assert(p && (int)sz == n && (int)cp >= n && a.size() == 0 && a.data() == nullptr, "ownership taken"); for (int k = 0; k < n; ++k) sx_eq(p[k], v[k], "stolen contents");
    if (sx_choose(2)) { a.resize(2); a[1] = 3; sx_eq(a[1], 3, "reuse after theft"); } if (sh) { b = arr(); } delete[] p;
    double w[2] = {1, 2}; arr x(2, w, true); steal_array_ownership(x, p, sz, cp); sx_assert(p == nullptr && sz == 0, "wrapped memory cannot be stolen"); sx_eq(x[1], 2, "wrapped memory stays"); sx_cover("end"); }
  sx_assert(sx_heap_live() == live0, "every owned block is released exactly once");
}
template <class D> static void chkd(const D &m, const Pic<double, 3> &e, const char *l) {
  sx_assert((int)m.nrows() == e.n && (int)m.ncols() == e.m && (int)m.size() == e.n * e.m, l); const D &c = m;
  for (int i = 0; i < e.n; ++i) for (int j = 0; j < e.m; ++j) { sx_eq(c(i, j), e.v[i][j], l); sx_eq(c[i + j * e.n], e.v[i][j], "column-major layout"); }
  for (int j = 0; j < e.m; ++j) { int i = 0; for (auto it = c.col_cbegin(j); it != c.col_cend(j); ++it, ++i) { sx_assert(i < e.n, l); sx_eq(*it, e.v[i][j], "column iteration"); } sx_assert(i == e.n, l); }
  for (int i = 0; i < e.n; ++i) { int j = 0; for (auto it = c.row_cbegin(i); it != c.row_cend(i); ++it, ++j) { sx_assert(j < e.m, l); sx_eq(*it, e.v[i][j], "row iteration"); } sx_assert(j == e.m, l); }
}
extern "C" void dense() {
  typedef Pic<double, 3> pic; typedef DenseMatrix<double> D; const long live0 = sx_heap_live();
  {
    pic d; d.n = 1 + sx_choose(3); d.m = 1 + sx_choose(3); mkpic(d, -9, 9); const int op = sx_choose(7);
    D m = sx_choose(2) ? D::from_sparse(mkcrs<CRS<double, int, int>>(d)) : D::from_sparse(mkccs<CCS<double, int, int>>(d)); chkd(m, d, "dense copy of a sparse matrix");
    if (op == 0) { D c(m, true); m(0, 0) = 99; chkd(c, d, "clone"); }
    else if (op == 1) { D c(m); const double v = newv(); c(0, 0) = v; d.v[0][0] = v; chkd(m, d, "shallow copy shares"); }
    else if (op == 2) { double u[9]; for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) u[i + j * d.n] = d.v[i][j]; D w(d.n, d.m, u, true); chkd(w, d, "wrapped"); w(d.n - 1, d.m - 1) = 5; sx_eq(u[d.n * d.m - 1], 5, "wrapped writes through"); D c(d.n, d.m, u, false); d.v[d.n - 1][d.m - 1] = 5; chkd(c, d, "copied"); u[0] = 77; chkd(c, d, "copied"); }
    else if (op == 3) { D c; c = m; chkd(c, d, "assigned"); D e(std::move(m)); chkd(e, d, "moved"); m.resize(d.n, d.m); for (int i = 0; i < d.n * d.m; ++i) m[i] = 1; chkd(e, d, "moved"); }
    else if (op == 4) { pic f; f.n = 1 + sx_choose(3); f.m = 1 + sx_choose(3); mkpic(f, -1, 1); m.copy_sparse(mkcrs<CRS<double, int, int>>(f)); chkd(m, f, "overwritten by another matrix"); sx_cover("overwrite"); }
    else if (op == 5) { D c(2, 3, 4.0); pic f(2, 3); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) f.v[i][j] = 4; chkd(c, f, "filled"); D q(3); sx_assert(q.nrows() == 3 && q.ncols() == 3 && q.is_squared(), "square by default"); }
    else { DenseMatrix<float> g(m); chkd(g, d, "converted"); }
    sx_cover("end");
  }
  sx_assert(sx_heap_live() == live0, "every owned block is released exactly once");
}
#ifndef PN
#define PN 4
#endif
#ifndef PSTEPS
#define PSTEPS 2
#endif
extern "C" void perms() {
  typedef BiPermMatrix<int> BP; const int n = 1 + sx_choose(PN); int p[PN];
  BP P(n); const int mode = sx_choose(3);
  if (mode == 0) { mkperm(n, p); for (int i = 0; i < n; ++i) P[i] = p[i]; P.build_inv(); }
  else if (mode == 1) { for (int i = 0; i < n; ++i) p[i] = i; P.make_eye(); sx_assert(P.is_eye(), "identity recognised"); }
  else { mkperm(n, p); Array<int> a(n); for (int i = 0; i < n; ++i) a[i] = p[i]; P = BP(a, true); P.build_inv(); for (int i = 0; i < n; ++i) a[i] = 0; }
  for (int t = 0; t <= PSTEPS; ++t) {
    sx_assert((int)P.size() == n && (int)P.inv().size() == n && (int)P().size() == n, "sizes"); bool eye = true;
    for (int i = 0; i < n; ++i) { sx_assert(P[i] == p[i], "forward map"); sx_assert(P.inv(p[i]) == i && P.inv()[p[i]] == i, "inverse map"); if (p[i] != i) eye = false; }
    sx_assert(P.is_eye() == eye, "identity recognised");
    if (t == PSTEPS) break;
    const int i = sx_int("i", 0, n - 1), j = sx_int("j", 0, n - 1), op = sx_choose(4);
    if (op == 0) { P.interchange(i, j); const int a = sx_conc(i), b = sx_conc(j), u = p[a]; p[a] = p[b]; p[b] = u; sx_cover("interchange"); }
    else if (op == 1) { P.interchange_inv(i, j); const int a = sx_conc(i), b = sx_conc(j); for (int k = 0; k < n; ++k) p[k] = p[k] == a ? b : p[k] == b ? a : p[k]; sx_cover("inverse interchange"); }
    else if (op == 2) { BP Q(P, true); P.interchange(0, n - 1); for (int k = 0; k < n; ++k) sx_assert(Q[k] == p[k] && Q.inv(p[k]) == k, "clone is independent"); P = Q; }
    else { P.make_eye(); for (int k = 0; k < n; ++k) p[k] = k; }
  }
  double x[PN], y[PN]; for (int i = 0; i < n; ++i) x[i] = newv(); for (int i = 0; i < n; ++i) y[i] = x[P[i]]; for (int i = 0; i < n; ++i) sx_eq(y[P.inv(i)], x[i], "forwards then backwards"); sx_cover("end");
}
