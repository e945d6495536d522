// P01, P04, P05: compressed storage conversions, splitting/permuting/scaling/pruning, validation.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef NN
#define NN 3
#endif
static const int MX = NN;
typedef Pic<TA, MX> pic; typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
static pic anypic(int lo = 0) { pic d; d.n = lo + sx_choose(MX + 1 - lo); d.m = lo + sx_choose(MX + 1 - lo); mkpic(d, -9, 9); return d; }

extern "C" void conv() {
  pic d = anypic(); const bool rev = sx_choose(2);
  const long live0 = sx_heap_live();
  {
  const crs R = mkcrs<crs>(d, rev); const ccs C = mkccs<ccs>(d, rev);
  ccs RC(R); chkccs(RC, d, true, "row to column form");
  crs CR(C); chkcrs(CR, d, true, "column to row form");
  crs RR(RC); chkcrs(RR, d, true, "round trip from rows"); ccs CC(CR); chkccs(CC, d, true, "round trip from columns");
  chkcrs(R, d, !rev, "source unchanged"); chkccs(C, d, !rev, "source unchanged");
  crs sh(R), cl(R, true); chkcrs(cl, d, !rev, "clone"); chkcrs(sh, d, !rev, "shallow copy"); sx_assert(d.nnz() == 0 || sh.vals().data() == R.vals().data(), "shallow copy shares"); sx_assert(d.nnz() == 0 || cl.vals().data() != R.vals().data(), "clone is independent");
  ccs clc(C, true); chkccs(clc, d, !rev, "clone");
  int st[MX + 1], in[MX * MX + 1]; TA va[MX * MX + 1]; Array<int> ast, ain; Array<TA> ava;
  export_compressed_data<crs>(C, st, in, va); { crs W(d.n, d.m, st, in, va, true); chkcrs(W, d, true, "export as rows"); sx_assert((int)W.nnz() == d.nnz(), "export as rows"); }
  export_compressed_data<ccs>(R, st, in, va); { ccs W(d.n, d.m, st, in, va, true); chkccs(W, d, true, "export as columns"); }
  { crs W(d.n, d.m, st, in, va, false); (void)W; }
  if (d.n) { // assembly by rows from dense arrays
    crs B(d.n, d.m); B.begin_assemble_rows(); Array<TA> dv(d.m), dw(d.m);
    for (int i = 0; i < d.n; ++i) {
      int a[MX], b[MX], na = 0, nb = 0; for (int j = 0; j < d.m; ++j) { dv[j] = dw[j] = d.v[i][j]; if (d.p[i][j]) { if (j < d.m / 2) a[na++] = j; else b[nb++] = j; } }
      if (na + nb == 0) B.push_back_empty_row(i); else if (i & 1) B.push_back_row(i, a, a + na, dv, b, b + nb, dw); else { for (int k = 0; k < nb; ++k) a[na + k] = b[k]; B.push_back_row(i, a, a + na + nb, dv); }
    }
    B.end_assemble_rows(); chkcrs(B, d, true, "row assembly");
  }
  if (rev) sx_cover("unsorted"); sx_cover("sorted");
  }
  sx_assert(sx_heap_live() == live0, "storage released");
}
// coordinate form with symbolic positions
extern "C" void coo() {
  const int n = 1 + sx_choose(MX), m = 1 + sx_choose(MX), nz = sx_choose(NN + 1);
  Array<int> r(nz), c(nz); Array<TA> v(nz);
  for (int k = 0; k < nz; ++k) { r[k] = sx_int("r", 0, n - 1); c[k] = sx_int("c", 0, m - 1); mk(v[k], "v", -9, 9); for (int q = 0; q < k; ++q) sx_assume(!(r[q] == r[k] && c[q] == c[k])); }
  Array<int> st, in, st2, in2; Array<TA> va, va2;
  convert_coo2cs(n, m, r, c, v, st, in, va); convert_coo2cs(m, n, c, r, v, st2, in2, va2);
  pic d(n, m); for (int k = 0; k < nz; ++k) { const int i = sx_conc(r[k]), j = sx_conc(c[k]); d.p[i][j] = true; d.v[i][j] = v[k]; }
  crs A; A.resize(n, m); A.row_start() = st; A.col_ind() = in; A.vals() = va; chkcrs(A, d, true, "coordinates to rows"); sx_assert((int)A.nnz() == nz, "coordinates to rows");
  ccs B; B.resize(n, m); B.col_start() = st2; B.row_ind() = in2; B.vals() = va2; chkccs(B, d, true, "coordinates to columns");
  sx_cover("end");
}
extern "C" void split() {
  pic d = anypic(); const crs R = mkcrs<crs>(d); const ccs C = mkccs<ccs>(d);
  {
    const int m = sx_choose(d.m + 1); const pic a = d.sub(0, d.n, 0, m), b = d.sub(0, d.n, m, d.m);
    Array<int> start(d.n); for (int i = 0; i < d.n; ++i) { int k = R.row_start()[i]; for (int j = 0; j < m; ++j) k += d.p[i][j]; start[i] = k; }
    chkcrs(R.template split<false>(m), a, true, "left part"); chkcrs(R.template split<true>(m), b, true, "right part");
    chkcrs(R.template split<false>(m, start), a, true, "left part (positions)"); chkcrs(R.template split<true>(m, start), b, true, "right part (positions)");
    auto pr = R.split(m); chkcrs(pr.first, a, true, "pair"); chkcrs(pr.second, b, true, "pair"); auto pr2 = R.split(m, start); chkcrs(pr2.first, a, true, "pair"); chkcrs(pr2.second, b, true, "pair");
    chkccs(R.template split_ccs<false>(m), a, true, "left part by columns"); chkccs(R.template split_ccs<true>(m), b, true, "right part by columns");
    chkccs(R.template split_ccs<false>(m, start), a, true, "left part by columns"); chkccs(R.template split_ccs<true>(m, start), b, true, "right part by columns");
    auto pc = R.split_ccs(m); chkccs(pc.first, a, true, "pair"); chkccs(pc.second, b, true, "pair");
  }
  {
    const int m = sx_choose(d.n + 1); const pic a = d.sub(0, m, 0, d.m), b = d.sub(m, d.n, 0, d.m);
    Array<int> start(d.m); for (int j = 0; j < d.m; ++j) { int k = C.col_start()[j]; for (int i = 0; i < m; ++i) k += d.p[i][j]; start[j] = k; }
    chkccs(C.template split<false>(m), a, true, "upper part"); chkccs(C.template split<true>(m), b, true, "lower part");
    chkccs(C.template split<false>(m, start), a, true, "upper part (positions)"); chkccs(C.template split<true>(m, start), b, true, "lower part (positions)");
    auto pr = C.split(m, start); chkccs(pr.first, a, true, "pair"); chkccs(pr.second, b, true, "pair");
    chkcrs(C.template split_crs<false>(m), a, true, "upper part by rows"); chkcrs(C.template split_crs<true>(m), b, true, "lower part by rows");
    auto pc = C.split_crs(m, start); chkcrs(pc.first, a, true, "pair"); chkcrs(pc.second, b, true, "pair");
  }
  const int k = sx_choose((d.n < d.m ? d.n : d.m) + 1); const pic l = d.sub(0, k, 0, k);
  chkcrs(R.extract_leading(k), l, true, "leading block"); chkccs(C.extract_leading(k), l, true, "leading block");
  bool t = false; try { R.template split<false>(d.m + 1); } catch (const std::exception &) { t = true; } sx_assert(t, "split beyond the end accepted");
  chkcrs(R, d, true, "source unchanged"); chkccs(C, d, true, "source unchanged"); sx_cover("end");
}
extern "C" void perm() {
  pic d = anypic(1); int p[MX], q[MX]; mkperm(d.n, p); mkperm(d.m, q);
  const int mn = d.n < d.m ? d.n : d.m, L = sx_choose(mn + 1); const bool so = sx_choose(2);
  Array<int> P(d.n), PT(d.n), Q(d.m), QT(d.m); for (int i = 0; i < d.n; ++i) { P[i] = p[i]; PT[p[i]] = i; } for (int j = 0; j < d.m; ++j) { Q[j] = q[j]; QT[q[j]] = j; }
  pic e(d.n, d.m); for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) { e.p[i][j] = d.p[p[i]][q[j]]; e.v[i][j] = d.v[p[i]][q[j]]; }
  if (L) e = e.sub(0, L, 0, L);
  const crs R = mkcrs<crs>(d, sx_choose(2)); const ccs C = mkccs<ccs>(d);
  const crs a = R.compute_perm(P, QT, L, so); chkcrs(a, e, true, "permuted rows", !so); if (!so) sx_assert((int)a.nnz() == e.nnz() && (int)a.vals().size() == e.nnz(), "permuted rows");
  const ccs b = C.compute_perm(PT, Q, L, so); chkccs(b, e, true, "permuted columns", !so); if (!so) sx_assert((int)b.nnz() == e.nnz(), "permuted columns");
  sx_cover(L ? "leading" : "all"); if (so) sx_cover("structure");
}
extern "C" void scale() {
  pic d = anypic(); Array<double> s(d.n), t(d.m); for (int i = 0; i < d.n; ++i) s[i] = sx_dbl("s", -3, 3, -1); for (int j = 0; j < d.m; ++j) t[j] = sx_dbl("t", -3, 3, -1);
  const int w = sx_choose(3); pic e = d; for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) { if (w != 1) e.v[i][j] = e.v[i][j] * s[i]; if (w != 0) e.v[i][j] = e.v[i][j] * t[j]; }
  crs R = mkcrs<crs>(d); ccs C = mkccs<ccs>(d);
  if (w == 0) R.scale_diag_left(s), C.scale_diag_left(s); else if (w == 1) R.scale_diag_right(t), C.scale_diag_right(t); else R.scale_diags(s, t), C.scale_diags(s, t);
  chkcrs(R, e, true, "scaled rows"); chkccs(C, e, true, "scaled columns"); sx_cover("end");
}
#ifndef PRN
#define PRN 2
#endif
static double mag(double a) { return __builtin_fabs(a); }
extern "C" void prune() {
  Pic<double, MX> d; d.n = 1 + sx_choose(PRN); d.m = 1 + sx_choose(2); mkpic(d, -9, 9); const int ke = sx_choose(3); const double eps = ke == 0 ? 0.0 : ke == 1 ? 0.5 : 0.125; const bool shrink = sx_choose(2), row = sx_choose(2);
  double rm[MX], cm[MX]; for (int i = 0; i < MX; ++i) rm[i] = cm[i] = 0;
  for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) if (d.p[i][j]) { const double a = mag(d.v[i][j]); if (a > rm[i]) rm[i] = a; if (a > cm[j]) cm[j] = a; }
  Pic<double, MX> e = d; int k = 0; for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) if (d.p[i][j] && mag(d.v[i][j]) <= eps * (rm[i] < cm[j] ? rm[i] : cm[j])) { e.p[i][j] = false; ++k; }
  typedef CRS<double, int, int> crs1; typedef CCS<double, int, int> ccs1;
  if (row) { crs1 R = mkcrs<crs1>(d); const int g = R.prune(eps, shrink); sx_assert(g == k, "number of pruned entries"); chkcrs(R, e, true, "pruned rows"); }
  else { ccs1 C = mkccs<ccs1>(d); const int g = C.prune(eps, shrink); sx_assert(g == k, "number of pruned entries"); chkccs(C, e, true, "pruned columns"); }
  if (k) sx_cover("pruned"); sx_cover("end");
}
// arbitrary (possibly hostile) offsets and indices
#ifndef VN
#define VN 2
#endif
#ifndef VZ
#define VZ 3
#endif
extern "C" void valid() {
  const int n = sx_choose(VN + 1), m = sx_choose(VN + 1), nz = sx_choose(VZ + 1), kind = sx_choose(4);
  int st[VN + 2], in[VZ + 1]; double va[VZ + 1]; bool ok = true;
  for (int i = 0; i <= n; ++i) st[i] = sx_int("start", -1, nz + (kind < 2 ? 1 : 1));
  for (int k = 0; k < nz; ++k) { in[k] = sx_int("ind", -1, m); va[k] = k + 1; }
  bool fits = true; if (kind >= 2) { sx_assume(st[n] <= nz); }  // wrapped memory has nz entries
  ok = st[0] == 0; for (int i = 0; ok && i < n; ++i) ok = st[i] <= st[i + 1]; if (ok) ok = st[n] <= nz;
  bool sorted = true;
  if (ok) for (int i = 0; i < n; ++i) { const int b = sx_conc(st[i]), e = sx_conc(st[i + 1]); for (int k = b; k < e; ++k) { if (in[k] < 0 || in[k] >= m) ok = false; if (k > b && in[k] <= in[k - 1]) sorted = false; } }
  (void)fits; bool accepted = true;
  const double v0 = va[0]; (void)v0;
  try {
    if (kind == 0 || kind == 1) { // library-owned storage
      Array<int> S(n + 1), I(nz); Array<double> V(nz); for (int i = 0; i <= n; ++i) S[i] = st[i]; for (int k = 0; k < nz; ++k) { I[k] = in[k]; V[k] = va[k]; }
      if (kind == 0) { CRS<double, int, int> A; A.resize(n, m); A.row_start() = S; A.col_ind() = I; A.vals() = V; A.check_validity(); }
      else { CCS<double, int, int> A; A.resize(m, n); A.col_start() = S; A.row_ind() = I; A.vals() = V; A.check_validity(); }
    } else if (kind == 2) { // user memory, exactly as large as declared
      int *S = (int *)sx_malloc(sizeof(int) * (n + 1)), *I = (int *)sx_malloc(sizeof(int) * nz); double *V = (double *)sx_malloc(8 * nz); for (int i = 0; i <= n; ++i) S[i] = st[i]; for (int k = 0; k < nz; ++k) { I[k] = in[k]; V[k] = va[k]; }
      auto A = wrap_const_crs<double, int, int>(n, m, S, I, V); sx_assert(A.vals().data() == V && A.col_ind().data() == I && A.row_start().data() == S, "wrapping must not copy");
    } else {
      int *S = (int *)sx_malloc(sizeof(int) * (n + 1)), *I = (int *)sx_malloc(sizeof(int) * nz); double *V = (double *)sx_malloc(8 * nz); for (int i = 0; i <= n; ++i) S[i] = st[i]; for (int k = 0; k < nz; ++k) { I[k] = in[k]; V[k] = va[k]; }
      auto A = wrap_const_ccs<double, int, int>(m, n, S, I, V); sx_assert(A.vals().data() == V && A.row_ind().data() == I && A.col_start().data() == S, "wrapping must not copy");
    }
  } catch (const std::exception &) { accepted = false; }
  if (ok && sorted) { sx_assert(accepted, "well-formed matrix rejected"); sx_cover("accepted"); }
  else { sx_assert(!accepted, "malformed matrix accepted"); sx_cover("rejected"); }
}
extern "C" void shortptr() { // offset array shorter than the declared size
  const int n = 1 + sx_choose(3), k = sx_choose(n + 1); bool t = false;
  Array<int> S(k), I(1); Array<double> V(1); for (int i = 0; i < k; ++i) S[i] = 0; I[0] = 0; V[0] = 1;
  CRS<double, int, int> A; A.resize(n, 1); A.row_start() = S; A.col_ind() = I; A.vals() = V;
  try { A.check_validity(); } catch (const std::exception &) { t = true; } sx_assert(t, "short offset array accepted"); sx_cover("end");
}
