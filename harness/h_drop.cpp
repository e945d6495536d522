// P09: work vectors and dropping.
#define SX_ERR_IS_FAIL
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef NV
#define NV 3
#endif
#ifndef SSTEPS
#define SSTEPS 2
#endif
#ifndef TA
#define TA double
#endif
static double mag(double v) { return __builtin_fabs(v); }
static double mag(float v) { return __builtin_fabsf(v); }
// values of a complex vector are purely real or purely imaginary, so their modulus is exact
template <class R> static double mag(const std::complex<R> &v) { return __builtin_fabs((double)v.real()) + __builtin_fabs((double)v.imag()); }
static void mkv(double &v, int) { v = sx_dbl("v", -6, 6, 0); }
template <class R> static void mkv(std::complex<R> &v, int i) { const R r = (R)sx_dbl("v", -6, 6, 0); if (i & 1) v = std::complex<R>(0, r); else v = std::complex<R>(r, 0); }
typedef SparseVector<TA, int> SV;
// in histories of several steps the values are a fixed sample with a tie: what matters there is the state left behind
static bool symb;
static void getv(TA &v, int i) { if (symb) mkv(v, i); else v = TA(i == 2 ? 2 : i == 1 ? -1 : 1); }
struct Model { bool in[NV]; TA v[NV]; int n; };
static void same(SV &s, const Model &m, const char *l) {
  int c = 0; bool seen[NV] = {}; for (int i = 0; i < NV; ++i) c += m.in[i]; sx_assert((int)s.size() == c, l); sx_assert(s.empty() == (c == 0), l);
  for (int k = 0; k < c; ++k) { const long i = s.idx(k); sx_assert(i >= 0 && i < NV && m.in[i] && !seen[i], l); seen[i] = true; eqv(s.val(k), m.v[i], l); eqv(s[i], m.v[i], l); }
}
extern "C" void spvec() {
  static Model m; m.n = 0; SV s; if (sx_choose(2)) s = SV(NV); else s.resize(NV);
  for (int i = 0; i < NV; ++i) { m.in[i] = false; m.v[i] = TA(0); }
  for (int t = 0; t < SSTEPS; ++t) {
    symb = SSTEPS == 1; s.reset_counter(); for (int i = 0; i < NV; ++i) m.in[i] = false; same(s, m, "new step starts empty");
    // gather entries in any order, some twice
    int pr[NV]; mkperm(NV, pr);
    for (int k = 0; k < NV; ++k) { const int i = pr[k]; if (!sx_choose(2)) continue; sx_assert(s.push_back(i, t), "first push of an index in a step"); m.in[i] = true; getv(m.v[i], i); s[i] = m.v[i]; sx_assert(!s.push_back(i, t), "second push of an index in a step"); }
    same(s, m, "gathered");
    const int op = sx_choose(4);
    if (op == 0) { // threshold
      const double tau[] = {0.0, 0.25, 1.0, 3.0}; const double kap[] = {0.5, 1.0, 4.0}; const int a = symb ? sx_choose(4) : 2; const int b = symb ? sx_choose(3) : 1; const double th = tau[a] / kap[b];
      apply_num_dropping(tau[a], kap[b], s); if (th > 0) for (int i = 0; i < NV; ++i) if (m.in[i] && mag(m.v[i]) <= th) { m.in[i] = false; sx_cover("dropped by threshold"); }
      same(s, m, "threshold dropping");
    } else if (op == 1) { // space
      const double al[] = {0.0, 0.4, 1.0, 1.5}; const int a = symb ? sx_choose(4) : 2; const int nnz = symb ? sx_choose(4) : 1; const int st = symb ? sx_choose(3) : 0;
      long lim; if (al[a] <= 0) lim = NV; else { const double f = al[a] * nnz; lim = (long)f; if (lim < f) ++lim; if (st >= lim) lim = st + 1; lim -= st; }
      apply_space_dropping(nnz, al[a], s, st);
      int c = 0; for (int i = 0; i < NV; ++i) c += m.in[i]; const long want = c < lim ? c : lim; sx_assert((long)s.size() == want, "number of kept entries");
      bool keep[NV] = {}; for (long k = 0; k < want; ++k) { const long i = s.idx(k); sx_assert(i >= 0 && i < NV && m.in[i] && !keep[i], "kept entry"); keep[i] = true; }
      for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) if (keep[i] && m.in[j] && !keep[j]) { sx_assert(mag(m.v[j]) <= mag(m.v[i]), "a dropped entry is larger than a kept one"); sx_cover("dropped by space"); }
      for (int i = 0; i < NV; ++i) m.in[i] = keep[i]; same(s, m, "space dropping");
    } else if (op == 2) { // explicit deletion
      bool del[NV] = {}; for (int k = 0; k < (int)s.size(); ++k) if (sx_choose(2)) { s.mark_delete(k); del[s.idx(k)] = true; }
      s.compress_indices(); for (int i = 0; i < NV; ++i) if (del[i]) m.in[i] = false; same(s, m, "deleted");
      s.sort_indices(); for (int k = 1; k < (int)s.size(); ++k) sx_assert(s.idx(k - 1) < s.idx(k), "sorted"); same(s, m, "sorted");
    } else { // redo the step from scratch
      s.restore_cur_state(); s.reset_counter(); for (int i = 0; i < NV; ++i) m.in[i] = false;
      for (int i = 0; i < NV; ++i) if (sx_choose(2)) { sx_assert(s.push_back(i, t), "push after restore"); m.in[i] = true; getv(m.v[i], i); s[i] = m.v[i]; } same(s, m, "restored"); sx_cover("restored");
    }
    // no deletion mark survives
    const int n = s.size(); s.compress_indices(); sx_assert((int)s.size() == n, "stale deletion mark"); same(s, m, "after compress");
  }
  sx_cover("end");
}
extern "C" void spacc() {  // reductions and searches over the stored entries
  SV s(NV); Model m; for (int i = 0; i < NV; ++i) { m.in[i] = false; m.v[i] = TA(0); }
  int pr[NV]; mkperm(NV, pr); for (int k = 0; k < NV; ++k) if (sx_choose(2)) { const int i = pr[k]; s.push_back(i, 0); m.in[i] = true; mkv(m.v[i], i); s[i] = m.v[i]; } else s[pr[k]] = TA(50);
  double n1 = 0, n2 = 0, mx = 0; for (int i = 0; i < NV; ++i) if (m.in[i]) { n1 += mag(m.v[i]); n2 += mag(m.v[i]) * mag(m.v[i]); if (mag(m.v[i]) > mx) mx = mag(m.v[i]); }
  sx_eq(s.norm1(), n1, "norm1"); sx_eq(s.norm2_sq(), n2, "norm2_sq"); sx_eq(s.max_mag(), mx, "max_mag");
  const std::size_t none = std::numeric_limits<std::size_t>::max();
  const std::size_t im = s.imax_mag(); if (s.empty()) sx_assert(im == none, "imax_mag of nothing"); else { sx_assert(im < NV && m.in[im], "imax_mag"); sx_eq(mag(m.v[im]), mx, "imax_mag"); }
  const int bound = sx_choose(NV + 1); auto op = [bound](int i) -> bool { return i < bound; };
  double mb = -1; int have = 0; for (int i = 0; i < bound && i < NV; ++i) if (m.in[i]) { ++have; if (mag(m.v[i]) > mb) mb = mag(m.v[i]); }
  const std::size_t ib = s.imax_mag(op), fi = s.find_if(op);
  if (!have) { sx_assert(ib == none && fi == none, "search without a match"); sx_cover("none"); } else { sx_assert(ib < (std::size_t)bound && m.in[ib], "imax_mag in range"); sx_eq(mag(m.v[ib]), mb, "imax_mag in range"); sx_assert(fi < (std::size_t)bound && m.in[fi], "find_if"); sx_cover("found"); }
  s.scale(TA(-2)); for (int i = 0; i < NV; ++i) if (m.in[i]) m.v[i] = m.v[i] * TA(-2); same(s, m, "scale");
}
// space dropping on longer vectors, where the selection algorithm partitions instead of sorting
extern "C" void spbig() {
  static Model m; m.n = 0; SV s(NV); const int lim = 1 + sx_choose(NV - 1), st = sx_choose(2), nnz = lim + st;
  for (int i = 0; i < NV; ++i) { s.push_back(i, 0); m.in[i] = true; const double v = sx_dbl("v", 0, 15, 0); m.v[i] = TA(i & 1 ? -v : v); s[i] = m.v[i]; }
  apply_space_dropping(nnz, 1.0, s, st); sx_assert((int)s.size() == lim, "number of kept entries");
  bool keep[NV] = {}; for (int k = 0; k < lim; ++k) { const long i = s.idx(k); sx_assert(i >= 0 && i < NV && !keep[i], "kept entry"); keep[i] = true; }
  for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) if (keep[i] && !keep[j]) sx_assert(mag(m.v[j]) <= mag(m.v[i]), "a dropped entry is larger than a kept one");
  for (int i = 0; i < NV; ++i) m.in[i] = keep[i]; same(s, m, "space dropping"); s.compress_indices(); same(s, m, "after compress"); sx_cover("end");
}
// one long row/column of an off-diagonal block
extern "C" void offbig() {
  enum { W = 5 }; typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs; const int lim = 1 + sx_choose(W - 1); const bool col = sx_choose(2);
  Pic<TA, W> d(2, W); for (int j = 0; j < W; ++j) { d.p[0][j] = true; const double v = sx_dbl("v", 0, 15, 0); d.v[0][j] = TA(j & 1 ? -v : v); d.p[1][j] = j == 2; if (j == 2) d.v[1][j] = TA(3); }
  Array<int> ref(3); ref[0] = 0; ref[1] = lim; ref[2] = lim + 1; Array<TA> buf(W); Array<int> ib(W); crs L; ccs U;
  if (!col) { L = mkcrs<crs>(d); drop_L_E(ref, 1.0, L, buf, ib); } else { U = mkccs<ccs>(d.tr()); drop_U_F(ref, 1.0, U, buf, ib); }
  auto &pt = col ? U.col_start() : L.row_start(); auto &ix = col ? U.row_ind() : L.col_ind(); auto &vl = col ? U.vals() : L.vals();
  sx_assert(pt[0] == 0 && pt[1] == lim && pt[2] == lim + 1, "kept in one vector"); bool keep[W] = {};
  for (int k = 0; k < lim; ++k) { const long j = ix[k]; sx_assert(j >= 0 && j < W && !keep[j], "kept entry"); keep[j] = true; eqv(vl[k], d.v[0][j], "kept value"); }
  for (int i = 0; i < W; ++i) for (int j = 0; j < W; ++j) if (keep[i] && !keep[j]) sx_assert(mag(d.v[0][j]) <= mag(d.v[0][i]), "a dropped entry is larger than a kept one");
  sx_assert(ix[lim] == 2, "next vector"); eqv(vl[lim], TA(3), "next vector"); sx_cover("end");
}
// dropping in the off-diagonal factor blocks: at most ceil(alpha*reference) largest entries of every row/column
typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
#ifndef ON
#define ON 2
#endif
#ifndef OM
#define OM 3
#endif
enum { MXO = ON > OM ? ON : OM };
extern "C" void offdrop() {
  Pic<TA, MXO> d(1 + sx_choose(ON), 1 + sx_choose(OM)); for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.m; ++j) { d.p[i][j] = sx_choose(2); if (d.p[i][j]) mkv(d.v[i][j], j); }
  Array<int> ref(d.n + 1); int rs[MXO]; ref[0] = 0; for (int i = 0; i < d.n; ++i) { rs[i] = sx_choose(3); ref[i + 1] = ref[i] + rs[i]; }
  const double al[] = {0.0, 0.5, 1.0, 1.5}; const int a = sx_choose(4);
  Array<TA> buf(MXO); Array<int> ib(MXO); const bool col = sx_choose(2); const bool rev = sx_choose(2);
  crs L; ccs U; if (!col) { L = mkcrs<crs>(d, rev); drop_L_E(ref, al[a], L, buf, ib); } else { U = mkccs<ccs>(d.tr(), rev); drop_U_F(ref, al[a], U, buf, ib); }
  auto &st = col ? U.col_start() : L.row_start(); auto &ix = col ? U.row_ind() : L.col_ind(); auto &vl = col ? U.vals() : L.vals();
  sx_assert(st[0] == 0, "offsets");
  for (int i = 0; i < d.n; ++i) {
    int c = 0; for (int j = 0; j < d.m; ++j) c += d.p[i][j]; const double f = al[a] * rs[i]; long lim = (long)f; if (lim < f) ++lim; const long want = c < lim ? c : lim;
    sx_assert(st[i + 1] - st[i] == want, "kept in one vector"); bool keep[MXO] = {};
    sx_assert((long)ix.size() >= st[i + 1] && (long)vl.size() >= st[i + 1], "array sizes");
    for (long k = st[i]; k < st[i + 1]; ++k) { const long j = ix[k]; sx_assert(j >= 0 && j < d.m && d.p[i][j] && !keep[j], "kept entry"); keep[j] = true; eqv(vl[k], d.v[i][j], "kept value"); }
    for (int j = 0; j < d.m; ++j) for (int q = 0; q < d.m; ++q) if (keep[j] && d.p[i][q] && !keep[q]) { sx_assert(mag(d.v[i][q]) <= mag(d.v[i][j]), "a dropped entry is larger than a kept one"); sx_cover("dropped"); }
  }
  sx_assert((long)ix.size() == (long)st[d.n] && (long)vl.size() == (long)st[d.n], "trailing entries"); sx_cover("end");
}
