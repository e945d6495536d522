// P07: augmented (linked) sparse storage under append, interchange and deferral.
#define SX_ERR_IS_FAIL
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef NPRI
#define NPRI 3
#endif
#ifndef NSEC
#define NSEC 3
#endif
#ifndef ASTEPS
#define ASTEPS 2
#endif
#ifndef TA
#define TA double
#endif
enum { MXS = NSEC + ASTEPS + 1 };
typedef CRS<TA, int, int> crs; typedef CCS<TA, int, int> ccs;
// uniform access to both storages: primary = stored direction, secondary = linked direction
struct R {
  typedef AugCRS<crs> A; typedef crs base; typedef ccs other;
  static A make(int p, int s) { return A(p, s); }
  static void begin(A &a) { a.begin_assemble_rows(); }
  template <class I> static void push(A &a, int r, I f, I l, const Array<TA> &v) { a.push_back_row(r, f, l, v); }
  template <class I> static void push2(A &a, int r, I f, I m, const Array<TA> &v, I m2, I l, const Array<TA> &v2) { a.push_back_row(r, f, m, v, m2, l, v2); }
  static void swap(A &a, int i, int k) { a.interchange_cols(i, k); }
  static void defer(A &a, int f, int t) { a.defer_col(f, t); }
  static auto &st(A &a) { return a.row_start(); } static auto &ix(A &a) { return a.col_ind(); }
  static long first(A &a, int s) { return a.start_col_id(s); } static long next(A &a, long id) { return a.next_col_id(id); } static long pri(A &a, long id) { return a.row_idx(id); }
  static TA val(A &a, long id) { return a.val_from_col_id(id); } static long cnt(A &a, int s) { return a.nnz_in_col(s); } static long end(A &a, int s) { return a.col_end()[s]; }
  static void build(A &a, const base &b, int k) { if (k == 0) a.build_aug(b); else if (k == 1) a.build_aug(b, true); else { base c(b, true); a.build_aug(std::move(c)); } }
  static void build(A &a, const other &b) { a.build_aug(b); }
};
struct C {
  typedef AugCCS<ccs> A; typedef ccs base; typedef crs other;
  static A make(int p, int s) { return A(s, p); }
  static void begin(A &a) { a.begin_assemble_cols(); }
  template <class I> static void push(A &a, int r, I f, I l, const Array<TA> &v) { a.push_back_col(r, f, l, v); }
  template <class I> static void push2(A &a, int r, I f, I m, const Array<TA> &v, I m2, I l, const Array<TA> &v2) { a.push_back_col(r, f, m, v, m2, l, v2); }
  static void swap(A &a, int i, int k) { a.interchange_rows(i, k); }
  static void defer(A &a, int f, int t) { a.defer_row(f, t); }
  static auto &st(A &a) { return a.col_start(); } static auto &ix(A &a) { return a.row_ind(); }
  static long first(A &a, int s) { return a.start_row_id(s); } static long next(A &a, long id) { return a.next_row_id(id); } static long pri(A &a, long id) { return a.col_idx(id); }
  static TA val(A &a, long id) { return a.val_from_row_id(id); } static long cnt(A &a, int s) { return a.nnz_in_row(s); } static long end(A &a, int s) { return a.row_end()[s]; }
  static void build(A &a, const base &b, int k) { if (k == 0) a.build_aug(b); else if (k == 1) a.build_aug(b, true); else { base c(b, true); a.build_aug(std::move(c)); } }
  static void build(A &a, const other &b) { a.build_aug(b); }
};
template <class K> struct T_ {
  typedef typename K::A A;
  bool p[NPRI + 1][MXS]; TA v[NPRI + 1][MXS]; int np, ns; // np: primaries assembled so far
  void check(A &a, const char *l) {
    long tot = 0; bool reach[NPRI + 1][MXS] = {};
    sx_assert(K::st(a)[0] == 0, l);
    for (int i = 0; i < np; ++i) {   // stored view: sorted, exactly the model entries
      long k = K::st(a)[i]; 
      for (int j = 0; j < ns; ++j) if (p[i][j]) { sx_assert(k < (long)K::st(a)[i + 1], l); sx_assert(K::ix(a)[k] == j, l); eqv(a.vals()[k], v[i][j], l); ++k; ++tot; }
      sx_assert(k == (long)K::st(a)[i + 1], l);
    }
    sx_assert((long)a.val_pos().size() == tot, l); unsigned long vp = 0;
    for (int j = 0; j < ns; ++j) {   // linked view: increasing primaries, each entry once, right value position
      long id = K::first(a, j), prev = -1, c = 0, last = -1;
      while (!a.is_nil(id)) {
        sx_assert(id >= 0 && id < tot, "linked list handle out of range"); const long i = K::pri(a, id); sx_assert(i > prev && i < np, "linked list order"); prev = i; sx_assert(p[i][j], "linked list holds a wrong entry");
        const long q = a.val_pos_idx(id); sx_assert(q >= K::st(a)[i] && q < K::st(a)[i + 1], "value position outside its vector"); sx_assert(K::ix(a)[q] == j, "value position refers to another index"); sx_assert(!(vp >> q & 1), "value position used twice"); vp |= 1ul << q;
        eqv(K::val(a, id), v[i][j], "linked value"); reach[i][j] = true; last = id; id = K::next(a, id); ++c;
      }
      sx_assert(c == K::cnt(a, j), "list count"); if (last >= 0) sx_assert(K::end(a, j) == last, "list tail"); else sx_assert(a.is_nil(K::end(a, j)), "tail of an empty list");
    }
    for (int i = 0; i < np; ++i) for (int j = 0; j < ns; ++j) sx_assert(reach[i][j] == p[i][j], "linked list misses an entry");
  }
  void newrow(int s0) { for (int j = 0; j < ns; ++j) { p[np][j] = false; v[np][j] = TA(0); } for (int j = 0; j < s0; ++j) { p[np][j] = sx_choose(2); if (p[np][j]) mk(v[np][j], "v", -9, 9); } }
  void append(A &a, int s0) {
    newrow(s0); Array<int> ind; Array<TA> d(ns), d2(ns); long c = 0; for (int j = 0; j < ns; ++j) { if (p[np][j]) ind.push_back(j); d[j] = v[np][j]; d2[j] = v[np][j]; }
    long m = ind.size(); if (m > 1 && sx_choose(2)) { const long h = m / 2; for (int j = 0; j < ns; ++j) { if (j < ind[h]) d2[j] = TA(77); else d[j] = TA(77); } K::push2(a, np, ind.cbegin(), ind.cbegin() + h, d, ind.cbegin() + h, ind.cend(), d2); sx_cover("two parts"); }
    else K::push(a, np, ind.cbegin(), ind.cend(), d);
    ++np; (void)c;
  }
  void run() {
    ns = MXS; np = 0; int occ = 1 + sx_choose(NSEC);   // secondaries in use so far
    A a = K::make(NPRI + 1, ns); K::begin(a);
    const int n0 = sx_choose(NPRI + 1); for (int i = 0; i < n0; ++i) append(a, occ);
    check(a, "assembled");
    for (int t = 0; t < ASTEPS; ++t) {
      const int op = sx_choose(3);
      if (op == 0) { const int i = sx_choose(occ); const int k = sx_choose(occ); K::swap(a, i, k); for (int r = 0; r < np; ++r) { std::swap(p[r][i], p[r][k]); std::swap(v[r][i], v[r][k]); } check(a, "interchange"); sx_cover("interchange"); }
      else if (op == 1) { const int f = sx_choose(occ); K::defer(a, f, occ); for (int r = 0; r < np; ++r) { std::swap(p[r][f], p[r][occ]); std::swap(v[r][f], v[r][occ]); } ++occ; check(a, "defer"); sx_cover("defer"); }
      else { if (np > NPRI) break; append(a, occ < NSEC ? occ : NSEC); check(a, "append"); sx_cover("append"); }
    }
  }
  void built() {
    ns = 1 + sx_choose(NSEC); const int n = 1 + sx_choose(NPRI); np = 0; for (int i = 0; i < n; ++i) { newrow(ns); ++np; }
    Pic<TA, MXS> d(np, ns), dt(ns, np); for (int i = 0; i < np; ++i) for (int j = 0; j < ns; ++j) { d.p[i][j] = p[i][j]; d.v[i][j] = v[i][j]; dt.p[j][i] = p[i][j]; dt.v[j][i] = v[i][j]; }
    sx_assume(d.nnz() > 0); // a matrix that owns no value array is refused by build_aug
    A a; const int k = sx_choose(4); bld(a, d, dt, k); check(a, "built"); sx_cover("built");
    if (ns > 1) { const int i = sx_choose(ns); const int q = sx_choose(ns); K::swap(a, i, q); for (int r = 0; r < np; ++r) { std::swap(p[r][i], p[r][q]); std::swap(v[r][i], v[r][q]); } check(a, "built interchange"); }
    { A b; b = a; check(b, "shared copy"); A e(a, true); check(e, "deep copy"); }
  }
  void bld(AugCRS<crs> &a, const Pic<TA, MXS> &d, const Pic<TA, MXS> &, int k) { if (k < 3) R::build(a, mkcrs<crs>(d), k); else R::build(a, mkccs<ccs>(d)); }
  void bld(AugCCS<ccs> &a, const Pic<TA, MXS> &, const Pic<TA, MXS> &dt, int k) { if (k < 3) C::build(a, mkccs<ccs>(dt), k); else C::build(a, mkcrs<crs>(dt)); }
};
extern "C" void aug() { static T_<R> r; static T_<C> c; if (sx_choose(2)) { sx_cover("rows"); r.run(); } else { sx_cover("columns"); c.run(); } }
extern "C" void augbuild() { static T_<R> r; static T_<C> c; if (sx_choose(2)) r.built(); else c.built(); }
