// P15: null-space filters: constant mode over a range, callbacks, overridden filters, directly and attached to the preconditioner.
#include "sx.hpp"
#include "hifir.hpp"
#include "common.hpp"
#include "xdense.hpp"
static int rg = 1;
#define RG rg
#include "mg.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef NN
#define NN 4
#endif
static void times(double &v, int k) { v *= k; }
static void times(float &v, int k) { v *= k; }
template <class R> static void times(std::complex<R> &v, int k) { v = std::complex<R>(v.real() * k, v.imag() * k); }
static void shift(const TA *x, TA *y, int n, int lo, int hi) {  // remove the mean of x[lo..hi)
  for (int i = 0; i < n; ++i) y[i] = x[i]; if (lo >= hi) return;
  TA s = TA(0); for (int i = lo; i < hi; ++i) s += x[i]; const double k = hi - lo; for (int i = lo; i < hi; ++i) { TA d = x[i]; times(d, hi - lo); d -= s; y[i] = d / TA(k); }
}
// equality through multiplication: y[i]*k == k*x[i] - s
static void chk(const TA *x, const TA *y, int n, int lo, int hi, const char *l) {
  TA s = TA(0); for (int i = lo; i < hi; ++i) s += x[i];
  for (int i = 0; i < n; ++i) if (i < lo || i >= hi) eqv(y[i], x[i], "entry outside the range changed"); else { TA a = y[i], b = x[i]; times(a, hi - lo); times(b, hi - lo); b -= s; eqv(a, b, l); }
}
struct Over : NspFilter {
  mutable void *px = nullptr; mutable std::size_t pn = 0; mutable char pc = 0;
  Over() { _type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char c) const override { px = x; pn = n; pc = c; for (std::size_t i = 0; i < n; ++i) ((TA *)x)[i] += TA(3); }
};
extern "C" void direct() {
  const int n = sx_choose(NN + 1); const int how = sx_choose(4); int mode = sx_choose(6); long st = 0, en = -1;
  Array<TA> X(n); TA x0[NN + 1]; for (int i = 0; i < n; ++i) { mk(x0[i], "x", -4, 4); times(x0[i], NN < 5 ? 12 : NN < 7 ? 60 : 2520); X[i] = x0[i]; } TA *x = n ? X.data() : nullptr;
  const char sig = ValueTypeTrait<TA>::signature;
  void *px = nullptr; std::size_t pn = 99; char pc = 0; int calls = 0;
  const NspFilter::user_cb_type cb = [&](void *v, const std::size_t k, const char c) { ++calls; px = v; pn = k; pc = c; for (std::size_t i = 0; i < k; ++i) ((TA *)v)[i] += TA(5); };
  if (how < 2) { if (mode) st = sx_choose(NN + 3); if (mode > 2) en = sx_choose(NN + 3); NspFilter f(how == 0 ? st : 1, how == 0 ? en : 2); if (how == 1) { if (sx_choose(2)) f.set_nsp_callback(cb); f.set_nsp_const(st, en); }
    NspFilter g(f); NspFilter k; k = g; sx_assert((int)k == NspFilter::CONSTANT, "type");
    long hi = en < 0 || en < st ? n : en; const bool ok = hi <= n && st <= hi; bool thrown = false;
    try { k.filter(x, n); } catch (const std::exception &) { thrown = true; }
    sx_assert(thrown == !ok, "range outside the vector must be refused, any other accepted");
    if (thrown) { sx_cover("range refused"); for (int i = 0; i < n; ++i) eqv(X[i], x0[i], "vector modified by a refused filter"); return; }
    const int lo = sx_conc(st), h = sx_conc(hi); if (lo < h) chk(x0, x, n, lo, h, "mean removed on the range"); else { for (int i = 0; i < n; ++i) eqv(X[i], x0[i], "empty range changed something"); sx_cover("empty range"); }
    // applying twice changes nothing more
    if (lo < h) { TA y[NN + 1]; for (int i = 0; i < n; ++i) y[i] = X[i]; TA s = TA(0); for (int i = lo; i < h; ++i) s += y[i]; eqv(s, TA(0), "range sums to zero"); sx_cover(st ? "partial range" : "from the start"); }
  } else if (how == 2) {
    NspFilterPtr f = mode & 1 ? create_nsp_filter(cb) : std::make_shared<NspFilter>(1, 2); if (!(mode & 1)) f->set_nsp_callback(cb); sx_assert((int)*f == NspFilter::USER_CB, "type");
    f->filter(x, n); sx_assert(calls == 1 && px == (void *)x && (int)pn == n && pc == sig, "callback sees the vector"); for (int i = 0; i < n; ++i) eqv(X[i], TA(x0[i] + TA(5)), "callback result");
    f->set_nsp_const(); for (int i = 0; i < n; ++i) X[i] = x0[i]; f->filter(x, n); sx_assert(calls == 1, "callback detached"); chk(x0, x, n, 0, n, "mean removed"); sx_cover("callback");
  } else {
    Over o; o.filter(x, n); sx_assert(o.px == (void *)x && (int)o.pn == n && o.pc == sig, "overridden filter sees the vector"); for (int i = 0; i < n; ++i) eqv(X[i], TA(x0[i] + TA(3)), "overridden filter result");
    bool t = false; NspFilter e; try { e.set_nsp_callback(NspFilter::user_cb_type()); } catch (const std::exception &) { t = true; } sx_assert(t, "empty callback must be refused"); sx_cover("overridden");
  }
}
struct H : HIF<TA, int, int, XDenseT> { void dims(int n) { this->_nrows = this->_ncols = n; } };
extern "C" void attached() {  // filters attached to the preconditioner act after the solve of their own kind only
  const int n = 1 + sx_choose(3); Mg<TA> g; rg = n < 3; g.make(n, 2, 0); H h; g.build(h); h.dims(n); const int wh = sx_choose(4); const bool tr = sx_choose(2); const int st = sx_choose(n), en = st + 1 + sx_choose(n - st); const bool usr = sx_choose(2); const int form = sx_choose(3);
  void *px = nullptr; std::size_t pn = 99; char pc = 0; int calls = 0;
  if (wh & 1) { if (usr) h.nsp = create_nsp_filter(NspFilter::user_cb_type([&](void *v, const std::size_t k, const char c) { ++calls; px = v; pn = k; pc = c; for (std::size_t i = 0; i < k; ++i) ((TA *)v)[i] += TA(5); })); else h.nsp = create_nsp_filter(st, en); }
  if (wh & 2) h.nsp_tran = create_nsp_filter(0, n);
  TA x0[4], y0[4], e[4]; for (int i = 0; i < n; ++i) { mk(x0[i], "x", -2, 2); times(x0[i], 6); } g.mul(0, x0, y0, form < 2 && tr);
  Array<TA> b(n), x(n); for (int i = 0; i < n; ++i) { b[i] = form < 2 ? y0[i] : x0[i]; x[i] = TA(7); }
  if (form == 2) { g.mul(0, x0, e, tr); h.mmultiply(b, x, tr); for (int i = 0; i < n; ++i) eqv(x[i], e[i], "product is not filtered"); sx_assert(!calls, "product called the filter"); sx_cover("product"); return; }
  if (form == 1) {
    Array<std::array<TA, 2>> B(n), X(n); TA yy[4]; g.mul(0, x0, yy, false); for (int i = 0; i < n; ++i) B[i][0] = B[i][1] = yy[i]; bool t = false; try { h.solve_mrhs(B, X); } catch (const std::exception &) { t = true; }
    sx_assert(t == bool(wh & 1), "several right-hand sides are refused with a filter only"); if (!t) for (int i = 0; i < n; ++i) eqv(X[i][1], x0[i], "several right-hand sides"); sx_cover("mrhs"); return;
  }
  h.solve(b, x, tr); for (int i = 0; i < n; ++i) eqv(b[i], y0[i], "right-hand side modified");
  if (!tr && (wh & 1) && usr) { sx_assert(calls == 1 && px == (void *)x.data() && (int)pn == n && pc == ValueTypeTrait<TA>::signature, "callback sees the solution vector"); for (int i = 0; i < n; ++i) eqv(x[i], TA(x0[i] + TA(5)), "callback result"); sx_cover("callback"); }
  else { sx_assert(!calls, "filter of the wrong kind called"); TA xx[4]; for (int i = 0; i < n; ++i) xx[i] = x[i]; if (!tr && (wh & 1)) { chk(x0, xx, n, st, en, "mean removed on the range"); sx_cover("filtered"); } else if (tr && (wh & 2)) { chk(x0, xx, n, 0, n, "mean removed"); sx_cover("filtered transposed"); } else { chk(x0, xx, n, 0, 0, ""); sx_cover("unfiltered"); } }
  h.clear(); sx_assert(!h.nsp && !h.nsp_tran, "clear detaches the filters");
}
