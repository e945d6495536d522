// P17: Matrix Market input and output on an in-memory file.
#include "sx.hpp"
#include "memfile.hpp"
#include "hifir.hpp"
#include "common.hpp"
using namespace hif;
#ifndef TA
#define TA double
#endif
#ifndef NN
#define NN 3
#endif
#ifndef NZ
#define NZ 3
#endif
typedef CRS<TA, int> CR; typedef CCS<TA, int> CC_;
static const bool REAL = std::is_floating_point<TA>::value;
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static void put(const TA &v);
template <class R> static void putc_(const std::complex<R> &v) { mf_dbl(v.real()); mf_str(" "); mf_dbl(v.imag()); }
static void putc_(double v) { mf_dbl(v); } static void putc_(float v) { mf_dbl(v); }
static void put(const TA &v) { putc_(v); }
static TA neg(const TA &v) { return -v; }
static const char *KIND[4] = {"general", "symmetric", "hermitian", "skew-symmetric"};
static void head(bool sp, int kind, int style) {  // style: case, spacing, comments and blank lines
  mf_str(style == 1 ? "%%MatrixMarket\tMATRIX  Coordinate " : style == 2 ? "  %%MatrixMarket matrix " : "%%MatrixMarket matrix "); if (style != 1) mf_str(sp ? "coordinate " : "array "); else if (!sp) { mf.n = 0; mf_str("%%MatrixMarket Matrix ARRAY "); }
  mf_str(style == 1 ? (REAL ? "Real " : "COMPLEX ") : REAL ? "real " : "complex "); mf_str(KIND[kind]); mf_str(style == 3 ? "\r\n" : "\n");
  if (style >= 1) mf_str("% comment 1 2 3\n%\n"); if (style == 2) mf_str("\n");
}
static void rd(const Pic<TA, NN> &d, const char *l) {  // read into both storages
  if (sx_choose(2)) { CR A; if (sx_choose(2)) A = CR::from_mm("f"); else A.read_mm("f"); chkcrs(A, d, true, l); sx_cover("row storage"); }
  else { CC_ A; if (sx_choose(2)) A = CC_::from_mm("f"); else A.read_mm("f"); chkccs(A, d, true, l); sx_cover("column storage"); }
  sx_assert(mf_opened == mf_closed, "file left open");
}
extern "C" void wellformed() {
  mf_reset(); const int kind = sx_choose(4); int n = sx_choose(NN + 1), m = n; if (kind == 0) m = sx_choose(NN + 1); Pic<TA, NN> d(n, m); int cnt = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < (kind ? i + 1 : m); ++j) { d.p[i][j] = sx_choose(2); if (!d.p[i][j]) continue; ++cnt; mk(d.v[i][j], "a", -9, 9); }
  head(true, kind, sx_choose(4)); mf_int(n); mf_str("  "); mf_int(m); mf_str(" "); mf_int(cnt); mf_str("\n");
  const int ord = sx_choose(3); const int N = kind ? n : m;
  for (int a = 0; a < (ord == 2 ? N : n); ++a) for (int b = 0; b < (ord == 2 ? n : N); ++b) { const int i = ord == 2 ? b : ord == 1 ? n - 1 - a : a, j = ord == 2 ? a : b; if ((kind && j > i) || !d.p[i][j]) continue; mf_int(i + 1); mf_str(" "); mf_int(j + 1); mf_str(ord == 1 ? "\t\n" : " "); put(d.v[i][j]); mf_str("\n"); }
  if (kind) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (d.p[i][j]) { d.p[j][i] = true; d.v[j][i] = kind == 1 ? d.v[i][j] : kind == 2 ? cj(d.v[i][j]) : neg(d.v[i][j]); }
  if (cnt && kind) sx_cover("symmetric kinds"); rd(d, "matrix read");
}
extern "C" void vec() {
  mf_reset(); const int n = sx_choose(NN + 1), c = 1 + sx_choose(2); TA v[NN][2]; for (int j = 0; j < c; ++j) for (int i = 0; i < n; ++i) mk(v[i][j], "a", -9, 9); head(false, 0, sx_choose(4)); mf_int(n); mf_str(" "); mf_int(c); mf_str("\n");
  for (int j = 0; j < c; ++j) for (int i = 0; i < n; ++i) { put(v[i][j]); mf_str("\n"); }
  Array<TA> x(sx_choose(3)); if (sx_choose(2)) x.read_mm("f"); else x = Array<TA>::from_mm("f"); sx_assert((int)x.size() == n, "size"); for (int i = 0; i < n; ++i) eqv(x[i], v[i][0], "vector read"); sx_assert(mf_opened == mf_closed, "file left open"); sx_cover("vector");
}
extern "C" void roundtrip() {
  mf_reset(); const int n = sx_choose(NN + 1), m = sx_choose(NN + 1); Pic<TA, NN> d(n, m); mkpic(d, -9, 9); const bool rev = sx_choose(2);
  if (sx_choose(2)) { const CR A = mkcrs<CR>(d, rev); A.write_mm("f"); } else { const CC_ A = mkccs<CC_>(d, rev); A.write_mm("f"); }
  sx_assert(mf_written && mf_opened == mf_closed, "file left open"); rd(d, "matrix after writing and reading back");
}
extern "C" void roundvec() {
  mf_reset(); const int n = sx_choose(NN + 1); Array<TA> x(n), y; TA v[NN]; for (int i = 0; i < n; ++i) { mk(v[i], "a", -9, 9); x[i] = v[i]; } x.write_mm("f"); sx_assert(mf_written && mf_opened == mf_closed, "file left open"); y.read_mm("f"); sx_assert((int)y.size() == n, "size"); for (int i = 0; i < n; ++i) eqv(y[i], v[i], "vector after writing and reading back"); sx_cover("vector");
  mf.exists = false; bool t = throws([&]() { x.write_mm("f"); }); sx_assert(t, "unwritable file must be reported"); t = throws([&]() { y.read_mm("f"); }); sx_assert(t, "missing file must be reported"); Pic<TA, NN> d(1, 1); CR A = mkcrs<CR>(d); CC_ B = mkccs<CC_>(d); sx_assert(throws([&]() { A.read_mm("f"); }) && throws([&]() { B.read_mm("f"); }) && throws([&]() { A.write_mm("f"); }) && throws([&]() { B.write_mm("f"); }), "missing file must be reported");
}
extern "C" void hostile() {  // sizes, counts and indices arbitrary; file ends anywhere
  mf_reset(); const int kind = sx_choose(4); const long n = sx_choose(NN + 2) - 1; const long m = sx_choose(NN + 2) - 1; const long nz = sx_choose(NZ + 3) - 1; const int have = sx_choose(NZ + 1); long ri[NZ], ci[NZ]; TA v[NZ];
  head(true, kind, 0); mf_int(n); mf_str(" "); mf_int(m); mf_str(" "); mf_int(nz); mf_str("\n");
  for (int k = 0; k < have; ++k) { ri[k] = sx_int("i", -1, NN + 1); ci[k] = sx_int("j", -1, NN + 1); mk(v[k], "a", -9, 9); mf_int(ri[k]); mf_str(" "); mf_int(ci[k]); mf_str(" "); put(v[k]); mf_str("\n"); }
  if (have && sx_choose(2)) { mf.n -= 5; sx_cover("cut short"); }  // the last value is missing
  const bool row = sx_choose(2), cut = have && mf.c[mf.n - 1] != '\n'; const long use = have - cut; bool ok = n >= 0 && m >= 0 && nz >= 0 && nz <= use; const long z = sx_conc(nz);
  for (int k = 0; k < use && k < z; ++k) { ok = ok && ri[k] >= 1 && ri[k] <= n && ci[k] >= 1 && ci[k] <= m; if (kind) ok = ok && ri[k] <= m && ci[k] <= n; }
  bool t = false; long st[NN + 2], nn = 0, mm = 0, nnz = 0; const int *ix = nullptr; CR A; CC_ B;
  if (row) { t = throws([&]() { A.read_mm("f"); }); } else { t = throws([&]() { B.read_mm("f"); }); }
  sx_assert(mf_opened == mf_closed, "file left open"); sx_assert(t == !ok, "exactly the files that describe a matrix are accepted"); sx_cover(t ? "refused" : "accepted"); if (t) return;
  const long P = row ? n : m, Q = row ? m : n; const auto &s = row ? A.row_start() : B.col_start(); const auto &x = row ? A.col_ind() : B.row_ind(); const long p = sx_conc(P); sx_assert((long)s.size() >= p + 1 && s[0] == 0, "offsets"); long exp = 0; for (int k = 0; k < z; ++k) exp += kind && ri[k] != ci[k] ? 2 : 1;
  for (long i = 0; i < p; ++i) sx_assert(s[i] <= s[i + 1], "offsets"); sx_assert(s[p] == exp && (long)x.size() == exp, "number of entries"); const long e = sx_conc(exp); for (long k = 0; k < e; ++k) sx_assert(x[k] >= 0 && x[k] < Q, "index out of range");
}
static const char *BAD[] = {"%%MatrixMarket matrix coordinate real\n", "%%MatrixMarket matrix\n", "\n", "", "%%MatrixMarket matrix coordinate integer general\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix coordinate pattern general\n1 1 1\n1 1\n", "%%MatrixMarket vector coordinate real general\n1 1 0\n", "MatrixMarket matrix coordinate real general\n1 1 0\n", "%%MatrixMarket matrix coordinate real unknown\n1 1 0\n", "%%MatrixMarket matrix sparse real general\n1 1 0\n",
  "%%MatrixMarket matrix array complex general\n", "%%MatrixMarket matrix array real general\n% only comments\n", "%%MatrixMarket matrix coordinate real general\n%\n", "%%MatrixMarket matrix coordinate real general\nx y z\n", "%%MatrixMarket matrix array real general\nabc\n", "%%MatrixMarket matrix coordinate complex general\n2 q 2\n", "%%MatrixMarket matrix array complex general\n-\n"};
extern "C" void malformed() {  // headers that cannot be accepted, and overlong tokens
  mf_reset(); const int NB = sizeof(BAD) / sizeof(*BAD); const int b = sx_choose(NB + 3);
  if (b < NB) mf_str(BAD[b]);
  else { const int tok = sx_choose(5); const char *T[5] = {"%%MatrixMarket", "matrix", b == NB + 1 ? "array" : "coordinate", REAL ? "real" : "complex", "general"}; const int len = b == NB + 2 ? 1300 : 66 + sx_choose(3) * 100; for (int k = 0; k < 5; ++k) { mf_str(T[k]); if (k == tok) for (int q = 0; q < len; ++q) mf_ch('y'); mf_str(k < 4 ? " " : "\n"); } mf_str("1 1 1\n1 1 1 1\n"); sx_cover("overlong"); }
  CR A; CC_ B; Array<TA> x; const int w = sx_choose(3); const bool t = throws([&]() { if (w == 0) A.read_mm("f"); else if (w == 1) B.read_mm("f"); else x.read_mm("f"); }); sx_assert(t, "malformed header must be refused"); sx_assert(mf_opened == mf_closed, "file left open"); sx_cover("refused");
}
extern "C" void garbled() {  // a small valid file with one arbitrary character replaced, or cut at any place: must terminate, stay in range and close the file
  mf_reset(); const int sp = sx_choose(2); mf_str(sp ? (REAL ? "%%MatrixMarket matrix coordinate real symmetric\n% c\n2 2 2\n1 1 5\n2 1 7\n" : "%%MatrixMarket matrix coordinate complex hermitian\n% c\n2 2 2\n1 1 5 0\n2 1 7 1\n") : (REAL ? "%%MatrixMarket matrix array real general\n2 1\n3\n4\n" : "%%MatrixMarket matrix array complex general\n2 1\n3 1\n4 1\n"));
  const int n0 = mf.n; const int pos = sx_choose(n0); const int how = sx_choose(2); if (how == 0) mf.n = pos; else mf.c[pos] = sx_int("c", 1, 127);
  CR A; CC_ B; Array<TA> x; const int w = sp ? sx_choose(2) : 2; const bool t = throws([&]() { if (w == 0) A.read_mm("f"); else if (w == 1) B.read_mm("f"); else x.read_mm("f"); }); sx_assert(mf_opened == mf_closed, "file left open"); sx_cover(t ? "refused" : "accepted"); if (t) return;
  if (w == 2) { sx_assert(x.size() <= 9, "size"); return; } const auto &s = w == 0 ? A.row_start() : B.col_start(); const auto &ix = w == 0 ? A.col_ind() : B.row_ind(); const long P = w == 0 ? A.nrows() : B.ncols(), Q = w == 0 ? A.ncols() : B.nrows(); const long p = sx_conc(P); for (long i = 0; i < p; ++i) sx_assert(s[i] <= s[i + 1], "offsets"); const long e = sx_conc(s[p]); sx_assert((long)ix.size() == e, "number of entries"); for (long k = 0; k < e; ++k) sx_assert(ix[k] >= 0 && ix[k] < Q, "index out of range");
}
