// Model of the dense last-level solver (the documented user extension point): Gaussian elimination without pivoting,
// exact on the harness domains.  Singular pivots are excluded by assumption.
#ifndef XDENSE_HPP
#define XDENSE_HPP
static long xd_last = -1, xd_calls = 0;  // rank argument of the last call, number of calls
template <class T> struct XDense {
  typedef T value_type; typedef hif::DenseMatrix<T> dense_type; typedef std::size_t size_type;
  dense_type _m, _b; size_type _rank = 0;
  static const char *method() { return "X"; }
  bool empty() const { return _m.empty(); } size_type rank() const { return _rank; }
  const dense_type &mat() const { return _m; } dense_type &mat() { return _m; } const dense_type &mat_backup() const { return _b; } dense_type &mat_backup() { return _b; }
  bool is_squared() const { return _m.is_squared(); } bool full_rank() const { return _rank == _m.ncols(); }
  void set_matrix(dense_type &&a) { _b = std::move(a); _m.resize(_b.nrows(), _b.ncols()); for (size_type i = 0; i < _b.nrows(); ++i) for (size_type j = 0; j < _b.ncols(); ++j) _m(i, j) = _b(i, j); }
  void factorize(const hif::Options &) {
#ifdef XD_CRAMER
    _rank = _m.nrows(); return;
#endif
    const size_type n = _m.nrows();
    for (size_type k = 0; k < n; ++k) { sx_assume(_m(k, k) != T(0)); for (size_type i = k + 1; i < n; ++i) { if (_m(i, k) == T(0)) continue; _m(i, k) = _m(i, k) / _m(k, k); for (size_type j = k + 1; j < n; ++j) _m(i, j) = _m(i, j) - _m(i, k) * _m(k, j); } }
    _rank = n;
  }
#ifdef XD_CRAMER
  T minor_(unsigned rows, unsigned cols, int n, bool tran) const {  // determinant of the selected rows and columns of b (or its conjugate transpose)
    if (!rows) return T(1); int r = 0; while (!(rows >> r & 1)) ++r; T v(0); double sg = 1;
    for (int c = 0; c < n; ++c) if (cols >> c & 1) { v += sg * (tran ? hif::conjugate(_b(c, r)) : _b(r, c)) * minor_(rows & ~(1u << r), cols & ~(1u << c), n, tran); sg = -sg; }
    return v;
  }
#endif
  template <class G> void sol(G x, bool tran) const {
    const long n = _m.nrows();
#ifdef XD_CRAMER
    const unsigned all = (1u << n) - 1; const T det = minor_(all, all, n, tran); T y[8]; sx_assume(det != T(0));
    for (int i = 0; i < n; ++i) { T v(0); for (int r = 0; r < n; ++r) v += ((i + r) % 2 ? -1.0 : 1.0) * minor_(all & ~(1u << r), all & ~(1u << i), n, tran) * T(x(r)); y[i] = v / det; }
    for (int i = 0; i < n; ++i) x(i) = y[i];
    return;
#endif
    typedef typename std::decay<decltype(x(0))>::type XV;
    if (!tran) { for (long i = 0; i < n; ++i) for (long j = 0; j < i; ++j) x(i) -= XV(_m(i, j)) * x(j); for (long i = n - 1; i >= 0; --i) { for (long j = i + 1; j < n; ++j) x(i) -= XV(_m(i, j)) * x(j); x(i) = x(i) / XV(_m(i, i)); } }
    else { for (long i = 0; i < n; ++i) { for (long j = 0; j < i; ++j) x(i) -= XV(hif::conjugate(_m(j, i))) * x(j); x(i) = x(i) / XV(hif::conjugate(_m(i, i))); } for (long i = n - 1; i >= 0; --i) for (long j = i + 1; j < n; ++j) x(i) -= XV(hif::conjugate(_m(j, i))) * x(j); }
  }
  template <class A> void solve(A &x, const size_type r = 0, const bool tran = false) const { xd_last = r; ++xd_calls; sol([&](long i) -> typename A::value_type & { return x[i]; }, tran); }
  template <class U, std::size_t N> void solve_mrhs(hif::Array<std::array<U, N>> &x, const size_type r = 0, const bool tran = false) const { xd_last = r; ++xd_calls; for (std::size_t k = 0; k < N; ++k) sol([&](long i) -> U & { return x[i][k]; }, tran); }
  template <class A> void multiply(A &x, const size_type r = 0, const bool tran = false) const {
    xd_last = r; ++xd_calls;
    const long n = _b.nrows(); std::vector<typename A::value_type> y(n);
    for (long i = 0; i < n; ++i) { y[i] = 0; for (long j = 0; j < n; ++j) y[i] += typename A::value_type(tran ? hif::conjugate(_b(j, i)) : _b(i, j)) * x[j]; }
    for (long i = 0; i < n; ++i) x[i] = y[i];
  }
};
template <class T> struct XDenseT { using unsymm_solver_type = XDense<T>; using symm_solver_type = XDense<T>; };
#endif
