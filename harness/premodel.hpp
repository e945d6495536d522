// Model of the preprocessing step by its contract (see P12): any row/column orderings (bijections), any positive scalings
// (powers of two here), in the symmetric case equal for rows and columns with any number of leading entries deferred.
// Include before hifir.hpp; replaces hif/pre/driver.hpp.
#ifndef PREMODEL_HPP
#define PREMODEL_HPP
#define _HIF_PRE_DRIVER_HPP
#include "hif/Options.h"
#ifndef PRE_LEVELS
#define PRE_LEVELS 1
#endif
#ifndef PRE_DEFER
#define PRE_DEFER 1
#endif
#ifndef PRE_ALLQ
#define PRE_ALLQ 1
#endif
static int pre_calls = 0, pre_defer = 0;
namespace hif {
template <bool IsSymm, class CcsType, class CrsType, class ScalingArray, class PermType>
inline typename CcsType::size_type do_preprocessing(const CcsType &A, const CrsType &, const typename CcsType::size_type m0, const typename CcsType::size_type level, const Options &, ScalingArray &s, ScalingArray &t, PermType &p, PermType &q) {
  const int n = A.nrows(); int m = m0; int P[8], Q[8]; ++pre_calls;
  for (int i = 0; i < n; ++i) P[i] = Q[i] = i;
  s.resize(n); t.resize(n); p.resize(n); q.resize(n);
  for (int i = 0; i < n; ++i) { s[i] = 1; t[i] = 1; }
  if ((int)level <= PRE_LEVELS) {
#ifdef PRE_FIRST
    if (IsSymm && level == 1) { mkperm(PRE_FIRST, P); for (int i = 0; i < PRE_FIRST; ++i) Q[i] = P[i]; }
    else
#endif
    if (IsSymm) { mkperm(m0, P); for (int i = 0; i < (int)m0; ++i) Q[i] = P[i]; m -= sx_choose(m < PRE_DEFER ? m + 1 : PRE_DEFER + 1); if (m < (int)m0) { sx_cover("static deferral"); pre_defer += m0 - m; } }
#ifdef PRE_FIRST
    else if (level == 1) { mkperm(PRE_FIRST, P); for (int i = 0; i < PRE_FIRST; ++i) Q[i] = P[i]; }
#endif
    else { mkperm(n, P); if (PRE_ALLQ) mkperm(n, Q); else if (sx_choose(2)) for (int i = 0; i < n; ++i) Q[i] = (i + 1) % n; }
    const double a[4] = {1, 2, 0.5, 1}, b[4] = {2, 1, 4, 0.5};
    for (int i = 0; i < n; ++i) { s[i] = a[(i + level - 1) % 4]; t[i] = IsSymm ? a[(i + level - 1) % 4] : b[(i + level - 1) % 4]; }
  }
  for (int i = 0; i < n; ++i) { p[i] = P[i]; q[i] = Q[i]; }
  p.build_inv(); q.build_inv();
  return m;
}
}
#endif
