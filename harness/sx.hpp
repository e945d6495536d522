// Harness interface of the symbolic executor.  The same harness source is compiled twice: to LLVM IR for symbolic
// execution, and natively (with sxnative.cpp) to replay a counterexample against the real code.
#ifndef SX_HPP
#define SX_HPP
#include <cstddef>
#include <exception>
extern "C" {
long sx_int(const char *name, long lo, long hi);              // arbitrary integer in [lo,hi]
double sx_dbl(const char *name, long lo, long hi, int e);     // arbitrary k*2^e, k integer in [lo,hi]
long sx_choose(long n);                                       // arbitrary integer in [0,n), one path per value
void sx_assume(bool c);
void sx_assert(bool c, const char *label);
void sx_eq(double a, double b, const char *label);               // a == b (or both NaN)
void sx_cover(const char *label);                             // reachability witness
int sx_symbolic();                                            // 1 in the executor, 0 in a native replay
long sx_heap_live();                                          // live blocks from operator new
void sx_oom(long k);                                          // the k-th nothrow allocation from now on fails (k<0: none)
double sx_concd(double v);
long sx_conc(long v);                                         // case-split v
void sx_trace(const char *name, double v);
void sx_tracei(const char *name, long v);
void *sx_malloc(unsigned long);
void sx_free(void *);
void sx_omp(long limit, long rev, long max);                     // size limit of OpenMP teams, order of the threads, default team size
}
// Logging stubs: the library's log.hpp formats and prints; here informational output is dropped and an error is an exception.
#define _HIF_LOG_HPP
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
struct SxHifError : public std::exception { const char *what() const noexcept override { return "hif error"; } };
#ifdef SX_ERR_IS_FAIL
#define SX_RAISE_() (sx_assert(false, "hif_error raised on a valid input"), throw SxHifError())
#else
#define SX_RAISE_() throw SxHifError()
#endif
#define __HIF_FUNC__ __func__
#define __HIF_FILE__ __FILE__
#define hif_info(...) ((void)0)
#define hif_warning(...) ((void)0);
#define hif_warning_if(...) ((void)0);
#define hif_error(...) SX_RAISE_()
#define hif_error_if(__cond, ...) if (__cond) SX_RAISE_()
#define hif_assert(__cond, ...)
#define hif_debug_code(__code)
#include "hif/utils/print.hpp"
#endif
