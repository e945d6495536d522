// names here must not clash with harness macros given by -D
// Native replay runtime: input values are read in call order from the file named by SX_REPLAY.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <unistd.h>
#include <atomic>
#ifdef SX_OMP
#include <thread>
#include <vector>
#include <condition_variable>
#include <mutex>
#endif
static long *sx_vals; static long sx_nvals = -1, P; static std::atomic<long> LIVE; static long OOM = -1;
static void die(const char *k, const char *l) { fprintf(stderr, "SX-%s: %s\n", k, l); fflush(stderr); _exit(k[0] == 'F' ? 77 : 78); }
static long nextv() {
  if (sx_nvals < 0) { sx_nvals = 0; const char *f = getenv("SX_REPLAY"); FILE *fp = f ? fopen(f, "r") : nullptr; if (!fp) die("ABORT", "no replay file"); sx_vals = (long *)calloc(100000, sizeof(long)); while (sx_nvals < 100000 && fscanf(fp, "%ld", sx_vals + sx_nvals) == 1) ++sx_nvals; fclose(fp); }
  if (P >= sx_nvals) die("ABORT", "replay values exhausted"); return sx_vals[P++];
}
extern "C" {
void sx_assume(bool c) { if (!c) die("ABORT", "assumption not met"); }
long sx_int(const char *, long lo, long hi) { long v = nextv(); sx_assume(v >= lo && v <= hi); return v; }
double sx_dbl(const char *, long lo, long hi, int e) { long v = nextv(); sx_assume(v >= lo && v <= hi); return ldexp((double)v, e); }
long sx_choose(long n) { long v = nextv(); sx_assume(v >= 0 && v < n); return v; }
void sx_assert(bool c, const char *l) { if (!c) die("FAIL", l); }
void sx_eq(double a, double b, const char *l) { static double tol = getenv("SX_TOL") ? atof(getenv("SX_TOL")) : 0; if (!(a == b || (a != a && b != b) || fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) die("FAIL", l); }
void sx_cover(const char *) {}
int sx_symbolic() { return 0; }
long sx_heap_live() { return LIVE; }
void sx_oom(long k) { OOM = k; }
double sx_concd(double v) { return v; }
long sx_conc(long v) { return v; }
void sx_trace(const char *n, double v) { fprintf(stderr, "[trace] %s = %.17g\n", n, v); }
void sx_tracei(const char *n, long v) { fprintf(stderr, "[trace] %s = %ld\n", n, v); }
void *sx_malloc(unsigned long n) { void *p = malloc(n ? n : 1); memset(p, 0xCB, n); return p; }
void sx_free(void *p) { free(p); }
#ifndef SX_OMP
void sx_omp(long, long, long) {}
#endif
}
#ifdef SX_OMP
// OpenMP on std::thread (the entry points gcc generates), so that the thread sanitizer sees every synchronisation
static long OMPLIM = 64, OMPMAX = 4; static thread_local int TID = 0; static int TEAM = 1;
static std::mutex BM; static std::condition_variable BC; static int BN, BG;
extern "C" {
void sx_omp(long l, long, long m) { OMPLIM = l; OMPMAX = m; }
int omp_get_thread_num(void) { return TID; }
int omp_get_num_threads(void) { return TEAM; }
int omp_get_max_threads(void) { return OMPMAX; }
int omp_in_parallel(void) { return TEAM > 1; }
void GOMP_barrier(void) { std::unique_lock<std::mutex> l(BM); int g = BG; if (++BN == TEAM) { BN = 0; ++BG; BC.notify_all(); } else BC.wait(l, [&] { return BG != g; }); }
void GOMP_parallel(void (*f)(void *), void *d, unsigned n, unsigned) {
  long k = n ? n : OMPMAX; if (k > OMPLIM) k = OMPLIM; if (k < 1) k = 1; TEAM = k; std::vector<std::thread> t; for (long i = 1; i < k; ++i) t.emplace_back([=] { TID = i; f(d); });
  f(d); for (auto &x : t) x.join(); TEAM = 1;
}
}
#endif
static void *get(size_t n) { void *p = n > (64ul << 20) ? nullptr : malloc(n); if (p) { memset(p, 0xCB, n); ++LIVE; } return p; }
static void put(void *p) { if (p) { --LIVE; free(p); } }
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
static void *getnt(size_t n) { if (OOM == 0) { OOM = -1; return nullptr; } if (OOM > 0) --OOM; return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return getnt(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return getnt(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
extern "C" void SX_ENTRY();
int main() {
  try { SX_ENTRY(); } catch (...) { die("FAIL", "uncaught exception leaves the checked entry point"); }
  fprintf(stderr, "SX-PASS\n"); fflush(stderr); _exit(0);
}
