// clang has no omp.h here: the functions the library uses; the executor implements them
#ifndef SX_OMP_H
#define SX_OMP_H
extern "C" { int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_in_parallel(void); }
#endif
