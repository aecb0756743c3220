// The checks compile brille without -fopenmp (pragmas ignored, serial
// semantics); only the run-time library names are needed.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void); void omp_set_num_threads(int); int omp_get_thread_num(void); int omp_get_num_threads(void);
#ifdef __cplusplus
}
#endif
