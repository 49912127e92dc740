/* declarations only: the extraction front end parses without -fopenmp (pragmas are dropped) */
#pragma once
extern "C" { int omp_get_thread_num(void); void omp_set_num_threads(int); int omp_get_num_threads(void);
int omp_get_max_threads(void); double omp_get_wtime(void); }
