/* stand-in used when the C sources are translated for symbolic execution: one thread */
#ifndef SYMX_OMP_H
#define SYMX_OMP_H
int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_num_procs(void); int omp_in_parallel(void);
double omp_get_wtime(void); void omp_set_num_threads(int);
#endif
