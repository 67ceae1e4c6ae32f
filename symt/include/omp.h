#ifndef VERIF_OMP_H
#define VERIF_OMP_H
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
int omp_in_parallel(void);
int omp_get_thread_limit(void);
double omp_get_wtime(void);
#endif
