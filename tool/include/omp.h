// Minimal declarations of the OpenMP runtime API (the gcc header uses attributes
// clang rejects). Only used while parsing.
#ifndef IFEM_VERIF_OMP_H
#define IFEM_VERIF_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char d[4]; } omp_lock_t;
typedef enum { omp_sched_static = 1, omp_sched_dynamic, omp_sched_guided, omp_sched_auto } omp_sched_t;
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_level(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
void omp_set_max_active_levels(int);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
