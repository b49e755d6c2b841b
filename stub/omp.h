#pragma once
extern "C" {
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
typedef struct { unsigned char _x[4]; } omp_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
}
