// Parse-only stand-in for omp.h (clang's is not installed).
#ifndef VERIF_SHIM_OMP_H_
#define VERIF_SHIM_OMP_H_
extern "C" {
int omp_get_thread_num(void) noexcept;
int omp_get_num_threads(void) noexcept;
int omp_get_max_threads(void) noexcept;
int omp_get_num_procs(void) noexcept;
void omp_set_num_threads(int) noexcept;
int omp_in_parallel(void) noexcept;
double omp_get_wtime(void) noexcept;
void omp_set_dynamic(int) noexcept;
void omp_set_nested(int) noexcept;
int omp_get_level(void) noexcept;
void omp_set_max_active_levels(int) noexcept;
int omp_get_max_active_levels(void) noexcept;
int omp_get_thread_limit(void) noexcept;
}
#endif
