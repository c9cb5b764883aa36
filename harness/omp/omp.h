// stand-in for the OpenMP run time: the block after "omp parallel" is verified for one arbitrary thread of an arbitrary team
#ifndef QVC_OMP_H
#define QVC_OMP_H
extern "C" { extern int qvc_team, qvc_thread; }
static inline int omp_get_max_threads() { return qvc_team; }
static inline int omp_get_num_threads() { return qvc_team; }
static inline int omp_get_thread_num() { return qvc_thread; }
#endif
