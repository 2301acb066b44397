/* runtime services shared by the harness programs */
#ifndef VH_RT_H
#define VH_RT_H
#include <stddef.h>
#include <stdint.h>
/* allocation tracking and fault injection */
extern long rt_allocs;          /* allocation + thread creation attempts of the library since start */
extern long rt_fail_at;         /* attempt number that fails (0 = never); then rt_fail_mode */
extern int  rt_fail_sticky;     /* all attempts from rt_fail_at on fail */
extern long rt_faults;          /* failures injected so far */
extern size_t rt_live, rt_peak; /* library bytes */
extern int rt_fill;             /* byte that new memory is filled with */
extern long rt_live_n;          /* live blocks */
extern long rt_threads_live;
int rt_bad_free(void);          /* number of frees of unknown blocks */
/* scheduler (ctl build only; stubs elsewhere) */
int  rt_ctl(void);
void rt_sched_init(uint64_t seed, int mode, const long *points, int npoints, long horizon);
void rt_sched_end(void);
long rt_sched_steps(void);
long rt_sched_events(void);
extern void (*rt_deadlock_cb)(const char *why);
void rt_yield(unsigned k);     /* work of a test job: a scheduling point, or a short sleep */
void rt_event_lock(void);
void rt_event_unlock(void);
#endif
