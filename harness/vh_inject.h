/* Force-included (-include) into every library source of the harness builds.
 * Routes allocation, thread and time services of the code under test to the harness. */
#ifndef VH_INJECT_H
#define VH_INJECT_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vh_malloc(size_t);
void *vh_calloc(size_t, size_t);
void *vh_realloc(void *, size_t);
void vh_free(void *);
int vh_pcreate(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int vh_pjoin(pthread_t, void **);
int vh_mlock(pthread_mutex_t *);
int vh_mtrylock(pthread_mutex_t *);
int vh_munlock(pthread_mutex_t *);
int vh_minit(pthread_mutex_t *, const pthread_mutexattr_t *);
int vh_mdestroy(pthread_mutex_t *);
int vh_cinit(pthread_cond_t *, const pthread_condattr_t *);
int vh_cdestroy(pthread_cond_t *);
int vh_cwait(pthread_cond_t *, pthread_mutex_t *);
int vh_ctimedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int vh_csignal(pthread_cond_t *);
int vh_cbroadcast(pthread_cond_t *);
FILE *vh_fopen(const char *, const char *);
long vh_sysconf(int);
#ifdef __cplusplus
}
#endif
#define malloc(n) vh_malloc(n)
#define calloc(a, b) vh_calloc(a, b)
#define realloc(p, n) vh_realloc(p, n)
#define free(p) vh_free(p)
#define pthread_create vh_pcreate
#define pthread_join vh_pjoin
#define pthread_mutex_lock vh_mlock
#define pthread_mutex_trylock vh_mtrylock
#define pthread_mutex_unlock vh_munlock
#define pthread_mutex_init vh_minit
#define pthread_mutex_destroy vh_mdestroy
#define pthread_cond_init vh_cinit
#define pthread_cond_destroy vh_cdestroy
#define pthread_cond_wait vh_cwait
#define pthread_cond_timedwait vh_ctimedwait
#define pthread_cond_signal vh_csignal
#define pthread_cond_broadcast vh_cbroadcast
/* the machine the library sees: 8 logical processors, 4 cores */
#define fopen vh_fopen
#define sysconf vh_sysconf
#endif
