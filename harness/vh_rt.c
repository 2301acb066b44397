/* Allocation tracking, fault injection, pass-through threads (non-ctl builds). */
#define _GNU_SOURCE
#include "vh_rt.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>

long rt_allocs, rt_fail_at, rt_faults, rt_live_n, rt_threads_live;
int rt_fail_sticky;
size_t rt_live, rt_peak;
static int bad_free;
static pthread_mutex_t amx = PTHREAD_MUTEX_INITIALIZER;
int rt_bad_free(void) { return bad_free; }

static int inject(void)
{
    int f = 0;
    pthread_mutex_lock(&amx);
    ++rt_allocs;
    if (rt_fail_at && (rt_allocs == rt_fail_at || (rt_fail_sticky && rt_allocs >= rt_fail_at))) { f = 1; ++rt_faults; }
    pthread_mutex_unlock(&amx);
    return f;
}
/* what new memory contains: differs between the members of a group, so that nothing may depend on it */
int rt_fill = 0xA5;
#ifdef RT_CTL
/* guarded allocations: use after free and overruns fault */
#define PG 4096
typedef struct { size_t size, map; } Hdr;
#define ARENA ((char *)0x200000000000)
#define ARENA_SIZE ((size_t)1 << 36)
#define HEADER 256            /* of a large block, only this much is followed (the rest are tables and data) */
static char *arena_next = ARENA;
unsigned char *rt_shadow;     /* one byte for 8 bytes of the arena, 0: not followed (rt_ctl.c) */
static void follow(char *p, size_t n, int on)
{
    if (!rt_shadow) {
        rt_shadow = mmap(NULL, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (rt_shadow == MAP_FAILED) abort();
    }
    if (n > 4096) n = HEADER;
    memset(rt_shadow + ((size_t)(p - ARENA) >> 3), on, (n + 7) >> 3);
}
static struct { void *p; size_t size, map; void *base; } tab[4096];
static int ntab;
static void *raw_alloc(size_t n)
{
    size_t body = (n + 15) & ~(size_t)15;
    size_t map = ((body + PG - 1) / PG + 1) * PG;
    if (map > ARENA_SIZE - (size_t)(arena_next - ARENA)) return NULL;
    char *b = mmap(arena_next, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (b == MAP_FAILED) return NULL;
    arena_next += map;
    mprotect(b + map - PG, PG, PROT_NONE);
    char *p = b + map - PG - body;
    int i;
    for (i = 0; i < ntab; ++i) if (!tab[i].p) break;
    if (i == ntab) { if (ntab == 4096) return NULL; ++ntab; }
    tab[i].p = p; tab[i].size = n; tab[i].map = map; tab[i].base = b;
    if (n <= (1 << 22)) memset(p, rt_fill, n);
    follow(p, n, 1);
    return p;
}
static size_t raw_free(void *p)
{
    for (int i = 0; i < ntab; ++i) if (tab[i].p == p) {
        size_t n = tab[i].size;
        follow(p, n, 0);
        /* keep the range reserved and inaccessible */
        mmap(tab[i].base, tab[i].map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        tab[i].p = NULL;
        return n;
    }
    return (size_t)-1;
}
#else
typedef struct { size_t size; uint64_t magic; } Hdr;
#define MAGIC 0x5ca1ab1e0ddba11ull
#endif
void *vh_malloc(size_t n)
{
    if (inject()) return NULL;
    pthread_mutex_lock(&amx);
#ifdef RT_CTL
    void *p = raw_alloc(n);
#else
    Hdr *h = malloc(sizeof(Hdr) + n);
    void *p = NULL;
    if (h) { h->size = n; h->magic = MAGIC; p = h + 1; if (n <= (1 << 22)) memset(p, rt_fill, n); }
#endif
    if (p) { rt_live += n; ++rt_live_n; if (rt_live > rt_peak) rt_peak = rt_live; }
    pthread_mutex_unlock(&amx);
    return p;
}
void *vh_calloc(size_t a, size_t b)
{
    void *p = vh_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void vh_free(void *p)
{
    if (!p) return;
    pthread_mutex_lock(&amx);
#ifdef RT_CTL
    size_t n = raw_free(p);
    if (n == (size_t)-1) { ++bad_free; pthread_mutex_unlock(&amx); abort(); }
#else
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != MAGIC) { ++bad_free; pthread_mutex_unlock(&amx); abort(); }
    size_t n = h->size;
    h->magic = 0;
    if (n <= (1 << 20)) memset(p, 0x5A, n);
    free(h);
#endif
    rt_live -= n; --rt_live_n;
    pthread_mutex_unlock(&amx);
}
void *vh_realloc(void *p, size_t n)
{
    if (!p) return vh_malloc(n);
    void *q = vh_malloc(n);
    if (!q) return NULL;
#ifdef RT_CTL
    size_t o = n;
    for (int i = 0; i < ntab; ++i) if (tab[i].p == p) o = tab[i].size;
#else
    size_t o = ((Hdr *)p - 1)->size;
#endif
    memcpy(q, p, o < n ? o : n);
    vh_free(p);
    return q;
}
int rt_inject_thread(void) { return inject(); }

#ifndef RT_CTL
#include <unistd.h>
int rt_ctl(void) { return 0; }
void rt_yield(unsigned k) { if (k % 5 == 1) usleep(50 + k * 37 % 1500); }
void rt_sched_init(uint64_t s, int m, const long *p, int n, long h) { (void)s; (void)m; (void)p; (void)n; (void)h; }
void rt_sched_end(void) {}
long rt_sched_steps(void) { return 0; }
long rt_sched_events(void) { return 0; }
void (*rt_deadlock_cb)(const char *);
static pthread_mutex_t evmx = PTHREAD_MUTEX_INITIALIZER;
void rt_event_lock(void) { pthread_mutex_lock(&evmx); }
void rt_event_unlock(void) { pthread_mutex_unlock(&evmx); }

int vh_pcreate(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    if (inject()) return EAGAIN;
    int r = pthread_create(t, a, f, x);
    if (!r) __atomic_add_fetch(&rt_threads_live, 1, __ATOMIC_SEQ_CST);
    return r;
}
int vh_pjoin(pthread_t t, void **v)
{
    int r = pthread_join(t, v);
    if (!r) __atomic_sub_fetch(&rt_threads_live, 1, __ATOMIC_SEQ_CST);
    return r;
}
int vh_mlock(pthread_mutex_t *m) { return pthread_mutex_lock(m); }
int vh_mtrylock(pthread_mutex_t *m) { return pthread_mutex_trylock(m); }
int vh_munlock(pthread_mutex_t *m) { return pthread_mutex_unlock(m); }
int vh_minit(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return pthread_mutex_init(m, a); }
int vh_mdestroy(pthread_mutex_t *m) { return pthread_mutex_destroy(m); }
int vh_cinit(pthread_cond_t *c, const pthread_condattr_t *a) { return pthread_cond_init(c, a); }
int vh_cdestroy(pthread_cond_t *c) { return pthread_cond_destroy(c); }
int vh_cwait(pthread_cond_t *c, pthread_mutex_t *m) { return pthread_cond_wait(c, m); }
int vh_ctimedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return pthread_cond_timedwait(c, m, t); }
int vh_csignal(pthread_cond_t *c) { return pthread_cond_signal(c); }
int vh_cbroadcast(pthread_cond_t *c) { return pthread_cond_broadcast(c); }
#endif

/* the machine the library sees: 8 logical processors, 4 cores */
FILE *vh_fopen(const char *n, const char *m)
{
    static const char cpu[] = "processor\t: 0\nvendor_id\t: vh\nsiblings\t: 8\ncore id\t\t: 0\ncpu cores\t: 4\n\n";
    return strcmp(n, "/proc/cpuinfo") ? fopen(n, m) : fmemopen((void *)cpu, sizeof cpu - 1, "r");
}
long vh_sysconf(int name) { return name == _SC_NPROCESSORS_ONLN ? 8 : sysconf(name); }
