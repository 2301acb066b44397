/* Deterministic user-level scheduler for the ctl build.
 * Exactly one thread of the process runs at a time. Scheduling points: every call of the thread
 * library made by the code under test, every atomic operation and every access to non-stack memory
 * in the instrumented sources (compiled with -fsanitize=thread, linked with the call-backs below
 * instead of the sanitizer's run time). Time is virtual: a timed wait may give up at any point. */
#define _GNU_SOURCE
#include "vh_rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>

#define MAXT 64
enum { RUN, BMUTEX, BCOND, BTIMED, BJOIN, DONE };
typedef struct {
    int st; void *obj; void *obj2; int joinee; int timedout; int wseq;
    pthread_t th; sem_t sem; void *(*fn)(void *); void *arg; void *ret;
    char *lo, *hi; int prio;
} Th;
static Th T[MAXT];
static int nT, cur, active;
static __thread int self = -1;
static uint64_t rs;
static int mode;
static long steps, events, horizon;
static long points[32]; static int npoints;       /* PCT change points / forced switches */
static long next_pre;
void (*rt_deadlock_cb)(const char *why);
extern int rt_inject_thread(void);

static uint32_t rr(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
int rt_ctl(void) { return 1; }
long rt_sched_steps(void) { return steps; }
long rt_sched_events(void) { return events; }
void rt_event_lock(void) {}
void rt_event_unlock(void) {}

/* locks: small table keyed by address */
#define NM 256
static struct { void *m; int owner; } M[NM];
static int mfind(void *m)
{
    int f = -1;
    for (int i = 0; i < NM; ++i) { if (M[i].m == m) return i; if (!M[i].m && f < 0) f = i; }
    M[f].m = m; M[f].owner = -1;
    return f;
}
static int wseq;

/* modes: 0 non-preemptive + explicit points (points[i] = step*8 + choice)
 *        1 random: switch at sync operations with p=1/2, at memory with a geometric gap
 *        2 PCT: priorities, points[] are change points
 *        3 random with rare memory preemption */
static void draw_next(void)
{
    long gap;
    if (mode == 1) gap = 1 + rr() % (1 + rr() % 200);
    else if (mode == 3) gap = 1 + rr() % (1 + (horizon > 0 ? horizon : 100000) / 4);
    else gap = 1L << 60;
    next_pre = steps + gap;
}
static void get_stack(Th *t)
{
    pthread_attr_t a; void *p; size_t n;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &p, &n); t->lo = p; t->hi = (char *)p + n; pthread_attr_destroy(&a);
    }
}
void rt_sched_init(uint64_t seed, int md, const long *p, int n, long h)
{
    memset(T, 0, sizeof T); memset(M, 0, sizeof M);
    nT = 1; cur = 0; self = 0; T[0].st = RUN; T[0].th = pthread_self(); sem_init(&T[0].sem, 0, 0);
    get_stack(&T[0]);
    rs = seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rs) rs = 1; rr(); rr();
    mode = md; horizon = h; npoints = n > 32 ? 32 : n;
    for (int i = 0; i < npoints; ++i) points[i] = p[i];
    steps = events = 0; wseq = 0;
    T[0].prio = mode == 2 ? (int)(rr() % 1000) + 100 : 0;
    draw_next();
    active = 1;
}
void rt_sched_end(void) { active = 0; }

static int can_run(int i)
{
    switch (T[i].st) {
    case RUN: return 1;
    case BMUTEX: return M[mfind(T[i].obj)].owner < 0;
    case BJOIN: return T[T[i].joinee].st == DONE;
    default: return 0;
    }
}
static void dead(void)
{
    char b[256]; int k = 0;
    k += snprintf(b + k, sizeof b - k, "deadlock:");
    for (int i = 0; i < nT && k < 200; ++i) {
        static const char *nm[] = { "run", "mutex", "cond", "timed", "join", "done" };
        k += snprintf(b + k, sizeof b - k, " t%d=%s", i, nm[T[i].st]);
    }
    active = 0;
    if (rt_deadlock_cb) rt_deadlock_cb(b);
    _exit(77);
}
/* pick who runs next; me may or may not be runnable. forced: >=0 pick index among the others */
static int pick(int me, int forced)
{
    int c[MAXT], n = 0, tm[MAXT], nt = 0, cw[MAXT], nc = 0;
    for (int i = 0; i < nT; ++i) { if (can_run(i)) c[n++] = i; else if (T[i].st == BTIMED) tm[nt++] = i; else if (T[i].st == BCOND) cw[nc++] = i; }
    if (forced >= 0) {
        int o[2 * MAXT], k = 0;
        for (int i = 0; i < n; ++i) if (c[i] != me) o[k++] = c[i];
        for (int i = 0; i < nt; ++i) o[k++] = tm[i];
        for (int i = 0; i < nc; ++i) o[k++] = cw[i];           /* a wait may return without a signal */
        if (k) return o[forced % k];
        if (n) return c[0];
    }
    if (n == 0) {
        if (nt == 0) dead();
        return tm[rr() % nt];
    }
    if (mode == 0) {
        for (int i = 0; i < n; ++i) if (c[i] == me) return me;
        return c[0];
    }
    if (nt && rr() % 24 == 0) return tm[rr() % nt];
    if (nc && mode != 2 && rr() % 64 == 0) return cw[rr() % nc];
    if (mode == 2) {
        int b = c[0];
        for (int i = 1; i < n; ++i) if (T[c[i]].prio > T[b].prio) b = c[i];
        return b;
    }
    return c[rr() % n];
}
static void wake_timed(int i) { if (T[i].st == BTIMED || T[i].st == BCOND) { T[i].timedout = T[i].st == BTIMED; T[i].st = BMUTEX; T[i].obj = T[i].obj2; } }
static void handoff(int me, int to)
{
    if (to == me) return;
    cur = to;
    sem_post(&T[to].sem);
    if (T[me].st != DONE) while (sem_wait(&T[me].sem) != 0) {}
}
/* give up the processor until runnable again */
static void resched(int me, int forced)
{
    for (;;) {
        int to = pick(me, forced);
        forced = -1;
        if (T[to].st == BTIMED || T[to].st == BCOND) { wake_timed(to); continue; }   /* it now competes for its mutex */
        if (to == me) return;
        handoff(me, to);
        if (T[me].st == DONE) return;
        if (can_run(me)) return;
    }
}
static void step(int sync)
{
    int me = self;
    ++steps;
    if (sync) ++events;
    if (mode == 0 || mode == 2) {
        for (int i = 0; i < npoints; ++i) {
            long at = mode == 0 ? points[i] / 8 : points[i];
            if (at == steps) {
                if (mode == 0) resched(me, (int)(points[i] % 8));
                else { T[me].prio = -(i + 1); resched(me, -1); }
                return;
            }
        }
        if (mode == 2 && sync) resched(me, -1);
        return;
    }
    if (sync && mode == 1 && (rr() & 1)) { resched(me, -1); return; }
    if (sync && mode == 3 && rr() % 8 == 0) { resched(me, -1); return; }
    if (steps >= next_pre) { draw_next(); resched(me, -1); }
}
#define IN() (active && self >= 0)
void rt_yield(unsigned k) { (void)k; if (IN()) step(1); }

int vh_minit(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; if (IN()) M[mfind(m)].owner = -1; return 0; }
int vh_mdestroy(pthread_mutex_t *m)
{
    if (IN()) { int i = mfind(m); M[i].m = NULL; }
    return 0;
}
int vh_mlock(pthread_mutex_t *m)
{
    if (!IN()) return 0;
    step(1);
    int i = mfind(m);
    while (M[i].owner >= 0) {
        T[self].st = BMUTEX; T[self].obj = m;
        resched(self, -1);
        i = mfind(m);
    }
    T[self].st = RUN;
    M[i].owner = self;
    return 0;
}
int vh_mtrylock(pthread_mutex_t *m)
{
    if (!IN()) return 0;
    step(1);
    int i = mfind(m);
    if (M[i].owner >= 0) return EBUSY;
    M[i].owner = self;
    return 0;
}
int vh_munlock(pthread_mutex_t *m)
{
    if (!IN()) return 0;
    M[mfind(m)].owner = -1;
    step(1);
    return 0;
}
int vh_cinit(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int vh_cdestroy(pthread_cond_t *c) { (void)c; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
    if (!IN()) return timed ? ETIMEDOUT : 0;
    int me = self;
    step(1);
    ++events;
    M[mfind(m)].owner = -1;
    T[me].st = timed ? BTIMED : BCOND;
    T[me].obj = c; T[me].obj2 = m; T[me].timedout = 0; T[me].wseq = ++wseq;
    resched(me, -1);
    /* woken: now in BMUTEX and the mutex is free */
    int i = mfind(m);
    while (M[i].owner >= 0) { T[me].st = BMUTEX; T[me].obj = m; resched(me, -1); i = mfind(m); }
    M[i].owner = me;
    T[me].st = RUN;
    return T[me].timedout ? ETIMEDOUT : 0;
}
int vh_cwait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
int vh_ctimedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void)t; return cwait(c, m, 1); }
static void wake(int i) { T[i].st = BMUTEX; T[i].obj = T[i].obj2; }
int vh_csignal(pthread_cond_t *c)
{
    if (!IN()) return 0;
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i) if ((T[i].st == BCOND || T[i].st == BTIMED) && T[i].obj == c) w[n++] = i;
    if (n) {
        int b = w[0];
        if (mode == 1 || mode == 3) b = w[rr() % n];
        else for (int i = 1; i < n; ++i) if (T[w[i]].wseq < T[b].wseq) b = w[i];
        wake(b);
    }
    step(1);
    return 0;
}
int vh_cbroadcast(pthread_cond_t *c)
{
    if (!IN()) return 0;
    for (int i = 0; i < nT; ++i) if ((T[i].st == BCOND || T[i].st == BTIMED) && T[i].obj == c) wake(i);
    step(1);
    return 0;
}
static void *tmain(void *x)
{
    Th *t = x;
    self = (int)(t - T);
    while (sem_wait(&t->sem) != 0) {}
    get_stack(t);
    t->ret = t->fn(t->arg);
    t->st = DONE;
    ++events;
    int to;
    for (;;) { to = pick(self, -1); if (T[to].st == BTIMED || T[to].st == BCOND) wake_timed(to); else break; }
    handoff(self, to);
    return t->ret;
}
int vh_pcreate(pthread_t *th, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    if (rt_inject_thread()) return EAGAIN;
    if (!IN()) abort();
    if (nT == MAXT) return EAGAIN;
    Th *t = &T[nT];
    memset(t, 0, sizeof *t);
    t->fn = f; t->arg = x; t->st = RUN;
    t->prio = mode == 2 ? (int)(rr() % 1000) + 100 : 0;
    sem_init(&t->sem, 0, 0);
    int r = pthread_create(&t->th, a, tmain, t);
    if (r) return r;
    *th = t->th;
    ++nT; ++rt_threads_live;
    step(1);
    return 0;
}
int vh_pjoin(pthread_t th, void **v)
{
    if (!IN()) return pthread_join(th, v);
    step(1);
    int j = -1;
    for (int i = 0; i < nT; ++i) if (i != self && pthread_equal(T[i].th, th) && T[i].fn) j = i;
    if (j < 0) abort();
    if (T[j].st != DONE) { T[self].st = BJOIN; T[self].joinee = j; resched(self, -1); T[self].st = RUN; }
    --rt_threads_live;
    T[j].fn = NULL;
    return pthread_join(th, v);
}

/* ------------------------------------------------ instrumentation call-backs */
/* The codec's sources call the __vhc_ variants: there, only locations which at least two threads use, one of
   them writing, in the control part of a block (see vh_rt.c) are scheduling points. */
extern unsigned char *rt_shadow;
extern char __data_start[], _end[];
#define STATIC_DATA(p) ((char *)(p) >= __data_start && (char *)(p) < _end)     /* variables that all objects share */
static inline void acc2(void *p, int w)
{
    if (!active || self < 0) return;
    if (STATIC_DATA(p)) { step(1); return; }
    if (!rt_shadow) return;
    size_t off = (size_t)((char *)p - (char *)0x200000000000);
    if (off >= (size_t)1 << 36) return;
    unsigned char *h = rt_shadow + (off >> 3);
    if (!*h) return;
    if (*h != 0xFF) {
        if (*h == 1) { *h = (unsigned char)(2 + self * 2 + w); return; }
        if (*h == 0xFE) { if (!w) return; *h = 0xFF; }
        else {
            int t = (*h - 2) / 2, hw = *h & 1;
            if (t == self) { *h |= w; return; }
            if (!w && !hw) { *h = 0xFE; return; }
            *h = 0xFF;
        }
    }
    step(0);
}
#define RW2(n) void __vhc_read##n(void *p) { acc2(p, 0); } void __vhc_write##n(void *p) { acc2(p, 1); } \
  void __vhc_unaligned_read##n(void *p) { acc2(p, 0); } void __vhc_unaligned_write##n(void *p) { acc2(p, 1); } \
  void __vhc_volatile_read##n(void *p) { acc2(p, 0); } void __vhc_volatile_write##n(void *p) { acc2(p, 1); } \
  void __vhc_read_write##n(void *p) { acc2(p, 1); } void __vhc_unaligned_read_write##n(void *p) { acc2(p, 1); }
RW2(1) RW2(2) RW2(4) RW2(8) RW2(16)
void __vhc_read_range(void *p, unsigned long n) { (void)n; acc2(p, 0); }
void __vhc_write_range(void *p, unsigned long n) { (void)n; acc2(p, 1); }
void __vhc_func_entry(void *p) { (void)p; }
void __vhc_func_exit(void) {}
void __vhc_init(void) {}
static inline void acc(void *p)
{
    if (!active || self < 0) return;
    if ((char *)p >= T[self].lo && (char *)p < T[self].hi) return;
    step(STATIC_DATA(p));
}
#define RW(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } \
  void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } \
  void __tsan_volatile_read##n(void *p) { acc(p); } void __tsan_volatile_write##n(void *p) { acc(p); } \
  void __tsan_read_write##n(void *p) { acc(p); } void __tsan_unaligned_read_write##n(void *p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void)n; acc(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; acc(p); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { acc(d); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { acc(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { acc(d); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
#define AT(b, t) \
 t __tsan_atomic##b##_load(const volatile t *a, int o) { (void)o; if (IN()) step(1); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##b##_store(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); __atomic_store_n(a, v, 5); } \
 t __tsan_atomic##b##_exchange(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_exchange_n(a, v, 5); } \
 t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_fetch_add(a, v, 5); } \
 t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_fetch_sub(a, v, 5); } \
 t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_fetch_and(a, v, 5); } \
 t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_fetch_or(a, v, 5); } \
 t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int o) { (void)o; if (IN()) step(1); return __atomic_fetch_xor(a, v, 5); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int o, int f) { (void)o; (void)f; if (IN()) step(1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int o, int f) { (void)o; (void)f; if (IN()) step(1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int o, int f) { (void)o; (void)f; if (IN()) step(1); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
#define AT2(b, t) \
 t __vhc_atomic##b##_load(const volatile t *a, int o) { (void)o; acc2((void *)a, 0); return __atomic_load_n(a, 5); } \
 void __vhc_atomic##b##_store(volatile t *a, t v, int o) { (void)o; acc2((void *)a, 1); __atomic_store_n(a, v, 5); } \
 t __vhc_atomic##b##_exchange(volatile t *a, t v, int o) { (void)o; acc2((void *)a, 1); return __atomic_exchange_n(a, v, 5); } \
 t __vhc_atomic##b##_fetch_add(volatile t *a, t v, int o) { (void)o; acc2((void *)a, 1); return __atomic_fetch_add(a, v, 5); } \
 t __vhc_atomic##b##_fetch_sub(volatile t *a, t v, int o) { (void)o; acc2((void *)a, 1); return __atomic_fetch_sub(a, v, 5); }
AT2(8, unsigned char) AT2(16, unsigned short) AT2(32, unsigned int) AT2(64, unsigned long)
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
