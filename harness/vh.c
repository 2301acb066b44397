/* vh: scenario interpreter. Executes API call histories against the library and records one ndjson
 * event per call: the call, its arguments, its result, the positions it moved and the state the API
 * exposes afterwards. It judges nothing: the TLA+ trace specifications do.
 *
 * usage: vh <scenario file> <trace file> [timeout seconds]
 * A file holds scenarios: "scenario <id> [sched <mode> <seed> <horizon> [point...]]" ... "end".
 * Each runs in a forked child; a crash or a hang becomes an event of its own. */
#define _GNU_SOURCE
#include "fast-lzma2.h"
#include "fl2_errors.h"
#include "fl2_pool.h"
#include "vh_rt.h"
#include "refdec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <pthread.h>
#include <time.h>

int vh_pcreate(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int vh_pjoin(pthread_t, void **);

/* ------------------------------------------------------------ events */
static __thread char *ev; static __thread size_t evn, evcap;
static __thread FILE *tf;   /* where this caller's events go */
static FILE *maintf;        /* the trace itself */
static int par;             /* several callers: memory figures belong to nobody */
static void evp(const char *f, ...)
{
    va_list a;
    for (;;) {
        if (!ev) { evcap = 4096; ev = malloc(evcap); }
        va_start(a, f);
        int n = vsnprintf(ev + evn, evcap - evn, f, a);
        va_end(a);
        if ((size_t)n < evcap - evn) { evn += n; return; }
        evcap = evcap * 2 + n + 256; ev = realloc(ev, evcap);
    }
}
static long lim(unsigned long long v) { return v > 0x7fffffffull ? -1 : (long)v; }
static void ev_begin(const char *e, int o) { evn = 0; evp("{\"e\":\"%s\",\"o\":%d", e, o); }
static void ev_int(const char *k, unsigned long long v) { evp(",\"%s\":%ld", k, lim(v)); }
static void ev_str(const char *k, const char *v) { evp(",\"%s\":\"%s\"", k, v); }
static __thread long nevents;
static void ev_end(void)
{
    evp("}\n"); fwrite(ev, 1, evn, tf);
    if (++nevents == 250000) { fputs("{\"e\":\"flood\",\"o\":0}\n", maintf); fflush(maintf); _exit(0); }   /* calls that get nowhere */
    fflush(tf);
}
static const char *errname(size_t r)
{
    if (!FL2_isError(r)) return "ok";
    switch (FL2_getErrorCode(r)) {
    case FL2_error_GENERIC: return "generic";
    case FL2_error_internal: return "internal";
    case FL2_error_corruption_detected: return "corruption";
    case FL2_error_checksum_wrong: return "checksum";
    case FL2_error_parameter_unsupported: return "unsupported";
    case FL2_error_parameter_outOfBound: return "bound";
    case FL2_error_lclpMax_exceeded: return "lclp";
    case FL2_error_stage_wrong: return "stage";
    case FL2_error_init_missing: return "init";
    case FL2_error_memory_allocation: return "memory";
    case FL2_error_dstSize_tooSmall: return "dstsize";
    case FL2_error_srcSize_wrong: return "srcsize";
    case FL2_error_canceled: return "canceled";
    case FL2_error_buffer: return "buffer";
    case FL2_error_timedOut: return "timeout";
    default: return "unknown";
    }
}
static __thread long f0;
static __thread char pred;            /* what a model predicts for this call (information only) */
static __thread long predIn, predOut; /* and for its positions, if not negative */
static __thread int predPos = -1;     /* whether they agree */
static void ev_res(size_t r)
{
    if (pred) { evp(",\"pred\":\"%c%c\"", pred, predPos == 0 ? 'p' : FL2_isTimedOut(r) ? 't' : FL2_isError(r) ? 'e' : r ? '1' : '0'); pred = 0; predPos = -1; }
    ev_str("r", errname(r));
    ev_int("v", FL2_isError(r) ? 0 : r);
    evp(",\"flt\":%ld", rt_faults - f0);
}
#define CALL() (f0 = rt_faults)

/* ------------------------------------------------------------ buffers */
typedef struct { uint8_t *p; size_t n, cap; } Buf;
static void bput(Buf *b, const void *p, size_t n)
{
    if (b->n + n > b->cap || !b->p) { b->cap = (b->n + n) * 2 + 64; b->p = realloc(b->p, b->cap); }
    if (n) memcpy(b->p + b->n, p, n);
    b->n += n;
}
#define NB 64
static __thread Buf B[NB];        /* general buffers */
static __thread int rawOf[NB];    /* for a compressed buffer: buffer holding the expected content, or -1 */
static __thread int hasHash[NB], noProp[NB]; static __thread unsigned propOf[NB];
static __thread uint64_t xs;
static uint32_t xr(void) { xs ^= xs << 13; xs ^= xs >> 7; xs ^= xs << 17; return (uint32_t)(xs >> 20); }
static void seed(uint64_t s) { xs = (s + 1) * 0x9E3779B97F4A7C15ull; xr(); xr(); }

static void gen(Buf *b, const char *spec)
{
    char k = spec[0]; long a[4] = { 0, 0, 0, 0 }; int n = 0;
    const char *p = spec + 1;
    while (*p == ':' && n < 4) a[n++] = strtol(p + 1, (char **)&p, 0);
    size_t len = (size_t)a[0], st = b->n;
    uint8_t *t = malloc(len + 1);
    switch (k) {
    case 'r': seed(a[1]); for (size_t i = 0; i < len; ++i) t[i] = (uint8_t)xr(); break;
    case 'z': memset(t, (int)a[1], len); break;
    case 'a': seed(a[2]); for (size_t i = 0; i < len; ++i) t[i] = (uint8_t)('a' + xr() % (a[1] ? a[1] : 2)); break;
    case 'p': seed(a[2]); { size_t per = a[1] ? a[1] : 1; for (size_t i = 0; i < len; ++i) t[i] = i < per ? (uint8_t)xr() : t[i - per]; } break;
    case 't': { seed(a[1]); char w[64][12]; int wl[64];
        for (int i = 0; i < 64; ++i) { wl[i] = 2 + xr() % 9; for (int j = 0; j < wl[i]; ++j) w[i][j] = 'a' + xr() % 26; }
        size_t i = 0; while (i < len) { int x = (xr() % 64) & (xr() % 64); for (int j = 0; j < wl[x] && i < len; ++j) t[i++] = w[x][j]; if (i < len) t[i++] = ' '; } } break;
    case 'l': { seed(a[1]); uint32_t c = xr(); for (size_t i = 0; i < len; ++i) { size_t f = (i) & 15; t[i] = f < 4 ? (uint8_t)(c >> (8 * f)) : f < 8 ? (uint8_t)(i >> 4) : f < 12 ? 0 : (uint8_t)(xr() % 3); if (f == 15) c += xr() % 50; } } break;
    case 'c': { size_t d = a[1]; for (size_t i = 0; i < len; ++i) { size_t pos = st + i; uint8_t v = 0; size_t dd = d < 1 ? 1 : d; if (dd <= pos) { size_t q = pos - dd; v = q < st ? b->p[q] : t[q - st]; } t[i] = v; } } break;
    case 'm': { seed(a[3]); size_t d = a[1] ? a[1] : 1; for (size_t i = 0; i < len; ++i) { size_t pos = st + i; uint8_t v = 0; if (d <= pos) { size_t q = pos - d; v = q < st ? b->p[q] : t[q - st]; } if (xr() % (a[2] ? a[2] : 16) == 0) v = (uint8_t)xr(); t[i] = v; } } break;
    case 'b': { seed(a[2]); /* blocks copied from random earlier places */ size_t i = 0; while (i < len) { size_t l = 1 + xr() % (a[1] ? a[1] : 40); size_t pos = st + i; if (pos < 2 || xr() % 6 == 0) { t[i++] = (uint8_t)xr(); continue; } size_t d = 1 + xr() % pos; for (; l && i < len; --l, ++i) { size_t q = st + i - d; t[i] = q < st ? b->p[q] : t[q - st]; } } } break;
    case 's': { seed(a[2]); /* sparse: zeros with rare bytes */ for (size_t i = 0; i < len; ++i) t[i] = xr() % (a[1] ? a[1] : 50) ? 0 : (uint8_t)xr(); } break;
    default: fprintf(stderr, "bad data spec %s\n", spec); _exit(3);
    }
    bput(b, t, len);
    free(t);
}

/* guarded scratch area of exactly n usable bytes */
#define GUARD 32
static uint8_t *galloc(size_t n)
{
    uint8_t *p = malloc(n + 2 * GUARD);
    memset(p, 0xC3, GUARD); memset(p + GUARD, 0x77, n); memset(p + GUARD + n, 0xC3, GUARD);
    return p + GUARD;
}
static int gcheck(uint8_t *p, size_t n)
{
    for (int i = 0; i < GUARD; ++i) if (p[-1 - i] != 0xC3 || p[n + i] != 0xC3) return 0;
    return 1;
}
static void gfree(uint8_t *p) { free(p - GUARD); }
/* without guards: the sanitizer's red zones start right at the ends */
#ifdef __SANITIZE_ADDRESS__
#define xalloc(n) ((uint8_t *)malloc((n) ? (n) : 1))
#define xcheck(p, n) 1
#define xfree(p) free(p)
#else
#define xalloc galloc
#define xcheck gcheck
#define xfree gfree
#endif

/* ------------------------------------------------------------ reference decoding event fields */
static void ev_ref(const uint8_t *p, size_t n, int omit, int hash, unsigned propgiven, const Buf *raw)
{
    RefInfo ri; memset(&ri, 0, sizeof ri);
    size_t pos = 0; unsigned prop = propgiven; int havep = 1;
    if (!omit) { if (n == 0) havep = 0; else { prop = p[0]; pos = 1; } }
    int hb = !omit && havep ? prop >> 7 : 0;
    uint8_t *out = malloc(raw->n + 64);
    evp(",\"ref\":{");
    if (!havep) { evp("\"st\":\"trunc\",\"why\":\"empty\",\"len\":0,\"eq\":1,\"used\":0,\"hb\":-1,\"hash\":-1,\"dict\":0,\"maxdist\":0,\"gap\":0,\"ming\":0,\"nres\":0,\"nch\":0,\"props\":[],\"first\":0,\"part\":0}"); free(out); return; }
    ref_decode(p + pos, n - pos, prop & 0x7f, out, raw->n + 32, &ri);
    int eq = ri.out_len <= raw->n && memcmp(out, raw->p, ri.out_len) == 0;
    int hashok = -1;
    size_t used = pos + ri.in_used;
    if (ri.status == REF_OK && hash) {
        if (n - used >= 4) {
            uint32_t h = ref_xxh32(out, ri.out_len);
            hashok = p[used] == (uint8_t)(h >> 24) && p[used + 1] == (uint8_t)(h >> 16) && p[used + 2] == (uint8_t)(h >> 8) && p[used + 3] == (uint8_t)h;
            used += 4;
        } else hashok = -2;
    }
    int pl[256], np = 0; memset(pl, 0, sizeof pl);
    size_t maxul = 0;
    for (size_t i = 0; i < ri.nchunks; ++i) { if (ri.chunks[i].control >= 0xC0) pl[ri.chunks[i].props] = 1; if (ri.chunks[i].ulen > maxul) maxul = ri.chunks[i].ulen; }
    evp("\"st\":\"%s\",\"why\":\"%s\",\"len\":%ld,\"eq\":%d,\"used\":%ld,\"hb\":%d,\"hash\":%d,\"dict\":%ld,\"maxdist\":%ld,\"gap\":%ld,\"ming\":%ld,\"nres\":%ld,\"nch\":%ld,\"first\":%d,\"part\":%ld,\"props\":[",
        ri.status == REF_OK ? "ok" : ri.status == REF_TRUNC ? "trunc" : "bad", ri.why, (long)ri.out_len, eq, (long)used, hb, hashok,
        ri.dict > 0x7fffffff ? 0x7fffffffL : (long)ri.dict, (long)ri.maxdist, (long)ri.max_gap, (long)ri.min_gap, (long)ri.nresets, (long)ri.nchunks, ri.nchunks ? ri.chunks[0].control : -1, (long)ri.partial_len);
    for (int i = 0; i < 256; ++i) if (pl[i]) evp("%s%d", np++ ? "," : "", i);
    evp("]}");
    ref_free(&ri); free(out);
}

/* ------------------------------------------------------------ objects */
#define NO 8
typedef struct {
    FL2_CCtx *c; Buf fed, out; int src; size_t spos; unsigned ncall; int lastProp; long digestPos;
    long base_live;
} CS;
typedef struct { FL2_DCtx *d; } DC;
typedef struct {
    FL2_DStream *d; int src; size_t spos; Buf out; unsigned ncall; int pend;
    uint8_t *ib, *ob; size_t ipre, opre, ilen, ocap; FL2_inBuffer in; FL2_outBuffer op;
} DSt;
static __thread CS C[NO]; static __thread DC D[NO]; static __thread DSt S[NO];

static const struct { const char *n; FL2_cParameter p; } PN[] = {
    { "level", FL2_p_compressionLevel }, { "high", FL2_p_highCompression }, { "dictLog", FL2_p_dictionaryLog },
    { "dictSize", FL2_p_dictionarySize }, { "overlap", FL2_p_overlapFraction }, { "reset", FL2_p_resetInterval },
    { "bufres", FL2_p_bufferResize }, { "chainLog", FL2_p_hybridChainLog }, { "cycles", FL2_p_hybridCycles },
    { "depth", FL2_p_searchDepth }, { "fastlen", FL2_p_fastLength }, { "divconq", FL2_p_divideAndConquer },
    { "strategy", FL2_p_strategy }, { "lc", FL2_p_literalCtxBits }, { "lp", FL2_p_literalPosBits },
    { "pb", FL2_p_posBits }, { "omit", FL2_p_omitProperties }, { "hash", FL2_p_doXXHash }, { NULL, 0 } };

static FL2_cParameter pid(const char *s)
{
    for (int i = 0; PN[i].n; ++i) if (!strcmp(PN[i].n, s)) return PN[i].p;
    return (FL2_cParameter)atoi(s);
}
static void ev_params(FL2_CCtx *c)
{
    evp(",\"p\":{");
    for (int i = 0; PN[i].n; ++i) evp("%s\"%s\":%ld", i ? "," : "", PN[i].n, lim(FL2_CCtx_getParameter(c, PN[i].p)));
    evp("}");
}
static void ev_mem(void) { if (par) { evp(",\"live\":0,\"peak\":0,\"nlive\":0"); return; } evp(",\"live\":%ld,\"peak\":%ld,\"nlive\":%ld", lim(rt_live), lim(rt_peak), rt_live_n); }
/* queries after a streaming compression call */
static void ev_cq(CS *s)
{
    unsigned long long o = 0, p = FL2_getCStreamProgress(s->c, &o);
    size_t rem = FL2_remainingOutputSize(s->c);
    evp(",\"prog\":%ld,\"pout\":%ld,\"rem\":%ld,\"fed\":%ld,\"out\":%ld", lim(p), lim(o), FL2_isError(rem) ? -2 : lim(rem), (long)s->fed.n, (long)s->out.n);
}
static long num(const char *s) { return strtol(s, NULL, 0); }
static long capof(const char *s, size_t bound, size_t need)
{
    if (!strncmp(s, "bound", 5)) return (long)bound + (s[5] ? atol(s + 5) : 0);
    if (!strncmp(s, "rem", 3)) { long a = 1, b = 1; sscanf(s, "rem*%ld/%ld", &a, &b); return (long)(need * (size_t)a / (size_t)b); }
    if (!strncmp(s, "need", 4)) return (long)need + (s[4] ? atol(s + 4) : 0);
    return strtol(s, NULL, 0);
}
static int isDead(size_t r) { return FL2_isError(r) && !FL2_isTimedOut(r); }

/* one FL2_compressStream call with n further input bytes and cap output bytes (cap<0: NULL) */
static size_t do_feed(int o, size_t n, long cap, size_t *used)
{
    CS *s = &C[o]; Buf *src = &B[s->src];
    if (n > src->n - s->spos) n = src->n - s->spos;
    size_t pre = (s->ncall * 7) % 5, opre = (s->ncall * 3) % 4; s->ncall++;
    uint8_t *ib = xalloc(n + pre); memset(ib, 0xEE, pre); memcpy(ib + pre, src->p + s->spos, n);
    uint8_t *ob = cap >= 0 ? xalloc(cap + opre) : NULL;
    FL2_inBuffer in = { ib, n + pre, pre }; FL2_outBuffer out = { ob, cap >= 0 ? cap + opre : 0, opre };
    CALL();
    size_t r = FL2_compressStream(s->c, cap >= 0 ? &out : NULL, &in);
    size_t din = in.pos - pre, dout = cap >= 0 ? out.pos - opre : 0;
    int g = cap >= 0 ? xcheck(ob, cap + opre) : 1;
    if (din <= n) bput(&s->fed, src->p + s->spos, din);
    if (din <= n) s->spos += din;
    if (cap >= 0 && dout <= (size_t)cap) bput(&s->out, ob + opre, dout);
    ev_begin("feed", o); evp(",\"n\":%ld,\"cap\":%ld,\"din\":%ld,\"dout\":%ld,\"guard\":%d", (long)n, cap, (long)din, (long)dout, g); ev_res(r); ev_cq(s); ev_end();
    xfree(ib); if (ob) xfree(ob);
    if (used) *used = din;
    return r;
}
static size_t do_copy(int o, long cap)
{
    CS *s = &C[o]; size_t opre = (s->ncall * 3) % 4; s->ncall++;
    uint8_t *ob = xalloc(cap + opre); FL2_outBuffer out = { ob, cap + opre, opre };
    CALL(); size_t r = FL2_copyCStreamOutput(s->c, &out);
    size_t dout = out.pos - opre; int g = xcheck(ob, cap + opre);
    if (dout <= (size_t)cap) bput(&s->out, ob + opre, dout);
    ev_begin("copy", o); evp(",\"cap\":%ld,\"dout\":%ld,\"guard\":%d", cap, (long)dout, g); ev_res(r); ev_cq(s); ev_end();
    xfree(ob); return r;
}
static size_t do_next(int o)
{
    CS *s = &C[o]; FL2_cBuffer cb = { NULL, 0 };
    CALL(); size_t r = FL2_getNextCompressedBuffer(s->c, &cb);
    size_t dout = 0;
    if (!FL2_isError(r)) { dout = cb.size; bput(&s->out, cb.src, cb.size); }
    ev_begin("next", o); evp(",\"dout\":%ld", (long)dout); ev_res(r); ev_cq(s); ev_end();
    return r;
}
static size_t do_fl(int o, int end, long cap)
{
    CS *s = &C[o]; size_t opre = (s->ncall * 3) % 4; s->ncall++;
    uint8_t *ob = cap >= 0 ? xalloc(cap + opre) : NULL; FL2_outBuffer out = { ob, cap >= 0 ? cap + opre : 0, opre };
    CALL();
    size_t r = end ? FL2_endStream(s->c, cap >= 0 ? &out : NULL) : FL2_flushStream(s->c, cap >= 0 ? &out : NULL);
    size_t dout = cap >= 0 ? out.pos - opre : 0; int g = cap >= 0 ? xcheck(ob, cap + opre) : 1;
    if (cap >= 0 && dout <= (size_t)cap) bput(&s->out, ob + opre, dout);
    ev_begin(end ? "end" : "flush", o); evp(",\"cap\":%ld,\"dout\":%ld,\"guard\":%d", cap, (long)dout, g); ev_res(r); ev_cq(s); ev_end();
    if (ob) xfree(ob);
    return r;
}
static size_t do_wait(int o)
{
    CALL(); size_t r = FL2_waitCStream(C[o].c);
    ev_begin("wait", o); ev_res(r); ev_cq(&C[o]); ev_end(); return r;
}
static void do_check(int o)
{
    CS *s = &C[o];
    int omit = (int)FL2_CCtx_getParameter(s->c, FL2_p_omitProperties), hash = (int)FL2_CCtx_getParameter(s->c, FL2_p_doXXHash);
    ev_begin("check", o); evp(",\"fed\":%ld,\"out\":%ld,\"digest\":%ld", (long)s->fed.n, (long)s->out.n, (long)(ref_xxh32(s->out.p, s->out.n) & 0x3fffffff));
    ev_int("dprop", FL2_getCCtxDictProp(s->c));
    ev_ref(s->out.p, s->out.n, omit, hash && !omit, FL2_getCCtxDictProp(s->c), &s->fed);
    ev_params(s->c); ev_end();
}

/* ------------------------------------------------------------ streaming decompression */
static void ev_dq(DSt *s)
{
    Buf *raw = rawOf[s->src] >= 0 ? &B[rawOf[s->src]] : NULL;
    int eq = raw ? (s->out.n <= raw->n && memcmp(s->out.p, raw->p, s->out.n) == 0) : 1;
    int eqp = raw ? memcmp(s->out.p, raw->p, s->out.n < raw->n ? s->out.n : raw->n) == 0 : 1;
    evp(",\"eq\":%d,\"eqp\":%d,\"prog\":%ld,\"in\":%ld,\"tot\":%ld,\"live\":%ld,\"peak\":%ld", eq, eqp, lim(FL2_getDStreamProgress(s->d)), (long)s->spos, (long)s->out.n, lim(rt_live), lim(rt_peak));
}
static void d_collect(DSt *s, long *din, long *dout, int *g)
{
    *din = (long)s->in.pos - (long)s->ipre; *dout = (long)s->op.pos - (long)s->opre;
    *g = xcheck(s->ob, s->ocap + s->opre) && *din >= -(long)s->ipre && *dout >= 0;
    if (*dout >= 0 && (size_t)*dout <= s->ocap) bput(&s->out, s->ob + s->opre, *dout);
    s->spos += *din;
    xfree(s->ib); xfree(s->ob); s->ib = s->ob = NULL; s->pend = 0;
}
static size_t do_dec(int o, size_t n, long cap, long *pdin, long *pdout)
{
    DSt *s = &S[o]; Buf *src = &B[s->src];
    int was = s->pend;
    if (was) { n = s->ilen; cap = (long)s->ocap; }   /* the previous call timed out: called again with the same buffers */
    else {
        if (n > src->n - s->spos) n = src->n - s->spos;
        s->ipre = (s->ncall * 7) % 5; s->opre = (s->ncall * 3) % 4; s->ncall++;
        s->ilen = n; s->ocap = cap;
        s->ib = xalloc(n + s->ipre); memset(s->ib, 0xEE, s->ipre); memcpy(s->ib + s->ipre, src->p + s->spos, n);
        s->ob = xalloc(cap + s->opre);
        s->in = (FL2_inBuffer){ s->ib, n + s->ipre, s->ipre }; s->op = (FL2_outBuffer){ s->ob, cap + s->opre, s->opre };
    }
    rt_peak = rt_live; CALL(); size_t r = FL2_decompressStream(s->d, &s->op, &s->in);
    long din = 0, dout = 0; int g = 1, pend = 0;
    if (FL2_isTimedOut(r) || (was && FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_stage_wrong)) pend = s->pend = 1;
    else d_collect(s, &din, &dout, &g);
    if (pred && predIn >= 0) predPos = din == predIn && dout == predOut;
    ev_begin("dec", o); evp(",\"n\":%ld,\"cap\":%ld,\"was\":%d,\"din\":%ld,\"dout\":%ld,\"guard\":%d,\"pend\":%d", (long)n, cap, was, din, dout, g, pend); ev_res(r); ev_dq(s); ev_end();
    if (pdin) *pdin = din;
    if (pdout) *pdout = dout;
    return r;
}
static size_t do_dwait(int o, long *pdin, long *pdout)
{
    DSt *s = &S[o];
    CALL(); size_t r = FL2_waitDStream(s->d);
    long din = 0, dout = 0; int g = 1, was = s->pend, n = 0; long cap = 0;
    if (was) { n = (int)s->ilen; cap = (long)s->ocap; }
    if (!FL2_isTimedOut(r) && s->pend) d_collect(s, &din, &dout, &g);
    ev_begin("dwait", o); evp(",\"n\":%d,\"cap\":%ld,\"was\":%d,\"din\":%ld,\"dout\":%ld,\"guard\":%d,\"pend\":%d", n, cap, was, din, dout, g, s->pend); ev_res(r); ev_dq(s); ev_end();
    if (pdin) *pdin = din;
    if (pdout) *pdout = dout;
    return r;
}

/* ------------------------------------------------------------ decoding an arbitrary buffer through every interface */
static void do_ddec(int o, int b, const char *capspec, int prop)
{
    Buf *src = &B[b]; Buf *raw = rawOf[b] >= 0 ? &B[rawOf[b]] : NULL;
    size_t rawn = raw ? raw->n : 0;
    long cap = capof(capspec, rawn, rawn); if (cap < 0) cap = 0;
    uint8_t *in = xalloc(src->n); memcpy(in, src->p, src->n);
    uint8_t *out = xalloc(cap);
    CALL();
    size_t ri = 0;
    if (prop >= 0) ri = FL2_initDCtx(D[o].d, (unsigned char)prop);
    size_t r = FL2_decompressDCtx(D[o].d, out, cap, in, src->n);
    int eq = raw && !FL2_isError(r) && r <= (size_t)cap && r <= raw->n && !memcmp(out, raw->p, r);
    ev_begin("ddec", o); evp(",\"b\":%d,\"src\":%ld,\"cap\":%ld,\"rawn\":%ld,\"prop\":%d,\"ri\":\"%s\",\"eq\":%d,\"guard\":%d,\"thr\":%u", b, (long)src->n, cap, raw ? (long)rawn : -1, prop, errname(ri), eq, xcheck(out, cap), FL2_getDCtxThreadCount(D[o].d));
    ev_res(r); ev_end();
    xfree(in); xfree(out);
}
/* verdict of the reference decoder on a (possibly damaged) buffer, independent of what built it */
static void do_refdec(int b, int o)
{
    Buf *src = &B[b]; int rw = rawOf[b];
    size_t cap = (rw >= 0 ? B[rw].n : 0) + (1 << 22);
    uint8_t *out = malloc(cap); RefInfo ri; memset(&ri, 0, sizeof ri);
    size_t pos = noProp[b] ? 0 : 1; unsigned prop = noProp[b] ? propOf[b] : src->n ? src->p[0] : 0;
    int st = REF_TRUNC, hash = -1; size_t used = 0;
    if (src->n >= pos) {
        st = ref_decode(src->p + pos, src->n - pos, prop & 0x3f, out, cap, &ri);   /* bit 6 is not looked at */
        used = pos + ri.in_used;
        if (st == REF_OK && (prop & 0x80)) {
            if (src->n - used < 4) { hash = -2; used = src->n; }
            else { uint32_t h = ref_xxh32(out, ri.out_len); hash = src->p[used] == (uint8_t)(h >> 24) && src->p[used + 1] == (uint8_t)(h >> 16) && src->p[used + 2] == (uint8_t)(h >> 8) && src->p[used + 3] == (uint8_t)h; used += 4; }
        }
    }
    ev_begin("refdec", o);
    evp(",\"b\":%d,\"st\":\"%s\",\"why\":\"%s\",\"len\":%ld,\"used\":%ld,\"hash\":%d,\"size\":%ld,\"dict\":%ld", b, st == REF_OK ? "ok" : st == REF_TRUNC ? "trunc" : "bad", ri.why ? ri.why : "", (long)ri.out_len, (long)used, hash, (long)src->n, lim(ri.dict));
    ev_end();
    /* what it decodes to becomes the expected content */
    int nb = NB - 1 - o; B[nb].n = 0; bput(&B[nb], out, ri.out_len); rawOf[b] = nb;
    ref_free(&ri); free(out);
}

/* a short buffer and what it decodes to, byte by byte: for the format specification itself */
static void ev_bytes(const char *k, const uint8_t *p, size_t n)
{
    char t[6000]; int m = 0;
    for (size_t i = 0; i < n; ++i) m += snprintf(t + m, sizeof t - m, i ? ",%d" : "%d", p[i]);
    t[m] = 0; evp(",\"%s\":[%s]", k, t);
}
static void do_fmt(int b, int o)
{
    Buf *src = &B[b]; enum { MAXO = 1200 };
    if (src->n > 600) return;
    uint8_t *out = malloc(1 << 22); RefInfo ri; memset(&ri, 0, sizeof ri); ri.status = REF_TRUNC;
    size_t pos = noProp[b] ? 0 : 1; unsigned prop = noProp[b] ? propOf[b] : src->n ? src->p[0] : 0;
    if (src->n >= pos) ref_decode(src->p + pos, src->n - pos, prop & 0x3f, out, 1 << 22, &ri);
    if (ri.out_len > MAXO) { ref_free(&ri); free(out); return; }
    /* the library: one shot, then streamed in small pieces */
    uint8_t *in = xalloc(src->n), *lo = xalloc(ri.out_len + 300); memcpy(in, src->p, src->n);
    FL2_DCtx *d = FL2_createDCtx(); size_t r = 0;
    if (noProp[b]) r = FL2_initDCtx(d, (unsigned char)prop);
    if (!FL2_isError(r)) r = FL2_decompressDCtx(d, lo, ri.out_len + 300, in, src->n);
    FL2_freeDCtx(d);
    ev_begin("fmt", o); evp(",\"prop\":%d,\"st\":\"%s\",\"used\":%ld", noProp[b] ? (int)prop : -1, ri.status == REF_OK ? "ok" : ri.status == REF_TRUNC ? "trunc" : "bad", src->n >= pos ? (long)(pos + ri.in_used) : 0);
    ev_bytes("in", src->p, src->n); ev_bytes("ref", out, ri.out_len);
    evp(",\"one\":\"%s\"", FL2_isError(r) ? errname(r) : "ok"); ev_bytes("oneout", lo, FL2_isError(r) ? 0 : r);
    xfree(lo); lo = xalloc(ri.out_len + 300);
    FL2_DStream *x = FL2_createDStream(); size_t ip = 0, op = 0; int idle = 0;
    r = noProp[b] ? FL2_initDStream_withProp(x, (unsigned char)prop) : FL2_initDStream(x);
    if (!FL2_isError(r)) do {
        size_t n = src->n - ip, c = ri.out_len + 300 - op, ni = 1 + (ip * 7 + op) % 23, nc = 1 + (ip + op * 5) % 37;
        FL2_inBuffer ib = { in + ip, n < ni ? n : ni, 0 }; FL2_outBuffer ob = { lo + op, c < nc ? c : nc, 0 };
        r = FL2_decompressStream(x, &ob, &ib); ip += ib.pos; op += ob.pos; idle = ib.pos + ob.pos ? 0 : idle + 1;
    } while (!FL2_isError(r) && r != 0 && idle < 3);
    FL2_freeDStream(x);
    evp(",\"str\":\"%s\",\"left\":%d,\"strused\":%ld", FL2_isError(r) ? errname(r) : "ok", FL2_isError(r) ? -1 : (int)r, (long)ip); ev_bytes("strout", lo, op);
    ev_end();
    xfree(in); xfree(lo); free(out); ref_free(&ri);
}

/* ------------------------------------------------------------ thread pool */
typedef struct { int o, opq; } PJob;
typedef struct { FL2POOL_ctx *p; PJob job[8]; int work; } Po;
static Po P[4];
static void pev(const char *f, ...)
{
    char b[256]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    fwrite(b, 1, n, maintf); fflush(maintf);   /* jobs run in threads of the pool */
}
static void pjob(int fn, void *q, ptrdiff_t n);
static void pfn0(void *q, ptrdiff_t n) { pjob(0, q, n); }
static void pfn1(void *q, ptrdiff_t n) { pjob(1, q, n); }
static void padd(int o, int opq, ptrdiff_t a, ptrdiff_t b, int one)
{
    PJob *j = &P[o].job[opq]; j->o = o; j->opq = opq;
    pev("{\"e\":\"padd\",\"o\":%d,\"fn\":%d,\"q\":%d,\"a\":%ld,\"b\":%ld}\n", o, opq & 1, opq, (long)a, (long)b);
    if (one) FL2POOL_add(P[o].p, opq & 1 ? pfn1 : pfn0, j, a);
    else FL2POOL_addRange(P[o].p, opq & 1 ? pfn1 : pfn0, j, a, b);
}
static int pwait(int o, unsigned ms)
{
    int r = FL2POOL_waitAll(P[o].p, ms);
    pev("{\"e\":\"pwait\",\"o\":%d,\"ms\":%u,\"v\":%d}\n", o, ms, r);
    return r;
}
static void pjob(int fn, void *q, ptrdiff_t n)
{
    PJob *j = q; int o = j->o, opq = j->opq;
    pev("{\"e\":\"jstart\",\"o\":%d,\"fn\":%d,\"q\":%d,\"n\":%ld}\n", o, fn, opq, (long)n);
    for (int i = 0; i < P[o].work; ++i) rt_yield((unsigned)(n * 7 + i * 3));
    if (opq == 6 && o == 0 && P[1].p) {                     /* a job that uses another pool, as asynchronous compression does */
        padd(1, 1, 1, 1 + (n & 3), 0); pwait(1, 0); padd(1, 2, 4, 5 + (n & 1), 0); pwait(1, 0);
    }
    pev("{\"e\":\"jend\",\"o\":%d,\"fn\":%d,\"q\":%d,\"n\":%ld}\n", o, fn, opq, (long)n);
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

/* ------------------------------------------------------------ interpreter */
#define MAXARG 4096
static __thread char *av[MAXARG]; static __thread int ac;
static int A(int i) { return i < ac ? (int)num(av[i]) : 0; }
#define IS(s) (!strcmp(av[0], s))

static void do_sweep(int b, int thr, int x);
/* an output capacity; "rem*a/b": a fraction of what can be read now */
static long capc(int o, const char *s)
{
    if (strncmp(s, "rem", 3)) return num(s);
    size_t rem = FL2_remainingOutputSize(C[o].c);
    return capof(s, 0, FL2_isError(rem) ? 0 : rem);
}
#define CAPC(i) capc(o, av[i])
static int exec_line(char *line)
{
    ac = 0;
    char *tk = NULL;
    for (char *t = strtok_r(line, " \t\n", &tk); t && ac < MAXARG; t = strtok_r(NULL, " \t\n", &tk)) av[ac++] = t;
    if (ac == 0 || av[0][0] == '#') return 0;
    pred = 0; predPos = -1; predIn = predOut = -1;
    if (av[ac - 1][0] == '=') { pred = av[--ac][1]; sscanf(av[ac] + 2, ",%ld,%ld", &predIn, &predOut); }
    int o = ac > 1 ? atoi(av[1]) : 0;
    /* "<op>if": only when the object does not exist; operations on objects that could not be created are skipped */
    static const char *const CO[] = { "cfree", "cset", "cget", "ccopy", "comp", "sinit", "stimeout", "feed", "feedall", "dict", "dictall", "copy", "copyall", "next", "nextall", "flush", "end", "flushall", "endall", "wait", "waitall", "cancel", "check", "keep", "est", NULL };
    static const char *const DO[] = { "dfree", "ddec", "dinit1", NULL };
    static const char *const XO[] = { "xfree", "xsrc", "xinit", "xtimeout", "xlimit", "dec", "decall", "dwait", "xcancel", "dcheck", NULL };
    if (IS("cnewif")) { if (C[o].c) return 0; strcpy(av[0], "cnew"); }
    if (IS("dnewif")) { if (D[o].d) return 0; strcpy(av[0], "dnew"); }
    if (IS("xnewif")) { if (S[o].d) return 0; strcpy(av[0], "xnew"); }
    for (int i = 0; CO[i]; ++i) if (IS(CO[i]) && !C[o].c) return 0;
    for (int i = 0; DO[i]; ++i) if (IS(DO[i]) && !D[o].d) return 0;
    for (int i = 0; XO[i]; ++i) if (IS(XO[i]) && !S[o].d) return 0;
    if (IS("data")) { B[o].n = 0; rawOf[o] = -1; for (int i = 2; i < ac; ++i) gen(&B[o], av[i]); }
    else if (IS("hex")) { /* hex b raw|- bytes */
        B[o].n = 0; rawOf[o] = av[2][0] == '-' ? -1 : atoi(av[2]);
        if (ac > 3) for (char *p = av[3]; p[0] && p[1]; p += 2) { uint8_t v = (uint8_t)(hexv(p[0]) * 16 + hexv(p[1])); bput(&B[o], &v, 1); }
    }
    else if (IS("mk")) { /* mk b rawb seed prop hash(0/1/2=bad) lc lp pb kind,len,flags... ; prop<0: no property byte */
        int rb = A(2); RefEnc *e = renc_new((uint32_t)A(3)); int prop = A(4), hash = A(5);
        renc_setprops(e, A(6), A(7), A(8));
        renc_setdict(e, ref_dict_from_prop((unsigned)prop));
        for (int i = 9; i < ac; ++i) {
            if (av[i][0] == 'P') { int l = av[i][1] - '0', p = av[i][2] - '0', b = av[i][3] - '0'; renc_setprops(e, l, p, b); continue; }
            long k, l = 0, f = 0; char *q; k = strtol(av[i], &q, 0);
            if (*q == ',') l = strtol(q + 1, &q, 0);
            if (*q == ',') f = strtol(q + 1, &q, 0);
            renc_chunk(e, (int)k, (size_t)l, (int)f);
        }
        const uint8_t *p, *r; size_t n, rn; renc_get(e, &p, &n, &r, &rn);
        B[o].n = 0; B[rb].n = 0; rawOf[o] = rb; rawOf[rb] = -1;
        noProp[o] = prop < 0; propOf[o] = prop < 0 ? (unsigned)-prop : (unsigned)prop;
        if (prop >= 0) { uint8_t pb = (uint8_t)(prop | (hash ? 0x80 : 0)); bput(&B[o], &pb, 1); }
        bput(&B[o], p, n); bput(&B[rb], r, rn);
        if (hash) { uint32_t h = ref_xxh32(B[rb].p, rn); if (hash == 2) h ^= 0x01000000u << (rn % 7); uint8_t c[4] = { (uint8_t)(h >> 24), (uint8_t)(h >> 16), (uint8_t)(h >> 8), (uint8_t)h }; bput(&B[o], c, 4); }
        renc_free(e);
    }
    else if (IS("mut")) { /* mut dst src op... */
        int sb = A(2); B[o].n = 0; bput(&B[o], B[sb].p, B[sb].n); rawOf[o] = rawOf[sb]; noProp[o] = noProp[sb]; propOf[o] = propOf[sb];
        int changed = 0;
        for (int i = 3; i < ac; ++i) {
            char *q = strchr(av[i], ':'); long a = 0, b = 0; size_t n = B[o].n;
            if (q) { char *z; if (q[1] == 'e') { a = (long)n + strtol(q + 2, &z, 0); } else if (q[1] == '%') { a = n ? (long)((unsigned long)strtol(q + 2, &z, 0) % n) : 0; } else a = strtol(q + 1, &z, 0); if (*z == ':') b = strtol(z + 1, NULL, 0); }
            if (a < 0) a = 0;
            if (!strncmp(av[i], "flip", 4)) { if ((size_t)a < n) { B[o].p[a] ^= (uint8_t)(b ? b : 1); changed = 1; } }
            else if (!strncmp(av[i], "set", 3)) { if ((size_t)a < n) { changed |= B[o].p[a] != (uint8_t)b; B[o].p[a] = (uint8_t)b; } }
            else if (!strncmp(av[i], "trunc", 5)) { if ((size_t)a < n) { B[o].n = a; changed = 1; } }
            else if (!strncmp(av[i], "del", 3)) { if ((size_t)a < n) { size_t k = b ? b : 1; if (k > n - a) k = n - a; memmove(B[o].p + a, B[o].p + a + k, n - a - k); B[o].n -= k; changed = 1; } }
            else if (!strncmp(av[i], "dup", 3)) { if ((size_t)a < n) { size_t k = b ? b : 1; if (k > n - a) k = n - a; Buf t = { 0 }; bput(&t, B[o].p, a + k); bput(&t, B[o].p + a, n - a); free(B[o].p); B[o] = t; changed = 1; } }
            else if (!strncmp(av[i], "app", 3)) { seed(b); for (long k = 0; k < a; ++k) { uint8_t v = (uint8_t)xr(); bput(&B[o], &v, 1); } }
        }
        ev_begin("mut", o); evp(",\"src\":%d,\"from\":%ld,\"size\":%ld,\"changed\":%d", sb, (long)B[sb].n, (long)B[o].n, changed); ev_end();
    }
    else if (IS("sweep")) do_sweep(A(1), A(2), A(3));
    else if (IS("pre")) { /* pre dst src: drop the property byte */
        int sb = A(2); B[o].n = 0; if (B[sb].n) bput(&B[o], B[sb].p + 1, B[sb].n - 1); rawOf[o] = rawOf[sb]; noProp[o] = 1; propOf[o] = B[sb].n ? B[sb].p[0] : 0;
    }
    else if (IS("fail")) { rt_faults = 0; rt_fail_at = A(1) > 0 ? rt_allocs + A(1) : 0; rt_fail_sticky = A(2); }
    else if (IS("mem")) { ev_begin("mem", 0); ev_mem(); evp(",\"thr\":%ld,\"allocs\":%ld", rt_threads_live, rt_allocs); ev_end(); }
    else if (IS("peakreset")) { rt_peak = rt_live; }
    /* ---- one-shot compression ---- */
    else if (IS("cnew")) {
        CS *s = &C[o]; size_t l0 = rt_live; CALL();
        s->c = FL2_createCStreamMt(A(2), A(3)); s->fed.n = s->out.n = 0; s->ncall = 0; s->src = 0; s->spos = 0;
        ev_begin("cnew", o); evp(",\"thr\":%d,\"dual\":%d,\"ok\":%d,\"flt\":%ld,\"got\":%u,\"leak\":%ld", A(2), A(3), s->c != NULL, rt_faults - f0, s->c ? FL2_getCCtxThreadCount(s->c) : 0, s->c ? 0 : (long)(rt_live - l0));
        if (s->c) ev_params(s->c); ev_end();
        if (!s->c && !rt_fail_at) return 0;
    }
    else if (IS("cfree")) { FL2_freeCCtx(C[o].c); C[o].c = NULL; ev_begin("cfree", o); ev_mem(); evp(",\"thr\":%ld", rt_threads_live); ev_end(); }
    else if (IS("cset")) { size_t v = (size_t)strtoull(av[3], NULL, 0); CALL(); size_t r = FL2_CCtx_setParameter(C[o].c, pid(av[2]), v);
        ev_begin("cset", o); ev_str("k", av[2]); ev_int("x", v); ev_res(r); ev_params(C[o].c); ev_end(); }
    else if (IS("ccopy")) { /* ccopy o from : every stored value set one by one */
        static const char *const K[] = { "dictSize", "overlap", "reset", "bufres", "chainLog", "cycles", "depth", "fastlen", "divconq", "strategy", "lc", "lp", "pb", "omit", "hash", NULL };
        int from = A(2);
        for (int i = 0; K[i]; ++i) { char ln[80]; snprintf(ln, sizeof ln, "cset %d %s %zu", o, K[i], FL2_CCtx_getParameter(C[from].c, pid(K[i]))); exec_line(ln); }
    }
    else if (IS("cmpb")) { /* cmpb b1 b2 want what : are the buffers equal */
        int b = A(2); ev_begin("cmpb", o); evp(",\"same\":%d,\"want\":%d", B[o].n == B[b].n && !memcmp(B[o].p, B[b].p, B[o].n), A(3)); ev_str("what", av[4]); ev_end();
    }
    else if (IS("cget")) { size_t r = FL2_CCtx_getParameter(C[o].c, pid(av[2])); CALL(); ev_begin("cget", o); ev_str("k", av[2]); ev_res(r); ev_params(C[o].c); ev_end(); }
    else if (IS("level")) { FL2_compressionParameters p; memset(&p, 0, sizeof p); CALL(); size_t r = FL2_getLevelParameters(A(2), A(3), &p);
        ev_begin("level", o); evp(",\"l\":%d,\"h\":%d", A(2), A(3)); ev_res(r);
        evp(",\"lp\":{\"dictSize\":%ld,\"overlap\":%u,\"chainLog\":%u,\"cycles\":%u,\"depth\":%u,\"fastlen\":%u,\"divconq\":%u,\"strategy\":%d}", lim(p.dictionarySize), p.overlapFraction, p.chainLog, p.cyclesLog < 31 ? 1u << p.cyclesLog : 0, p.searchDepth, p.fastLength, p.divideAndConquer, (int)p.strategy); ev_end(); }
    else if (IS("comp") || IS("comp1")) { /* comp o src dst cap level | comp1 thr src dst cap level */
        int one = IS("comp1"); int sb = A(2), db = A(3), lvl = A(5); Buf *src = &B[sb];
        static size_t need; size_t bound = FL2_compressBound(src->n);
        long cap = capof(av[4], bound, need); if (cap < 0) cap = 0;
        uint8_t *in = xalloc(src->n); memcpy(in, src->p, src->n);
        uint8_t *out = xalloc(cap);
        rt_peak = rt_live; CALL();
        size_t r = one ? (o == 1 ? FL2_compress(out, cap, in, src->n, lvl) : FL2_compressMt(out, cap, in, src->n, lvl, o)) : FL2_compressCCtx(C[o].c, out, cap, in, src->n, lvl);
        int g = xcheck(out, cap);
        int omit = one ? 0 : (int)FL2_CCtx_getParameter(C[o].c, FL2_p_omitProperties), hash = one ? 1 : (int)FL2_CCtx_getParameter(C[o].c, FL2_p_doXXHash);
        unsigned dprop = one ? 40 : FL2_getCCtxDictProp(C[o].c);
        B[db].n = 0; rawOf[db] = sb; noProp[db] = omit; propOf[db] = dprop; hasHash[db] = hash && !omit;
        int ok = !FL2_isError(r) && r <= (size_t)cap;
        if (ok) { bput(&B[db], out, r); need = r; }
        ev_begin(one ? "comp1" : "comp", one ? 0 : o);
        evp(",\"srcd\":%ld,\"n\":%ld,\"cap\":%ld,\"bound\":%ld,\"lvl\":%d,\"guard\":%d,\"dprop\":%u,\"thr\":%d,\"digest\":%ld", (long)(ref_xxh32(src->p, src->n) & 0x3fffffff), (long)src->n, cap, (long)bound, lvl, g, dprop, one ? o : 0, ok ? (long)(ref_xxh32(out, r) & 0x3fffffff) : -1L);
        ev_res(r);
        Buf none = { 0 };
        if (ok) ev_ref(out, r, omit, hash && !omit, dprop, src); else { (void)none; }
        if (!one) ev_params(C[o].c);
        ev_mem();
        ev_end();
        xfree(in); xfree(out);
    }
    /* ---- streaming compression ---- */
    else if (IS("sinit")) { CS *s = &C[o]; CALL(); size_t r = FL2_initCStream(s->c, A(2)); s->fed.n = s->out.n = 0; ev_begin("sinit", o); evp(",\"lvl\":%d", A(2)); ev_res(r); ev_cq(s); ev_params(s->c); ev_mem(); ev_end(); }
    else if (IS("stimeout")) { CALL(); size_t r = FL2_setCStreamTimeout(C[o].c, A(2)); ev_begin("stimeout", o); evp(",\"ms\":%d", A(2)); ev_res(r); ev_end(); }
    else if (IS("src")) { C[o].src = A(2); C[o].spos = 0; }
    else if (IS("feed")) do_feed(o, A(2), CAPC(3), NULL);
    else if (IS("feedall")) { /* feedall o total cap percall : until consumed; NULL output is drained with next */
        size_t left = A(2), per = ac > 4 ? A(4) : A(2); long cap = A(3); int it = 0;
        size_t av_ = B[C[o].src].n - C[o].spos; if (left > av_) left = av_;
        while (left && it++ < 20000) {
            size_t u, n = per < left ? per : left; if (n == 0) n = 1;
            size_t r = do_feed(o, n, cap, &u); left -= u;
            if (isDead(r)) return 0;
            if (FL2_isTimedOut(r)) { do_wait(o); continue; }
            if (cap < 0 && r == 1) { size_t q; int k = 0; do { q = do_next(o); if (FL2_isTimedOut(q)) continue; } while (((q && !FL2_isError(q)) || FL2_isTimedOut(q)) && ++k < 2000); }
            else if (cap >= 0 && r == 1 && cap == 0) { do_copy(o, 1 + it % 300); }
        }
    }
    else if (IS("dict")) { /* dict o n : fill up to n bytes of the dictionary directly */
        CS *s = &C[o]; Buf *src = &B[s->src]; size_t n = A(2); FL2_dictBuffer db = { NULL, 0 }; char pd = pred; pred = 0;
        if (n > src->n - s->spos) n = src->n - s->spos;
        CALL(); size_t r = FL2_getDictionaryBuffer(s->c, &db);
        ev_begin("getdict", o); evp(",\"size\":%ld", FL2_isError(r) ? -1L : (long)db.size); ev_res(r); ev_cq(s); ev_end();
        if (FL2_isError(r)) return 0;
        if (n > db.size) n = db.size;
        memcpy(db.dst, src->p + s->spos, n);
        bput(&s->fed, src->p + s->spos, n); s->spos += n;
        CALL(); r = FL2_updateDictionary(s->c, n);
        pred = pd; ev_begin("update", o); evp(",\"n\":%ld", (long)n); ev_res(r); ev_cq(s); ev_end();
    }
    else if (IS("dictall")) { /* dictall o total per : fill through the dictionary interface, reading output with next */
        CS *s = &C[o]; Buf *src = &B[s->src]; size_t left = A(2), per = A(3); int it = 0;
        if (left > src->n - s->spos) left = src->n - s->spos;
        while (left && it++ < 20000) {
            FL2_dictBuffer db = { NULL, 0 }; CALL(); size_t r = FL2_getDictionaryBuffer(s->c, &db);
            ev_begin("getdict", o); evp(",\"size\":%ld", FL2_isError(r) ? -1L : (long)db.size); ev_res(r); ev_cq(s); ev_end();
            if (isDead(r)) return 0;
            if (FL2_isTimedOut(r)) { do_wait(o); continue; }
            size_t n = per < left ? per : left; if (n > db.size) n = db.size;
            memcpy(db.dst, src->p + s->spos, n);
            bput(&s->fed, src->p + s->spos, n); s->spos += n; left -= n;
            CALL(); r = FL2_updateDictionary(s->c, n);
            ev_begin("update", o); evp(",\"n\":%ld", (long)n); ev_res(r); ev_cq(s); ev_end();
            if (isDead(r)) return 0;
            while (FL2_isTimedOut(r)) r = do_wait(o);
            if (r == 1 || n == 0) { size_t q; int k = 0; do q = do_next(o); while (((q && !FL2_isError(q)) || FL2_isTimedOut(q)) && ++k < 2000); }
        }
    }
    else if (IS("copy")) do_copy(o, CAPC(2));
    else if (IS("copyall")) { size_t r; int k = 0; do r = do_copy(o, A(2)); while (r == 1 && ++k < 20000); }
    else if (IS("next")) do_next(o);
    else if (IS("nextall")) { size_t q; int k = 0; do q = do_next(o); while (((q && !FL2_isError(q)) || FL2_isTimedOut(q)) && ++k < 5000); }
    else if (IS("flush")) do_fl(o, 0, CAPC(2));
    else if (IS("end")) do_fl(o, 1, CAPC(2));
    else if (IS("flushall") || IS("endall")) {
        int end = IS("endall"); long cap = A(2); int k = 0; size_t r;
        do {
            r = do_fl(o, end, cap);
            if (FL2_isTimedOut(r)) { do_wait(o); continue; }
            if (cap < 0 && r == 1) { size_t q; int j = 0; do q = do_next(o); while (((q && !FL2_isError(q)) || FL2_isTimedOut(q)) && ++j < 2000); }
        } while ((r == 1 || FL2_isTimedOut(r)) && ++k < 20000);
    }
    else if (IS("wait")) do_wait(o);
    else if (IS("waitall")) { int k = 0; while (FL2_isTimedOut(do_wait(o)) && ++k < 20000) {} }
    else if (IS("cancel")) { CALL(); FL2_cancelCStream(C[o].c); ev_begin("cancel", o); ev_cq(&C[o]); evp(",\"flt\":%ld", rt_faults - f0); ev_end(); }
    else if (IS("check")) do_check(o);
    else if (IS("keep")) { /* keep o b : stream output becomes buffer b, accepted bytes buffer b+1 */
        int b = A(2); B[b].n = 0; bput(&B[b], C[o].out.p, C[o].out.n); B[b + 1].n = 0; bput(&B[b + 1], C[o].fed.p, C[o].fed.n); rawOf[b] = b + 1;
        noProp[b] = (int)FL2_CCtx_getParameter(C[o].c, FL2_p_omitProperties); propOf[b] = FL2_getCCtxDictProp(C[o].c); }
    else if (IS("est")) { /* memory estimate against what was really allocated since the last peakreset */
        CALL(); ev_begin("est", o); evp(",\"ucc\":%ld,\"ucs\":%ld", lim(FL2_estimateCCtxSize_usingCCtx(C[o].c)), lim(FL2_estimateCStreamSize_usingCStream(C[o].c))); evp(",\"thr\":%u", FL2_getCCtxThreadCount(C[o].c)); ev_mem(); ev_end(); }
    else if (IS("estl")) { /* estl level threads dual : real allocation of a stream at that level */
        int l = A(1), t = A(2), d = A(3), el = ac > 4 ? A(4) : l; size_t e1 = FL2_estimateCCtxSize(el, t), e2 = FL2_estimateCStreamSize(el, t, d);
        FL2_compressionParameters p; memset(&p, 0, sizeof p); size_t e3 = 0, e4 = 0; size_t lr = FL2_getLevelParameters(l, 0, &p);
        if (!FL2_isError(lr)) { e3 = FL2_estimateCCtxSize_byParams(&p, t); e4 = FL2_estimateCStreamSize_byParams(&p, t, d); }
        size_t l0 = rt_live; rt_peak = rt_live; int ok = 0;
        FL2_CStream *cs = FL2_createCStreamMt(t, d);
        if (cs) { ok = !FL2_isError(FL2_initCStream(cs, l)); }
        size_t pk = rt_peak - l0; size_t u1 = cs ? FL2_estimateCCtxSize_usingCCtx(cs) : 0, u2 = cs ? FL2_estimateCStreamSize_usingCStream(cs) : 0;
        FL2_freeCStream(cs);
        CALL(); ev_begin("estl", 0); evp(",\"el\":%d,\"l\":%d,\"t\":%d,\"d\":%d,\"ok\":%d,\"kcc\":%ld,\"kcs\":%ld,\"kpcc\":%ld,\"kpcs\":%ld,\"kucc\":%ld,\"kucs\":%ld,\"kpeak\":%ld,\"ecc\":\"%s\",\"ecs\":\"%s\"", el, l, t, d, ok, lim(e1 / 1024), lim(e2 / 1024), lim(e3 / 1024), lim(e4 / 1024), lim(u1 / 1024), lim(u2 / 1024), lim(pk / 1024), errname(e1), errname(e2)); ev_end(); }
    else if (IS("estd")) { int t = A(1); ev_begin("estd", 0); size_t l0 = rt_live; rt_peak = rt_live; FL2_DCtx *d = FL2_createDCtxMt(t); size_t a = rt_peak - l0; FL2_freeDCtx(d);
        size_t ds = (size_t)num(av[2]); evp(",\"t\":%d,\"dctx\":%ld,\"peak\":%ld,\"dict\":%ld,\"dst\":%ld", t, lim(FL2_estimateDCtxSize(t)), lim(a), lim(ds), lim(FL2_estimateDStreamSize(ds, t))); ev_end(); }
    /* ---- one-shot decompression ---- */
    else if (IS("dnew")) { size_t l0 = rt_live; CALL(); D[o].d = FL2_createDCtxMt(A(2)); ev_begin("dnew", o); evp(",\"thr\":%d,\"ok\":%d,\"flt\":%ld,\"leak\":%ld", A(2), D[o].d != NULL, rt_faults - f0, D[o].d ? 0 : (long)(rt_live - l0)); ev_end(); if (!D[o].d && !rt_fail_at) return 0; }
    else if (IS("dfree")) { FL2_freeDCtx(D[o].d); D[o].d = NULL; ev_begin("dfree", o); ev_mem(); evp(",\"thr\":%ld", rt_threads_live); ev_end(); }
    else if (IS("ddec")) do_ddec(o, A(2), av[3], ac > 4 ? A(4) : -1);
    else if (IS("dinit1")) { CALL(); size_t r = FL2_initDCtx(D[o].d, (unsigned char)A(2)); ev_begin("dinit1", o); evp(",\"prop\":%d", A(2)); ev_res(r); ev_end(); }
    else if (IS("dmt")) { /* FL2_decompress / FL2_decompressMt : dmt threads b cap */
        int b = A(2); Buf *src = &B[b]; Buf *raw = rawOf[b] >= 0 ? &B[rawOf[b]] : NULL; long cap = capof(av[3], raw ? raw->n : 0, raw ? raw->n : 0); if (cap < 0) cap = 0;
        uint8_t *in = xalloc(src->n); memcpy(in, src->p, src->n); uint8_t *out = xalloc(cap); CALL();
        size_t r = o == 1 ? FL2_decompress(out, cap, in, src->n) : FL2_decompressMt(out, cap, in, src->n, o);
        int eq = raw && !FL2_isError(r) && r <= (size_t)cap && r <= raw->n && !memcmp(out, raw->p, r);
        ev_begin("ddec", 9); evp(",\"b\":%d,\"src\":%ld,\"cap\":%ld,\"rawn\":%ld,\"prop\":-1,\"ri\":\"ok\",\"eq\":%d,\"guard\":%d,\"thr\":%d", b, (long)src->n, cap, raw ? (long)raw->n : -1, eq, xcheck(out, cap), o); ev_res(r); ev_end(); xfree(in); xfree(out); }
    else if (IS("usize")) { int b = o; uint8_t *in = xalloc(B[b].n); memcpy(in, B[b].p, B[b].n); unsigned long long u = FL2_findDecompressedSize(in, B[b].n); int er = u == (unsigned long long)FL2_CONTENTSIZE_ERROR;
        ev_begin("usize", 0); evp(",\"b\":%d,\"err\":%d,\"u\":%ld,\"rawn\":%ld", b, er, er ? -1L : lim(u), rawOf[b] >= 0 ? (long)B[rawOf[b]].n : -1L); ev_end(); xfree(in); }
    else if (IS("refdec")) do_refdec(A(1), A(2));
    else if (IS("fmt")) do_fmt(A(1), A(2));
    else if (IS("dictprop")) { size_t r = FL2_getDictSizeFromProp((unsigned char)A(1)); CALL(); ev_begin("dictprop", 0); evp(",\"prop\":%d", A(1)); ev_res(r); ev_end(); }
    /* ---- streaming decompression ---- */
    else if (IS("xnew")) { DSt *s = &S[o]; size_t l0 = rt_live; CALL(); s->d = FL2_createDStreamMt(A(2)); s->out.n = 0; s->spos = 0; s->ncall = 0; s->pend = 0; ev_begin("xnew", o); evp(",\"thr\":%d,\"ok\":%d,\"flt\":%ld,\"leak\":%ld,\"size\":%ld", A(2), s->d != NULL, rt_faults - f0, s->d ? 0 : (long)(rt_live - l0), (long)(rt_live - l0)); ev_mem(); ev_end(); if (!s->d && !rt_fail_at) return 0; }
    else if (IS("xfree")) { FL2_freeDStream(S[o].d); S[o].d = NULL; if (S[o].pend) { xfree(S[o].ib); xfree(S[o].ob); S[o].pend = 0; } ev_begin("xfree", o); ev_mem(); evp(",\"thr\":%ld", rt_threads_live); ev_end(); }
    else if (IS("xinit")) { DSt *s = &S[o]; int prop = ac > 2 ? A(2) : -1; CALL(); size_t r = prop >= 0 ? FL2_initDStream_withProp(s->d, (unsigned char)prop) : FL2_initDStream(s->d);
        int st = 0; if (!FL2_isError(r)) { s->out.n = 0; st = 1; if (s->pend) { xfree(s->ib); xfree(s->ob); s->pend = 0; } } ev_begin("xinit", o); evp(",\"prop\":%d,\"reset\":%d", prop, st); ev_res(r); ev_mem(); ev_end(); }
    else if (IS("xsrc")) { if (S[o].d) for (int k = 0; S[o].pend && k < 100000; ++k) do_dwait(o, NULL, NULL); S[o].src = A(2); S[o].spos = ac > 3 ? A(3) : 0; Buf *raw = rawOf[A(2)] >= 0 ? &B[rawOf[A(2)]] : NULL; ev_begin("xsrc", o); evp(",\"b\":%d,\"at\":%ld,\"size\":%ld,\"rawn\":%ld,\"noprop\":%d,\"hash\":%d", A(2), (long)S[o].spos, (long)B[A(2)].n, raw ? (long)raw->n : -1L, noProp[A(2)], noProp[A(2)] ? 0 : B[A(2)].n ? B[A(2)].p[0] >> 7 : 0); ev_end(); }
    else if (IS("xtimeout")) { CALL(); size_t r = FL2_setDStreamTimeout(S[o].d, A(2)); ev_begin("xtimeout", o); evp(",\"ms\":%d", A(2)); ev_res(r); ev_end(); }
    else if (IS("chunks")) { /* chunks b: kind, header, packed and unpacked size of each chunk */
        Buf *b = &B[o]; size_t p = noProp[o] ? 0 : 1; char t[8000]; int m = 0; t[0] = 0;
        while (p < b->n && b->p[p] != 0 && p + (b->p[p] >= 128 ? 6 : 3) <= b->n && m < 7900) {
            const uint8_t *q = b->p + p; int lz = q[0] >= 128, h = lz ? 5 + (q[0] >= 0xC0) : 3;
            size_t u = (lz ? (size_t)(q[0] & 31) << 16 : 0) + q[1] * 256 + q[2] + 1, k = lz ? q[3] * 256u + q[4] + 1 : u;
            m += snprintf(t + m, sizeof t - m, "%s[%d,%d,%ld,%ld]", m ? "," : "", q[0], h, (long)k, (long)u); p += h + k;
        }
        ev_begin("chunks", o); evp(",\"prop\":%d,\"size\":%ld,\"ch\":[%s]", noProp[o] || !b->n ? -1 : b->p[0], (long)b->n, t); ev_end(); }
    else if (IS("xlimit")) { FL2_setDStreamMemoryLimitMt(S[o].d, (size_t)num(av[2])); ev_begin("xlimit", o); evp(",\"lim\":%ld", num(av[2])); ev_end(); }
    else if (IS("dec")) { do_dec(o, A(2), A(3), NULL, NULL); }
    else if (IS("decall")) { /* decall o in-per-call out-per-call [stop after total in] ; waits after a time-out */
        size_t ni = A(2); long cap = A(3); long total = ac > 4 ? A(4) : 0x7fffffff; int it = 0, idle = 0; long din, dout;
        for (;;) {
            size_t n = ni; if ((long)n > total) n = total > 0 ? total : 0;
            size_t r = do_dec(o, n, cap, &din, &dout);
            while (S[o].pend && ++it < 100000) r = do_dwait(o, &din, &dout);
            total -= din;
            if (FL2_isError(r) || r == 0) break;
            idle = (din == 0 && dout == 0) ? idle + 1 : 0;
            if (idle > 6 || ++it > 100000) break;
            if (total <= 0 && idle) break;
        }
    }
    else if (IS("dwait")) do_dwait(o, NULL, NULL);
    else if (IS("xcancel")) { DSt *s = &S[o]; CALL(); FL2_cancelDStream(s->d); int was = s->pend; if (s->pend) { xfree(s->ib); xfree(s->ob); s->pend = 0; } ev_begin("xcancel", o); evp(",\"was\":%d", was); ev_mem(); ev_end(); }
    else if (IS("mark")) { ev_begin("mark", 0); evp(",\"on\":%d", A(1)); ev_end(); }
    else if (IS("dcheck")) { DSt *s = &S[o]; ev_begin("dcheck", o); evp(",\"digest\":%ld", (long)(ref_xxh32(s->out.p, s->out.n) & 0x3fffffff)); ev_dq(s); ev_end(); }
    else if (IS("xmem")) { ev_begin("xmem", o); ev_mem(); ev_end(); }
    /* ---- thread pool ---- */
    else if (IS("pnew")) { size_t l0 = rt_live; CALL(); P[o].p = FL2POOL_create(A(2)); P[o].work = A(3);
        pev("{\"e\":\"pnew\",\"o\":%d,\"thr\":%d,\"ok\":%d,\"flt\":%ld,\"leak\":%ld}\n", o, A(2), P[o].p != NULL, rt_faults - f0, P[o].p ? 0 : (long)(rt_live - l0)); }
    else if (IS("pyield")) { for (int i = 0; i < o; ++i) rt_yield((unsigned)i); }
    else if (av[0][0] == 'p' && (o > 3 || !P[o].p)) return 0;
    else if (IS("padd")) padd(o, A(2), A(3), A(3) + 1, 1);
    else if (IS("prange")) padd(o, A(2), A(3), A(4), 0);
    else if (IS("pwait")) pwait(o, A(2));
    else if (IS("pwaitall")) { int k = 0; while (pwait(o, A(2)) && ++k < 5000) {} }
    else if (IS("pbusy")) { long v = (long)FL2POOL_threadsBusy(P[o].p); pev("{\"e\":\"pbusy\",\"o\":%d,\"v\":%ld}\n", o, v); }
    else if (IS("pfree")) { FL2POOL_free(P[o].p); P[o].p = NULL; pev("{\"e\":\"pfree\",\"o\":%d}\n", o); }
    else { fprintf(stderr, "unknown op %s\n", av[0]); fflush(stderr); _exit(3); }
    return 0;
}

static int exec_line(char *line);
static void run(const char *f, ...) { char t[256]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); exec_line(t); }
/* sweep b threads xorbyte: every truncation and every changed byte (each bit, and one more pattern) of a short buffer through the decoders */
static void do_sweep(int b, int thr, int x)
{
    size_t n = B[b].n;
    run("dnew 6 1"); run("dnew 7 %d", thr); run("xnew 6 1"); run("xnew 7 %d", thr);
    for (size_t i = 0; i < n; ++i) for (int k = -1; k < 9; ++k) {
        if (k < 0) run("mut 50 %d trunc:%zu", b, i);
        else if (k < 8) run("mut 50 %d flip:%zu:%d", b, i, 1 << k);
        else { if (!(x & 255)) continue; run("mut 50 %d flip:%zu:%d", b, i, x & 255); }
        run("refdec 50 0"); run("usize 50");
        run("ddec 6 50 need"); run("ddec 7 50 need");
        for (int o = 6; o < 8; ++o) { run("xsrc %d 50", o); run("xinit %d", o); run("decall %d %d 1000", o, (int)(i * 7 + k) % 3 ? 1 << 20 : 3); }
    }
    run("dfree 6"); run("dfree 7"); run("xfree 6"); run("xfree 7");
}
static void on_deadlock(const char *why) { tf = maintf; ev_begin("deadlock", 0); ev_str("why", why); ev_end(); fflush(tf); _exit(0); }

static void run_lines(char *text)
{
    char *save = NULL; int stop = 0;
    for (int i = 0; i < NB; ++i) rawOf[i] = -1;
    for (char *l = strtok_r(text, "\n", &save); l && !stop; l = strtok_r(NULL, "\n", &save)) stop = exec_line(l);
}
static void free_all(void)
{
    for (int i = 0; i < NO; ++i) {
        if (C[i].c) { FL2_freeCCtx(C[i].c); C[i].c = NULL; }
        if (D[i].d) { FL2_freeDCtx(D[i].d); D[i].d = NULL; }
        if (S[i].d) { FL2_freeDStream(S[i].d); S[i].d = NULL; }
    }
}
static void ev_final(void)
{
    ev_begin("final", 0);
    ev_mem(); evp(",\"thr\":%ld,\"badfree\":%d,\"faults\":%ld,\"steps\":%ld,\"allocs\":%ld", rt_threads_live, rt_bad_free(), rt_faults, lim(rt_sched_steps()), rt_allocs); ev_end();
}
/* several calling threads, each with objects of its own: the script has one part for each, begun by "thread".
   Every caller's history is recorded on its own, as if it had been alone. */
typedef struct { char *text, *trace; size_t n; pthread_t t; } Caller;
static void *caller(void *x)
{
    Caller *k = x;
    tf = open_memstream(&k->trace, &k->n);
    run_lines(k->text);
    free_all();
    fclose(tf);
    return NULL;
}
static void callers(char *text, const char *id)
{
    Caller k[8]; int n = 0;
    for (char *q = text; n < 8 && !strncmp(q, "thread\n", 7); ) {
        char *e = strstr(q + 6, "\nthread\n");
        k[n++].text = q + 7;
        if (!e) break;
        *e = 0; q = e + 1;
    }
    par = 1;
    for (int i = 0; i < n; ++i) if (vh_pcreate(&k[i].t, NULL, caller, &k[i])) _exit(3);
    for (int i = 0; i < n; ++i) vh_pjoin(k[i].t, NULL);
    par = 0;
    for (int i = 0; i < n; ++i) {
        if (i) fprintf(tf, "{\"e\":\"scenario\",\"o\":0,\"id\":\"%s.%d\",\"cont\":1}\n", id, i);
        fwrite(k[i].trace, 1, k[i].n, tf);
        ev_final();
    }
}

static void child(char *text, char *hdr, const char *id)
{
    maintf = tf;
    char *sc = strstr(hdr, " sched ");
    rt_deadlock_cb = on_deadlock;
    { static const unsigned char fills[] = { 0xA5, 0, 0xFF, 0x01, 0x7F, 0x80, 0x10 }; const char *m = strchr(id, '#'); rt_fill = fills[m ? atoi(m + 1) % 7 : 0]; }
    if (rt_ctl()) {
        long pt[32]; int np = 0; int mode = 1; unsigned long sd = 1; long hz = 0;
        if (sc) { char *q = sc + 7; mode = (int)strtol(q, &q, 0); sd = strtoul(q, &q, 0); hz = strtol(q, &q, 0); while (np < 32) { char *z; long v = strtol(q, &z, 0); if (z == q) break; pt[np++] = v; q = z; } }
        rt_sched_init(sd, mode, pt, np, hz);
    }
    if (strstr(text, "\nthread\n") || !strncmp(text, "thread\n", 7)) callers(text, id);
    else {
        run_lines(text);
        /* free whatever is left: nothing may leak, no thread may survive */
        for (int i = 0; i < 4; ++i) if (P[i].p) { FL2POOL_free(P[i].p); P[i].p = NULL; pev("{\"e\":\"pfree\",\"o\":%d}\n", i); }
        free_all();
        ev_final();
    }
    rt_sched_end();
    fflush(tf);
    _exit(0);
}

int main(int argc, char **argv)
{
    if (argc < 3) return 3;
    int tmo = argc > 3 ? atoi(argv[3]) : 60;
    int crashes = 0, hangs = 0;
    FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 3; }
    char *line = NULL; size_t lc = 0; char hdr[1024] = ""; char *text = NULL; size_t tn = 0, tc = 0; long count = 0;
    int fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (fd < 0) { perror(argv[2]); return 3; }
    while (getline(&line, &lc, f) > 0) {
        if (!strncmp(line, "scenario ", 9)) { snprintf(hdr, sizeof hdr, "%s", line); tn = 0; continue; }
        if (strncmp(line, "end\n", 4) && strcmp(line, "end")) {
            size_t l = strlen(line); if (tn + l + 1 > tc) { tc = (tn + l) * 2 + 256; text = realloc(text, tc); }
            memcpy(text + tn, line, l + 1); tn += l; continue;
        }
        if (!hdr[0]) continue;
        char id[256]; sscanf(hdr, "scenario %255s", id);
        const char *hs = strchr(id, '#'); int cont = hs && strcmp(hs, "#0") != 0;   /* id#k, k>0: continues the group begun by id#0 */
        dprintf(fd, "{\"e\":\"scenario\",\"o\":0,\"id\":\"%s\",\"cont\":%d}\n", id, cont);
        fflush(NULL);
        pid_t p = fork();
        if (p == 0) {
            tf = fdopen(dup(fd), "a");
            signal(SIGALRM, SIG_DFL); alarm(tmo);
            if (!text) text = strdup("");
            text[tn] = 0;
            child(text, hdr, id);
        }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) dprintf(fd, "{\"e\":\"%s\",\"o\":0,\"sig\":%d}\n", WTERMSIG(st) == SIGALRM ? "hang" : "crash", WTERMSIG(st));
        else if (WEXITSTATUS(st) == 3) { fprintf(stderr, "script error in %s\n", id); return 3; }
        else if (WEXITSTATUS(st) != 0) dprintf(fd, "{\"e\":\"crash\",\"o\":0,\"sig\":%d}\n", 1000 + WEXITSTATUS(st));
        ++count; hdr[0] = 0;
        if (WIFSIGNALED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs; else ++crashes; }
        if (crashes >= 30 || hangs >= 2) break;                   /* enough: the rest is not run */
    }
    close(fd);
    printf("%ld\n", count);
    return 0;
}
