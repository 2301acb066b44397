#include "refdec.h"
#include <stdlib.h>
#include <string.h>

/* ------------------------------------------------------------ model */
typedef uint16_t P;
#define PINIT 1024
typedef struct {
    P isMatch[12][16], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][16];
    P posSlot[4][64], posSpec[128], align[16];
    struct { P choice, choice2, low[16][8], mid[16][8], high[256]; } len, rep;
    P lit[16 * 0x300];
} Model;

typedef struct {
    Model m;
    unsigned lc, lp, pb;
    unsigned state;
    uint32_t rep[4];
} LzState;

static void model_reset(LzState *s)
{
    P *p = (P *)&s->m;
    for (size_t i = 0; i < sizeof(Model) / sizeof(P); ++i) p[i] = PINIT;
    s->state = 0;
    s->rep[0] = s->rep[1] = s->rep[2] = s->rep[3] = 0;
}

uint64_t ref_dict_from_prop(unsigned p)
{
    if (p > 40) return 0;
    if (p == 40) return 0xFFFFFFFFu;
    return (uint64_t)(2 | (p & 1)) << (p / 2 + 11);
}

/* ------------------------------------------------------------ decoder */
typedef struct {
    const uint8_t *p, *end;
    uint32_t range, code;
    int over;
} RD;

static void rd_norm(RD *r)
{
    if (r->range < (1u << 24)) {
        r->range <<= 8;
        uint8_t b = 0;
        if (r->p < r->end) b = *r->p++; else r->over = 1;
        r->code = (r->code << 8) | b;
    }
}
static unsigned rd_bit(RD *r, P *p)
{
    rd_norm(r);
    uint32_t bound = (r->range >> 11) * *p;
    if (r->code < bound) { r->range = bound; *p += (2048 - *p) >> 5; return 0; }
    r->range -= bound; r->code -= bound; *p -= *p >> 5; return 1;
}
static unsigned rd_direct(RD *r, unsigned n)
{
    unsigned v = 0;
    while (n--) {
        rd_norm(r);
        r->range >>= 1;
        unsigned b = r->code >= r->range;
        if (b) r->code -= r->range;
        v = (v << 1) | b;
    }
    return v;
}
static unsigned rd_tree(RD *r, P *p, unsigned bits)
{
    unsigned m = 1;
    for (unsigned i = 0; i < bits; ++i) m = (m << 1) | rd_bit(r, p + m);
    return m - (1u << bits);
}
static unsigned rd_rtree(RD *r, P *p, unsigned bits)
{
    unsigned m = 1, v = 0;
    for (unsigned i = 0; i < bits; ++i) { unsigned b = rd_bit(r, p + m); m = (m << 1) | b; v |= b << i; }
    return v;
}

typedef struct {
    uint8_t *out; size_t cap, len;   /* everything produced so far */
    size_t dstart;                   /* position of the last dictionary reset */
} Win;

/* decode one LZMA chunk; returns NULL or reason */
static const char *lz_chunk(LzState *s, Win *w, const uint8_t *in, size_t plen, size_t ulen, uint64_t dict, uint32_t *maxdist)
{
    RD r = { in, in + plen, 0xFFFFFFFFu, 0, 0 };
    if (plen < 5) return "pack size below 5";
    if (in[0] != 0) return "rc first byte";
    for (int i = 1; i < 5; ++i) r.code = (r.code << 8) | in[i];
    r.p = in + 5;
    size_t end = w->len + ulen;
    if (end > w->cap) return "output capacity";
    while (w->len < end) {
        size_t pos = w->len - w->dstart;           /* position since dictionary reset */
        unsigned ps = (unsigned)pos & ((1u << s->pb) - 1);
        if (r.over) return "input exhausted";
        if (!rd_bit(&r, &s->m.isMatch[s->state][ps])) {
            unsigned prev = pos ? w->out[w->len - 1] : 0;
            P *lit = s->m.lit + 0x300 * (((pos & ((1u << s->lp) - 1)) << s->lc) + (prev >> (8 - s->lc)));
            unsigned sym = 1;
            if (s->state >= 7) {
                if ((size_t)s->rep[0] + 1 > pos) return "literal match byte outside dictionary";
                unsigned mb = w->out[w->len - s->rep[0] - 1];
                do {
                    unsigned mbit = (mb >> 7) & 1; mb <<= 1;
                    unsigned b = rd_bit(&r, lit + ((1 + mbit) << 8) + sym);
                    sym = (sym << 1) | b;
                    if (mbit != b) break;
                } while (sym < 0x100);
            }
            while (sym < 0x100) sym = (sym << 1) | rd_bit(&r, lit + sym);
            w->out[w->len++] = (uint8_t)sym;
            s->state = s->state < 4 ? 0 : s->state < 10 ? s->state - 3 : s->state - 6;
            continue;
        }
        size_t len;
        if (rd_bit(&r, &s->m.isRep[s->state])) {
            if (pos == 0) return "rep match on empty dictionary";
            if (!rd_bit(&r, &s->m.isRepG0[s->state])) {
                if (!rd_bit(&r, &s->m.isRep0Long[s->state][ps])) {
                    s->state = s->state < 7 ? 9 : 11;
                    if ((uint64_t)s->rep[0] + 1 > pos || (uint64_t)s->rep[0] + 1 > dict) return "short rep distance";
                    if (s->rep[0] + 1 > *maxdist) *maxdist = s->rep[0] + 1;
                    w->out[w->len] = w->out[w->len - s->rep[0] - 1]; w->len++;
                    continue;
                }
            } else {
                uint32_t d;
                if (!rd_bit(&r, &s->m.isRepG1[s->state])) d = s->rep[1];
                else {
                    if (!rd_bit(&r, &s->m.isRepG2[s->state])) d = s->rep[2];
                    else { d = s->rep[3]; s->rep[3] = s->rep[2]; }
                    s->rep[2] = s->rep[1];
                }
                s->rep[1] = s->rep[0]; s->rep[0] = d;
            }
            if (!rd_bit(&r, &s->m.rep.choice)) len = 2 + rd_tree(&r, s->m.rep.low[ps], 3);
            else if (!rd_bit(&r, &s->m.rep.choice2)) len = 10 + rd_tree(&r, s->m.rep.mid[ps], 3);
            else len = 18 + rd_tree(&r, s->m.rep.high, 8);
            s->state = s->state < 7 ? 8 : 11;
        } else {
            s->rep[3] = s->rep[2]; s->rep[2] = s->rep[1]; s->rep[1] = s->rep[0];
            if (!rd_bit(&r, &s->m.len.choice)) len = 2 + rd_tree(&r, s->m.len.low[ps], 3);
            else if (!rd_bit(&r, &s->m.len.choice2)) len = 10 + rd_tree(&r, s->m.len.mid[ps], 3);
            else len = 18 + rd_tree(&r, s->m.len.high, 8);
            s->state = s->state < 7 ? 7 : 10;
            unsigned slot = rd_tree(&r, s->m.posSlot[len < 6 ? len - 2 : 3], 6);
            uint32_t d = slot;
            if (slot >= 4) {
                unsigned nb = (slot >> 1) - 1;
                d = (2 | (slot & 1)) << nb;
                if (slot < 14) d += rd_rtree(&r, s->m.posSpec + d - slot, nb);
                else { d += rd_direct(&r, nb - 4) << 4; d += rd_rtree(&r, s->m.align, 4); }
            }
            s->rep[0] = d;
            if (d == 0xFFFFFFFFu) return "end marker inside chunk";
        }
        if ((uint64_t)s->rep[0] + 1 > pos) return "distance before dictionary reset";
        if ((uint64_t)s->rep[0] + 1 > dict) return "distance beyond dictionary size";
        if (s->rep[0] + 1 > *maxdist) *maxdist = s->rep[0] + 1;
        if (len > end - w->len) return "match crosses chunk end";
        while (len--) { w->out[w->len] = w->out[w->len - s->rep[0] - 1]; w->len++; }
    }
    rd_norm(&r);
    if (r.over) return "input exhausted";
    if (r.p != r.end) return "packed bytes left over";
    if (r.code != 0) return "range coder not finished";
    return NULL;
}

static void add_chunk(RefInfo *i, RefChunk c)
{
    if (i->nchunks == i->chunk_cap) {
        i->chunk_cap = i->chunk_cap ? i->chunk_cap * 2 : 16;
        i->chunks = realloc(i->chunks, i->chunk_cap * sizeof(RefChunk));
    }
    i->chunks[i->nchunks++] = c;
}

int ref_decode(const uint8_t *in, size_t n, unsigned prop, uint8_t *out, size_t cap, RefInfo *info)
{
    memset(info, 0, sizeof *info);
    info->status = REF_TRUNC; info->why = "";
    info->dict = ref_dict_from_prop(prop);
    if (prop > 40) { info->status = REF_BAD; info->why = "dictionary property"; return REF_BAD; }
    uint64_t dict = info->dict < 4096 ? 4096 : info->dict;
    LzState *s = malloc(sizeof *s);
    memset(s, 0, sizeof *s); model_reset(s);
    Win w = { out, cap, 0, 0 };
    int needDict = 1, needProps = 1, needState = 1;
    size_t pos = 0, lastReset = 0;
    const char *bad = NULL;
    for (;;) {
        if (pos >= n) break;
        uint8_t c = in[pos];
        if (c == 0) { info->status = REF_OK; pos++; info->in_used = pos; break; }
        if (c > 2 && c < 0x80) { bad = "control byte"; break; }
        RefChunk ck; memset(&ck, 0, sizeof ck);
        ck.control = c; ck.ipos = pos; ck.upos = w.len;
        if (c == 1 || c >= 0xE0) {
            if (w.len - lastReset > info->max_gap) info->max_gap = w.len - lastReset;
            if (info->nresets && (info->min_gap == 0 || w.len - lastReset < info->min_gap)) info->min_gap = w.len - lastReset;
            needDict = 0; needProps = 1; w.dstart = w.len; info->nresets++; lastReset = w.len;
            needState = 1;
        } else if (needDict) { bad = "first chunk without dictionary reset"; break; }
        if (c < 0x80) {
            if (n - pos < 3) break;
            size_t ul = ((size_t)in[pos + 1] << 8 | in[pos + 2]) + 1;
            if (n - pos - 3 < ul) { info->partial_len = w.len + (n - pos - 3); break; }
            if (w.len + ul > cap) { bad = "output capacity"; break; }
            memcpy(out + w.len, in + pos + 3, ul);
            w.len += ul; ck.ulen = ul; ck.plen = ul; pos += 3 + ul;
        } else {
            unsigned mode = (c >> 5) & 3;
            size_t hdr = mode >= 2 ? 6 : 5;
            if (mode >= 2) { needProps = 0; needState = 0; }
            else if (needProps) { bad = "LZMA chunk without properties"; break; }
            else if (mode == 1) needState = 0;
            else if (needState) { bad = "LZMA chunk without state reset"; break; }
            if (n - pos < hdr) break;
            size_t ul = ((size_t)(c & 31) << 16 | (size_t)in[pos + 1] << 8 | in[pos + 2]) + 1;
            size_t pl = ((size_t)in[pos + 3] << 8 | in[pos + 4]) + 1;
            if (mode >= 2) {
                unsigned b = in[pos + 5];
                if (b >= 225) { bad = "props byte"; break; }
                s->lc = b % 9; b /= 9; s->lp = b % 5; s->pb = b / 5;
                if (s->lc + s->lp > 4) { bad = "lc+lp"; break; }
                ck.props = in[pos + 5];
            }
            if (mode >= 1) model_reset(s);
            if (n - pos - hdr < pl) break;
            bad = lz_chunk(s, &w, in + pos + hdr, pl, ul, dict, &ck.maxdist);
            if (bad) break;
            ck.ulen = ul; ck.plen = pl; pos += hdr + pl;
        }
        add_chunk(info, ck);
        if (ck.maxdist > info->maxdist) info->maxdist = ck.maxdist;
        info->in_used = pos;
        info->out_len = w.len;
    }
    if (info->out_len - lastReset > info->max_gap) info->max_gap = info->out_len - lastReset;
    if (bad) { info->status = REF_BAD; info->why = bad; }
    free(s);
    return info->status;
}

void ref_free(RefInfo *i) { free(i->chunks); i->chunks = NULL; }

/* ------------------------------------------------------------ xxh32 (seed 0) */
static uint32_t rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t rd32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
uint32_t ref_xxh32(const uint8_t *p, size_t n)
{
    const uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    const uint8_t *e = p + n;
    uint32_t h;
    if (n >= 16) {
        uint32_t v[4] = { P1 + P2, P2, 0, 0u - P1 };
        do { for (int i = 0; i < 4; ++i, p += 4) v[i] = rotl(v[i] + rd32(p) * P2, 13) * P1; } while (e - p >= 16);
        h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
    } else h = P5;
    h += (uint32_t)n;
    for (; e - p >= 4; p += 4) h = rotl(h + rd32(p) * P3, 17) * P4;
    for (; p < e; ++p) h = rotl(h + *p * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
    return h;
}

/* ------------------------------------------------------------ chunk builder */
struct RefEnc {
    uint8_t *buf; size_t len, cap;
    uint8_t *raw; size_t rawlen, rawcap;
    LzState s;
    size_t dstart, dsz;
    uint32_t rng;
    /* range encoder */
    uint64_t low; uint32_t range; uint8_t cache; uint64_t cacheSize;
};
static uint32_t rnd(RefEnc *e) { e->rng = e->rng * 1664525u + 1013904223u; return e->rng >> 8; }
static void put(RefEnc *e, uint8_t b)
{
    if (e->len == e->cap) { e->cap = e->cap ? e->cap * 2 : 4096; e->buf = realloc(e->buf, e->cap); }
    e->buf[e->len++] = b;
}
static void putraw(RefEnc *e, uint8_t b)
{
    if (e->rawlen == e->rawcap) { e->rawcap = e->rawcap ? e->rawcap * 2 : 4096; e->raw = realloc(e->raw, e->rawcap); }
    e->raw[e->rawlen++] = b;
}
RefEnc *renc_new(uint32_t seed)
{
    RefEnc *e = calloc(1, sizeof *e);
    e->rng = seed; e->s.lc = 3; e->s.lp = 0; e->s.pb = 2;
    model_reset(&e->s);
    return e;
}
void renc_free(RefEnc *e) { if (e) { free(e->buf); free(e->raw); free(e); } }
void renc_setdict(RefEnc *e, uint64_t d) { e->dsz = (size_t)d; }
void renc_setprops(RefEnc *e, unsigned lc, unsigned lp, unsigned pb) { e->s.lc = lc; e->s.lp = lp; e->s.pb = pb; }
void renc_get(RefEnc *e, const uint8_t **b, size_t *l, const uint8_t **r, size_t *rl) { *b = e->buf; *l = e->len; *r = e->raw; *rl = e->rawlen; }

static void rc_shift(RefEnc *e)
{
    if ((uint32_t)e->low < 0xFF000000u || (e->low >> 32)) {
        uint8_t c = e->cache;
        do { put(e, (uint8_t)(c + (uint8_t)(e->low >> 32))); c = 0xFF; } while (--e->cacheSize);
        e->cache = (uint8_t)((uint32_t)e->low >> 24);
    }
    e->cacheSize++;
    e->low = (uint32_t)e->low << 8;
}
static void rc_bit(RefEnc *e, P *p, unsigned b)
{
    uint32_t bound = (e->range >> 11) * *p;
    if (!b) { e->range = bound; *p += (2048 - *p) >> 5; }
    else { e->low += bound; e->range -= bound; *p -= *p >> 5; }
    while (e->range < (1u << 24)) { e->range <<= 8; rc_shift(e); }
}
static void rc_direct(RefEnc *e, unsigned v, unsigned n)
{
    while (n--) {
        e->range >>= 1;
        if ((v >> n) & 1) e->low += e->range;
        while (e->range < (1u << 24)) { e->range <<= 8; rc_shift(e); }
    }
}
static void rc_tree(RefEnc *e, P *p, unsigned bits, unsigned v)
{
    unsigned m = 1;
    while (bits--) { unsigned b = (v >> bits) & 1; rc_bit(e, p + m, b); m = (m << 1) | b; }
}
static void rc_rtree(RefEnc *e, P *p, unsigned bits, unsigned v)
{
    unsigned m = 1;
    for (unsigned i = 0; i < bits; ++i) { unsigned b = (v >> i) & 1; rc_bit(e, p + m, b); m = (m << 1) | b; }
}
#define ENC_LEN(L, len) do { unsigned l_ = (unsigned)(len) - 2; \
    if (l_ < 8) { rc_bit(e, &(L).choice, 0); rc_tree(e, (L).low[ps], 3, l_); } \
    else if (l_ < 16) { rc_bit(e, &(L).choice, 1); rc_bit(e, &(L).choice2, 0); rc_tree(e, (L).mid[ps], 3, l_ - 8); } \
    else { rc_bit(e, &(L).choice, 1); rc_bit(e, &(L).choice2, 1); rc_tree(e, (L).high, 8, l_ - 16); } } while (0)

static void enc_dist(RefEnc *e, size_t len, uint32_t d)
{
    LzState *s = &e->s;
    unsigned slot;
    if (d < 4) slot = d;
    else { unsigned n = 31 - __builtin_clz(d); slot = 2 * n + ((d >> (n - 1)) & 1); }
    rc_tree(e, s->m.posSlot[len < 6 ? len - 2 : 3], 6, slot);
    if (slot >= 4) {
        unsigned nb = (slot >> 1) - 1; uint32_t base = (2 | (slot & 1)) << nb;
        if (slot < 14) rc_rtree(e, s->m.posSpec + base - slot, nb, d - base);
        else { rc_direct(e, (d - base) >> 4, nb - 4); rc_rtree(e, s->m.align, 4, d & 15); }
    }
}
static void copy_raw(RefEnc *e, uint32_t d, size_t len) { while (len--) putraw(e, e->raw[e->rawlen - d - 1]); }

static void enc_match(RefEnc *e, unsigned ps, size_t len, uint32_t d, int bad)
{
    LzState *s = &e->s;
    rc_bit(e, &s->m.isMatch[s->state][ps], 1);
    rc_bit(e, &s->m.isRep[s->state], 0);
    ENC_LEN(s->m.len, len);
    enc_dist(e, len, d);
    s->state = s->state < 7 ? 7 : 10;
    s->rep[3] = s->rep[2]; s->rep[2] = s->rep[1]; s->rep[1] = s->rep[0]; s->rep[0] = d;
    if (!bad) copy_raw(e, d, len);
}

void renc_chunk(RefEnc *e, int kind, size_t ulen, int flags)
{
    LzState *s = &e->s;
    if (kind == 0) { put(e, 0); return; }
    if (kind < 0x80) {
        put(e, (uint8_t)kind);
        put(e, (uint8_t)((ulen - 1) >> 8)); put(e, (uint8_t)(ulen - 1));
        if (kind == 1) e->dstart = e->rawlen;
        for (size_t i = 0; i < ulen; ++i) {
            uint8_t b = (uint8_t)(rnd(e) % 7 ? 'a' + rnd(e) % 6 : rnd(e));
            put(e, b); putraw(e, b);
        }
        return;
    }
    unsigned mode = (kind >> 5) & 3;
    if (mode == 3) e->dstart = e->rawlen;
    if (mode >= 1) model_reset(s);
    size_t hdr = e->len;
    put(e, 0); put(e, 0); put(e, 0); put(e, 0); put(e, 0);
    if (mode >= 2) {
        unsigned pr = (s->pb * 5 + s->lp) * 9 + s->lc;
        if (flags & RF_BADPROPS) pr = 225 + rnd(e) % 31;
        if (flags & RF_LCLP) pr = (s->pb * 5 + 2) * 9 + 3 + rnd(e) % 6;
        put(e, (uint8_t)pr);
    }
    size_t body = e->len;
    e->low = 0; e->range = 0xFFFFFFFFu; e->cache = 0; e->cacheSize = 1;
    size_t end = e->rawlen + ulen;
    size_t fire = e->rawlen + (rnd(e) & 3 ? rnd(e) % ulen : rnd(e) % 2);   /* where the impossible distance goes */
    size_t const dsz = e->dsz;
    while (e->rawlen < end) {
        size_t pos = e->rawlen - e->dstart, left = end - e->rawlen;
        unsigned ps = (unsigned)pos & ((1u << s->pb) - 1);
        unsigned r = rnd(e) % 16;
        int last_special = (flags & (RF_EOPM | RF_OVERRUN)) && left <= 3 && left >= 2;
        if ((flags & RF_FARDIST) && left >= 2 && (e->rawlen >= fire || left <= 3)) {
            flags &= ~RF_FARDIST;
            if (pos == 0 && (rnd(e) & 1)) {                              /* a repeat before there is anything */
                rc_bit(e, &s->m.isMatch[s->state][ps], 1); rc_bit(e, &s->m.isRep[s->state], 1);
                rc_bit(e, &s->m.isRepG0[s->state], 0); rc_bit(e, &s->m.isRep0Long[s->state][ps], 0);
                s->state = s->state < 7 ? 9 : 11;
                putraw(e, 0);
                continue;
            }
            uint32_t const lim = (uint32_t)(dsz && pos > dsz ? dsz : pos);
            unsigned const w = rnd(e) % 8;
            uint32_t const d = w < 4 ? lim : w == 4 ? lim + 1 : w == 5 ? lim + rnd(e) % 70000 : w == 6 ? (uint32_t)pos : 0x80000000u - rnd(e) % 2;
            size_t const ln = w & 1 ? 2 : 2 + rnd(e) % (left < 20 ? left - 1 : 19);
            enc_match(e, ps, ln, d, 1);
            for (size_t i = 0; i < ln; ++i) putraw(e, 0);
            continue;
        }
        if (last_special && (flags & RF_EOPM)) { enc_match(e, ps, 2, 0xFFFFFFFFu, 1); while (e->rawlen < end) putraw(e, 0); break; }
        if (last_special && (flags & RF_OVERRUN) && pos > 0) { enc_match(e, ps, left + 1 + rnd(e) % 5, 0, 1); while (e->rawlen < end) putraw(e, e->raw[e->rawlen - 1]); break; }
        if (r < 6 && pos > 0 && left >= 2) {                           /* normal match */
            size_t len = 2 + rnd(e) % (left < 273 ? (left - 1) : 272);
            if (rnd(e) % 3) len = 2 + rnd(e) % (left < 9 ? left - 1 : 8);
            size_t const lim = dsz && pos > dsz ? dsz : pos;
            uint32_t d = (uint32_t)(rnd(e) & 1 ? rnd(e) % (pos < 8 ? pos : 8) : rnd(e) % 5 ? rnd(e) % lim : lim - 1);
            enc_match(e, ps, len, d, 0);
        } else if (r < 10 && pos > 0) {                                 /* rep matches */
            unsigned k = rnd(e) % 4;
            if ((size_t)s->rep[k] + 1 > pos) k = 0;
            if ((size_t)s->rep[k] + 1 > pos) goto literal;
            if (k == 0 && (left < 2 || (rnd(e) & 1))) {                  /* short rep */
                rc_bit(e, &s->m.isMatch[s->state][ps], 1); rc_bit(e, &s->m.isRep[s->state], 1);
                rc_bit(e, &s->m.isRepG0[s->state], 0); rc_bit(e, &s->m.isRep0Long[s->state][ps], 0);
                s->state = s->state < 7 ? 9 : 11;
                copy_raw(e, s->rep[0], 1);
                continue;
            }
            if (left < 2) goto literal;
            size_t len = 2 + rnd(e) % (left < 20 ? left - 1 : 19);
            rc_bit(e, &s->m.isMatch[s->state][ps], 1); rc_bit(e, &s->m.isRep[s->state], 1);
            if (k == 0) { rc_bit(e, &s->m.isRepG0[s->state], 0); rc_bit(e, &s->m.isRep0Long[s->state][ps], 1); }
            else {
                uint32_t d = s->rep[k];
                rc_bit(e, &s->m.isRepG0[s->state], 1);
                rc_bit(e, &s->m.isRepG1[s->state], k > 1);
                if (k > 1) rc_bit(e, &s->m.isRepG2[s->state], k > 2);
                if (k > 2) s->rep[3] = s->rep[2];
                if (k > 1) s->rep[2] = s->rep[1];
                s->rep[1] = s->rep[0]; s->rep[0] = d;
            }
            ENC_LEN(s->m.rep, len);
            s->state = s->state < 7 ? 8 : 11;
            copy_raw(e, s->rep[0], len);
        } else {
literal:;
            unsigned prev = pos ? e->raw[e->rawlen - 1] : 0;
            P *lit = s->m.lit + 0x300 * (((pos & ((1u << s->lp) - 1)) << s->lc) + (prev >> (8 - s->lc)));
            unsigned b = rnd(e) % 5 ? 'a' + rnd(e) % 6 : rnd(e) & 255, sym = 1;
            rc_bit(e, &s->m.isMatch[s->state][ps], 0);
            if (s->state >= 7) {
                unsigned mb = (size_t)s->rep[0] < e->rawlen ? e->raw[e->rawlen - s->rep[0] - 1] : 0, same = 1;   /* out of range only in illegal chunk sequences */
                for (int i = 7; i >= 0; --i) {
                    unsigned bit = (b >> i) & 1;
                    if (same) { unsigned mbit = (mb >> i) & 1; rc_bit(e, lit + ((1 + mbit) << 8) + sym, bit); same = mbit == bit; }
                    else rc_bit(e, lit + sym, bit);
                    sym = (sym << 1) | bit;
                }
            } else for (int i = 7; i >= 0; --i) { unsigned bit = (b >> i) & 1; rc_bit(e, lit + sym, bit); sym = (sym << 1) | bit; }
            s->state = s->state < 4 ? 0 : s->state < 10 ? s->state - 3 : s->state - 6;
            putraw(e, (uint8_t)b);
        }
    }
    for (int i = 0; i < 5; ++i) rc_shift(e);
    if (flags & RF_RC0) e->buf[body] = 1;
    if (flags & RF_EXCESS) { int n = 1 + rnd(e) % 4; while (n--) put(e, (uint8_t)(rnd(e) % 3 ? rnd(e) : 0)); }
    size_t plen = e->len - body;
    size_t pf = plen - 1 - ((flags & RF_SHORTPACK) ? 1 : 0);
    e->buf[hdr] = (uint8_t)(kind | ((ulen - 1) >> 16));
    e->buf[hdr + 1] = (uint8_t)((ulen - 1) >> 8); e->buf[hdr + 2] = (uint8_t)(ulen - 1);
    e->buf[hdr + 3] = (uint8_t)(pf >> 8); e->buf[hdr + 4] = (uint8_t)pf;
}
