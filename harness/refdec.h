/* Independent LZMA2 decoder and chunk encoder used as observation oracle.
 * Written from the LZMA/LZMA2 format description, shares no code with the library.
 * Cross-checked against the TLA+ decoder spec/Lzma.tla. */
#ifndef REFDEC_H
#define REFDEC_H
#include <stddef.h>
#include <stdint.h>

enum { REF_OK = 0, REF_TRUNC = 1, REF_BAD = 2 };

typedef struct { uint8_t control; uint8_t props; size_t upos, ulen, plen, ipos; uint32_t maxdist; uint8_t outState; } RefChunk;

typedef struct {
    int status;          /* REF_OK: end marker seen; REF_TRUNC: input ended before; REF_BAD */
    const char *why;
    size_t in_used;      /* bytes consumed, up to and including the last whole chunk / end marker */
    size_t out_len;      /* bytes produced by whole chunks */
    size_t partial_len;  /* plus bytes of a copy chunk cut short (info only) */
    uint64_t dict;       /* dictionary size announced */
    size_t maxdist;      /* largest match distance used */
    size_t min_gap;      /* smallest number of bytes between two dictionary resets; 0: fewer than two of them */
    size_t max_gap;      /* largest number of bytes between dictionary resets (or reset and end) */
    size_t nresets;
    size_t nchunks;
    RefChunk *chunks;
    size_t chunk_cap;
} RefInfo;

/* in: chunks only (no property byte). prop: dictionary property (0..40). */
int ref_decode(const uint8_t *in, size_t n, unsigned prop, uint8_t *out, size_t cap, RefInfo *info);
void ref_free(RefInfo *info);
uint64_t ref_dict_from_prop(unsigned prop);
uint32_t ref_xxh32(const uint8_t *p, size_t n);

/* ---- chunk builder: writes LZMA2 chunks of any legal or illegal type ---- */
typedef struct RefEnc RefEnc;
RefEnc *renc_new(uint32_t seed);
void renc_free(RefEnc *e);
/* kind: 0 EOS, 1 copy+dict reset, 2 copy, 0x80 LZMA no reset, 0xA0 state reset,
 * 0xC0 state reset+props, 0xE0 all reset. Any other value: written raw as control byte with a copy body.
 * ulen: uncompressed length wanted. flags: see below. */
#define RF_BADPROPS   1   /* props byte >= 225 */
#define RF_LCLP       2   /* lc+lp > 4 */
#define RF_EXCESS     4   /* extra packed bytes after the chunk's data, counted in its pack size */
#define RF_SHORTPACK  8   /* pack size field one less than real */
#define RF_FARDIST   16   /* one match (or repeat) beyond the start or the size of the dictionary, often by one */
#define RF_RC0       32   /* first range coder byte not zero */
#define RF_EOPM      64   /* LZMA end-of-payload marker inside the chunk */
#define RF_OVERRUN  128   /* last match longer than the uncompressed size field says */
void renc_chunk(RefEnc *e, int kind, size_t ulen, int flags);
void renc_setdict(RefEnc *e, uint64_t dict);   /* distances of legal matches stay below it */
void renc_setprops(RefEnc *e, unsigned lc, unsigned lp, unsigned pb);
void renc_get(RefEnc *e, const uint8_t **buf, size_t *len, const uint8_t **raw, size_t *rawlen);
#endif
