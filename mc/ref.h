/* Independent reference implementations of the documented formats and algorithms (no librsync code). */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

/* ---- MD4 (RFC 1320), straightforward ---- */
static inline uint32_t ref_rol(uint32_t x, int s) { return (x << s) | (x >> (32 - s)); }
static void ref_md4_block(uint32_t h[4], const uint8_t *p)
{
    static const uint8_t o2[16] = {0,4,8,12,1,5,9,13,2,6,10,14,3,7,11,15}, o3[16] = {0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15};
    static const uint8_t s1[4] = {3,7,11,19}, s2[4] = {3,5,9,13}, s3[4] = {3,9,11,15};
    uint32_t x[16], v[4]; int i;
    for (i = 0; i < 16; i++) x[i] = (uint32_t)p[4*i] | (uint32_t)p[4*i+1] << 8 | (uint32_t)p[4*i+2] << 16 | (uint32_t)p[4*i+3] << 24;
    memcpy(v, h, 16);
    for (i = 0; i < 48; i++) {
        uint32_t a = v[(48 - i) & 3], b = v[(49 - i) & 3], c = v[(50 - i) & 3], d = v[(51 - i) & 3];
        if (i < 16) a = ref_rol(a + ((b & c) | (~b & d)) + x[i], s1[i & 3]);
        else if (i < 32) a = ref_rol(a + ((b & c) | (b & d) | (c & d)) + x[o2[i - 16]] + 0x5a827999u, s2[i & 3]);
        else a = ref_rol(a + (b ^ c ^ d) + x[o3[i - 32]] + 0x6ed9eba1u, s3[i & 3]);
        v[(48 - i) & 3] = a;
    }
    for (i = 0; i < 4; i++) h[i] += v[i];
}
static void ref_md4(uint8_t out[16], const uint8_t *p, uint64_t n)
{
    uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u}; uint8_t t[128]; uint64_t m = n; int i;
    while (m >= 64) { ref_md4_block(h, p); p += 64; m -= 64; }
    memset(t, 0, sizeof t);
    if (m) memcpy(t, p, m);
    t[m] = 0x80;
    int k = m < 56 ? 64 : 128;
    for (i = 0; i < 8; i++) t[k - 8 + i] = (uint8_t)((n << 3) >> (8 * i));
    ref_md4_block(h, t); if (k == 128) ref_md4_block(h, t + 64);
    for (i = 0; i < 16; i++) out[i] = (uint8_t)(h[i / 4] >> (8 * (i & 3)));
}
/* ---- BLAKE2b-256 (RFC 7693) ---- */
static const uint64_t ref_b2iv[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const uint8_t ref_b2s[10][16] = {
 {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
 {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
 {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
 {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static inline uint64_t ref_ror(uint64_t x, int s) { return (x >> s) | (x << (64 - s)); }
static void ref_b2comp(uint64_t h[8], const uint8_t *b, uint64_t t, int last)
{
    uint64_t v[16], m[16]; int i, r;
    for (i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = ref_b2iv[i]; }
    v[12] ^= t; if (last) v[14] = ~v[14];
    for (i = 0; i < 16; i++) { m[i] = 0; for (r = 7; r >= 0; r--) m[i] = m[i] << 8 | b[8 * i + r]; }
    for (r = 0; r < 12; r++) {
        const uint8_t *s = ref_b2s[r % 10];
#define RG(a,b,c,d,x,y) do { v[a]+=v[b]+(x); v[d]=ref_ror(v[d]^v[a],32); v[c]+=v[d]; v[b]=ref_ror(v[b]^v[c],24); v[a]+=v[b]+(y); v[d]=ref_ror(v[d]^v[a],16); v[c]+=v[d]; v[b]=ref_ror(v[b]^v[c],63);} while(0)
        RG(0,4,8,12,m[s[0]],m[s[1]]); RG(1,5,9,13,m[s[2]],m[s[3]]); RG(2,6,10,14,m[s[4]],m[s[5]]); RG(3,7,11,15,m[s[6]],m[s[7]]);
        RG(0,5,10,15,m[s[8]],m[s[9]]); RG(1,6,11,12,m[s[10]],m[s[11]]); RG(2,7,8,13,m[s[12]],m[s[13]]); RG(3,4,9,14,m[s[14]],m[s[15]]);
    }
    for (i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
static void ref_blake2(uint8_t out[32], const uint8_t *p, uint64_t n)
{
    uint64_t h[8], t = 0; uint8_t b[128]; int i;
    memcpy(h, ref_b2iv, 64); h[0] ^= 0x01010000 ^ 32;
    while (n > 128) { t += 128; ref_b2comp(h, p, t, 0); p += 128; n -= 128; }
    memset(b, 0, 128); if (n) memcpy(b, p, n);
    ref_b2comp(h, b, t + n, 1);
    for (i = 0; i < 32; i++) out[i] = (uint8_t)(h[i / 8] >> (8 * (i & 7)));
}
/* ---- weak sums ---- */
static uint32_t ref_rollsum(const uint8_t *p, size_t n)
{
    uint32_t s1 = 0, s2 = 0;
    for (size_t i = 0; i < n; i++) { s1 = (s1 + p[i] + 31) & 0xffff; s2 = (s2 + s1) & 0xffff; }
    return s2 << 16 | s1;
}
static uint32_t ref_rabinkarp(const uint8_t *p, size_t n)
{
    uint32_t h = 1;
    for (size_t i = 0; i < n; i++) h = h * 0x08104225u + p[i];
    return h;
}
/* ---- signature types ---- */
#define REF_MD4      0x72730136u
#define REF_B2       0x72730137u
#define REF_RK_MD4   0x72730146u
#define REF_RK_B2    0x72730147u
#define REF_DELTA    0x72730236u
static const uint32_t ref_magics[4] = {REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2};
static inline int ref_is_rk(uint32_t m) { return (m & 0xf0) == 0x40; }
static inline int ref_maxstrong(uint32_t m) { return (m & 0xf) == 6 ? 16 : 32; }
static inline uint32_t ref_weak(uint32_t m, const uint8_t *p, size_t n) { return ref_is_rk(m) ? ref_rabinkarp(p, n) : ref_rollsum(p, n); }
static inline void ref_strong(uint32_t m, uint8_t *o, const uint8_t *p, size_t n) { if ((m & 0xf) == 6) ref_md4(o, p, n); else ref_blake2(o, p, n); }
static inline void ref_put4(uint8_t *o, uint32_t v) { o[0] = (uint8_t)(v >> 24); o[1] = (uint8_t)(v >> 16); o[2] = (uint8_t)(v >> 8); o[3] = (uint8_t)v; }
static inline uint64_t ref_get(const uint8_t *p, int n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
static inline void ref_putn(uint8_t *o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) { o[i] = (uint8_t)v; v >>= 8; } }
static inline size_t ref_siglen(size_t n, size_t bl, size_t sl) { return 12 + ((n + bl - 1) / bl) * (4 + sl); }
static size_t ref_sig(uint8_t *o, uint32_t magic, size_t bl, size_t sl, const uint8_t *p, size_t n)
{
    uint8_t s[32], *o0 = o;
    ref_put4(o, magic); ref_put4(o + 4, (uint32_t)bl); ref_put4(o + 8, (uint32_t)sl); o += 12;
    for (size_t i = 0; i < n; i += bl) {
        size_t k = n - i < bl ? n - i : bl;
        ref_put4(o, ref_weak(magic, p + i, k)); ref_strong(magic, s, p + i, k); memcpy(o + 4, s, sl); o += 4 + sl;
    }
    return (size_t)(o - o0);
}
/* ---- delta decoding ---- */
enum { REF_OK = 0, REF_IO = 100, REF_ENDED = 103, REF_BADMAGIC = 104, REF_CORRUPT = 106 };
typedef struct {
    int result;                 /* REF_* */
    size_t used;                /* delta bytes up to and including END */
    size_t outlen;              /* bytes produced before end or error (may exceed the stored part) */
    uint64_t lit_cmds, lit_bytes, lit_cmdbytes, copy_cmds, copy_bytes, copy_cmdbytes;
    int copy_oob;               /* some copy reaches outside the basis */
} ref_dres;
/* Width (0 for immediate) of parameters of command c. */
static inline int ref_cmd(uint8_t c, int *w1, int *w2)
{
    static const int W[4] = {1, 2, 4, 8};
    *w1 = *w2 = 0;
    if (c == 0) return 'E';
    if (c <= 0x40) return 'L';
    if (c <= 0x44) { *w1 = W[c - 0x41]; return 'L'; }
    if (c <= 0x54) { *w1 = W[(c - 0x45) / 4]; *w2 = W[(c - 0x45) % 4]; return 'C'; }
    return 'X';
}
/* Interpret delta d against basis; out may be NULL; output is stored up to cap. */
static ref_dres ref_patch(const uint8_t *d, size_t n, const uint8_t *basis, size_t bn, uint8_t *out, size_t cap)
{
    ref_dres r; size_t i = 4; int w1, w2, k;
    memset(&r, 0, sizeof r);
#define RET(x) do { r.result = (x); return r; } while (0)
    if (n < 4) RET(REF_ENDED);
    if (ref_get(d, 4) != REF_DELTA) RET(REF_BADMAGIC);
    for (;;) {
        if (i >= n) RET(REF_ENDED);
        k = ref_cmd(d[i], &w1, &w2);
        if (n - i - 1 < (size_t)(w1 + w2)) RET(REF_ENDED);
        if (k == 'E') { r.used = i + 1; RET(REF_OK); }
        if (k == 'X') RET(REF_CORRUPT);
        if (k == 'L') {
            int64_t len = w1 ? (int64_t)ref_get(d + i + 1, w1) : d[i];
            i += 1 + (size_t)w1;
            if (len <= 0) RET(REF_CORRUPT);
            r.lit_cmds++; r.lit_bytes += (uint64_t)len; r.lit_cmdbytes += 1 + (uint64_t)w1;
            size_t have = n - i; uint64_t m = (uint64_t)len < have ? (uint64_t)len : have;
            for (size_t j = 0; j < m; j++) { if (out && r.outlen < cap) out[r.outlen] = d[i + j]; r.outlen++; }
            if (m < (uint64_t)len) RET(REF_ENDED);
            i += m;
        } else {
            int64_t pos = (int64_t)ref_get(d + i + 1, w1), len = (int64_t)ref_get(d + i + 1 + w1, w2);
            i += 1 + (size_t)(w1 + w2);
            if (len <= 0 || pos < 0) RET(REF_CORRUPT);
            r.copy_cmds++; r.copy_bytes += (uint64_t)len; r.copy_cmdbytes += 1 + (uint64_t)(w1 + w2);
            uint64_t av = (uint64_t)pos < bn ? bn - (uint64_t)pos : 0, m = (uint64_t)len < av ? (uint64_t)len : av;
            for (uint64_t j = 0; j < m; j++) { if (out && r.outlen < cap) out[r.outlen] = basis[(uint64_t)pos + j]; r.outlen++; }
            if (m < (uint64_t)len) { r.copy_oob = 1; RET(REF_ENDED); }
        }
    }
#undef RET
}
/* ---- greedy block matcher: literal bytes, copy commands, and minimal encoded size ---- */
typedef struct { uint64_t lit, copies, cmds_size; } ref_gres;
static inline int ref_ilen(uint64_t v) { return v < 256 ? 1 : v < 65536 ? 2 : v < 0x100000000ULL ? 4 : 8; }
typedef struct { uint64_t h; size_t idx; } ref_bh;
static int ref_bhcmp(const void *a, const void *b) { const ref_bh *x = a, *y = b; return x->h < y->h ? -1 : x->h > y->h ? 1 : x->idx < y->idx ? -1 : 1; }
static uint64_t ref_ph(const uint8_t *p, size_t n) { uint64_t h = 1469598103934665603ULL ^ n; for (size_t i = 0; i < n; i++) h = h * 1099511628211ULL + p[i] + 1; return h; }
/* litmax: literal run split length of the encoder (65533). */
static ref_gres ref_greedy(const uint8_t *b, size_t bn, size_t bl, const uint8_t *x, size_t n, size_t litmax)
{
    ref_gres g = {0, 0, 0}; size_t nb = (bn + bl - 1) / bl, i, p = 0, run = 0;
    ref_bh small[64], *t = nb <= 64 ? small : malloc((nb + 1) * sizeof *t);
    for (i = 0; i < nb; i++) { size_t k = bn - i * bl < bl ? bn - i * bl : bl; t[i].h = ref_ph(b + i * bl, k); t[i].idx = i; }
    if (nb > 1) qsort(t, nb, sizeof *t, ref_bhcmp);
    uint64_t pw = 1; for (i = 0; i < bl; i++) pw *= 1099511628211ULL;
    (void)pw;
    int64_t cpos = -1, clen = 0;
    uint64_t rh = 0; int have = 0;
    while (p < n) {
        size_t k = n - p < bl ? n - p : bl; int64_t m = -1;
        /* rolling form of ref_ph for full windows */
        uint64_t h;
        size_t lo = 0, hi = nb;
        if (k == bl && have) h = rh;
        else if (k == bl || (nb && k == bn - (nb - 1) * bl)) h = ref_ph(x + p, k);
        else { h = 0; lo = hi = nb; }        /* only the short last block could match a short rest */
        while (lo < hi) { size_t mid = (lo + hi) / 2; if (t[mid].h < h) lo = mid + 1; else hi = mid; }
        for (; lo < nb && t[lo].h == h; lo++) {
            size_t o = t[lo].idx * bl, ol = bn - o < bl ? bn - o : bl;
            if (ol == k && !memcmp(b + o, x + p, k)) { m = (int64_t)o; break; }
        }
        if (m >= 0) {
            if (run) { g.lit += run; run = 0; }
            if (clen && cpos + clen == m) clen += (int64_t)k;
            else { if (clen) { g.copies++; g.cmds_size += 1 + (uint64_t)ref_ilen((uint64_t)cpos) + (uint64_t)ref_ilen((uint64_t)clen); } cpos = m; clen = (int64_t)k; }
            p += k; have = 0;
        } else {
            if (clen) { g.copies++; g.cmds_size += 1 + (uint64_t)ref_ilen((uint64_t)cpos) + (uint64_t)ref_ilen((uint64_t)clen); clen = 0; }
            run++;
            if (k == bl && p + bl < n) {
                uint64_t seed = 1469598103934665603ULL ^ bl;
                /* h = seed*q^bl + sum (x+1) q^(bl-1-i) */
                rh = (h - seed * pw) ; rh = rh * 1099511628211ULL - (uint64_t)(x[p] + 1) * pw + x[p + bl] + 1 + seed * pw; have = 1;
            } else have = 0;
            p++;
        }
    }
    if (run) g.lit += run;
    if (clen) { g.copies++; g.cmds_size += 1 + (uint64_t)ref_ilen((uint64_t)cpos) + (uint64_t)ref_ilen((uint64_t)clen); }
    (void)litmax;
    if (t != small) free(t);
    return g;
}
#endif
