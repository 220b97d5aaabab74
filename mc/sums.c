/* Checksums, parameters, text helpers: C15 rolling sums, C16 strong sums, C19 signature parameters, C22 base64/hex, C23 logging and statistics text. */
#include "api.h"
#include <sys/socket.h>
#include <sys/wait.h>
#include "checksum.h"
#include "mdfour.h"
#include "trace.h"
static int SAN;
typedef unsigned char u8;
#define NEL(a) ((int)(sizeof(a) / sizeof *(a)))

/* ---------------------------------------------------------------- C15 */
typedef struct { Rollsum rs; rabinkarp_t rk; weaksum_t w1, w2; } ALL;
static uint32_t mix(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
static void a_init(ALL *a) { memset(a, 0xA5, sizeof *a); RollsumInit(&a->rs); rabinkarp_init(&a->rk); weaksum_init(&a->w1, RS_ROLLSUM); weaksum_init(&a->w2, RS_RABINKARP); }
static void a_reset(ALL *a) { RollsumInit(&a->rs); rabinkarp_init(&a->rk); weaksum_reset(&a->w1); weaksum_reset(&a->w2); }
static void a_upd(ALL *a, const u8 *p, size_t n) { RollsumUpdate(&a->rs, p, n); rabinkarp_update(&a->rk, p, n); weaksum_update(&a->w1, p, n); weaksum_update(&a->w2, p, n); }
static void a_in(ALL *a, u8 c) { RollsumRollin(&a->rs, c); rabinkarp_rollin(&a->rk, c); weaksum_rollin(&a->w1, c); weaksum_rollin(&a->w2, c); }
static void a_out(ALL *a, u8 c) { RollsumRollout(&a->rs, c); rabinkarp_rollout(&a->rk, c); weaksum_rollout(&a->w1, c); weaksum_rollout(&a->w2, c); }
static void a_rot(ALL *a, u8 o, u8 c) { RollsumRotate(&a->rs, o, c); rabinkarp_rotate(&a->rk, o, c); weaksum_rotate(&a->w1, o, c); weaksum_rotate(&a->w2, o, c); }
static void a_cmp(ALL *a, uint32_t rs, uint32_t rk, size_t n, const char *what)
{
    M->w->evals++;
    MC_CHECK(a->rs.count == n && a->rk.count == n && weaksum_count(&a->w1) == n && weaksum_count(&a->w2) == n, "%s: count wrong: window has %zu bytes, counts %zu %zu %zu %zu", what, n, a->rs.count, a->rk.count, weaksum_count(&a->w1), weaksum_count(&a->w2));
    MC_CHECK(RollsumDigest(&a->rs) == rs, "%s: rollsum digest %08x of a %zu byte window, computed afresh it is %08x", what, RollsumDigest(&a->rs), n, rs);
    MC_CHECK(rabinkarp_digest(&a->rk) == rk, "%s: rabinkarp digest %08x of a %zu byte window, computed afresh it is %08x", what, rabinkarp_digest(&a->rk), n, rk);
    MC_CHECK(weaksum_digest(&a->w1) == mix(rs), "%s: weaksum (rollsum) digest %08x, expected %08x", what, weaksum_digest(&a->w1), mix(rs));
    MC_CHECK(weaksum_digest(&a->w2) == rk, "%s: weaksum (rabinkarp) digest %08x, expected %08x", what, weaksum_digest(&a->w2), rk);
}
static void a_chk(ALL *a, const u8 *w, size_t n, const char *what) { a_cmp(a, ref_rollsum(w, n), ref_rabinkarp(w, n), n, what); }
/* depth-first exploration of all operation sequences */
static const u8 *ALPHA; static int NALPHA;
static const int ULEN[] = {0, 1, 2, 16, 17};
static void c15_dfs(const ALL *a, u8 *win, size_t lo, size_t hi, int depth, char *tr)
{
    M->w->states++;
    mc_distinct(mc_hash(win + lo, hi - lo, 15));
    if (!depth) return;
    size_t tl = strlen(tr);
    for (int i = 0; i < NALPHA; i++) {
        ALL b = *a; u8 c = ALPHA[i];
        win[hi] = c; a_in(&b, c); sprintf(tr + tl, "in%02x ", c); M->w->transitions++;
        a_chk(&b, win + lo, hi + 1 - lo, tr); c15_dfs(&b, win, lo, hi + 1, depth - 1, tr); tr[tl] = 0;
    }
    if (hi > lo) {
        ALL b = *a; a_out(&b, win[lo]); strcpy(tr + tl, "out "); M->w->transitions++;
        a_chk(&b, win + lo + 1, hi - lo - 1, tr); c15_dfs(&b, win, lo + 1, hi, depth - 1, tr); tr[tl] = 0;
        for (int i = 0; i < NALPHA; i++) {
            b = *a; u8 c = ALPHA[i]; win[hi] = c; a_rot(&b, win[lo], c); sprintf(tr + tl, "rot%02x ", c); M->w->transitions++;
            a_chk(&b, win + lo + 1, hi - lo, tr); c15_dfs(&b, win, lo + 1, hi + 1, depth - 1, tr); tr[tl] = 0;
        }
    }
    for (int i = 0; i < NEL(ULEN); i++) {
        ALL b = *a; int k = ULEN[i];
        for (int j = 0; j < k; j++) win[hi + j] = (u8)(ALPHA[(j + k + depth) % NALPHA] + j * 3);
        a_upd(&b, win + hi, (size_t)k); sprintf(tr + tl, "upd%d ", k); M->w->transitions++;
        a_chk(&b, win + lo, hi + (size_t)k - lo, tr); c15_dfs(&b, win, lo, hi + (size_t)k, depth - 1, tr); tr[tl] = 0;
    }
    { ALL b = *a; a_reset(&b); strcpy(tr + tl, "reset "); M->w->transitions++; a_chk(&b, win + hi, 0, tr); c15_dfs(&b, win, hi, hi, depth - 1 > 2 ? 2 : depth - 1, tr); tr[tl] = 0; }
}
static void c15(int th)
{
    static const u8 A3[] = {0, 255, 97}, A5[] = {0, 1, 127, 128, 255}, A2[] = {0xff, 0x80};
    u8 *win = malloc(1 << 20); char *tr = malloc(4096); ALL a;
    /* A: all operation sequences; the first two operations are the case */
    for (int al = 0; al < 3; al++) for (int f = 0; f < 40; f++) {
        if (!mc_case()) continue;
        ALPHA = al == 0 ? A3 : al == 1 ? A5 : A2; NALPHA = al == 0 ? 3 : al == 1 ? 5 : 2;
        int depth = (al == 0 ? 5 : al == 1 ? 4 : 6) + (th ? 1 : 0) - (SAN ? 1 : 0);
        mc_desc("all sequences of %d rollin/rollout/rotate/update/reset operations over %d byte values from a %d byte window", depth, NALPHA, f);
        for (int j = 0; j < f; j++) win[j] = (u8)(j * 37 + al * 101 + (j & 1 ? 200 : 0));
        a_init(&a); a_upd(&a, win, (size_t)f); a_chk(&a, win, (size_t)f, "bulk update");
        tr[0] = 0; c15_dfs(&a, win, 0, (size_t)f, depth - (f > 2 ? 1 : 0) - (f > 20 ? 1 : 0), tr);
    }
    /* B: every pair of byte values leaving and entering, many window lengths */
    static const size_t LEN[] = {1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 262143};
    for (int i = 0; i < NEL(LEN); i++) for (int o = 0; o < 256; o += 16) {
        if (SAN && o) continue;
        if (!mc_case()) continue;
        size_t n = LEN[i];
        mc_desc("window of %zu bytes, leaving bytes %d..%d, every entering byte", n, o, o + 15);
        for (int oo = o; oo < o + 16; oo++) {
            mc_fill(win, n, n + (size_t)oo); win[0] = (u8)oo;
            ALL base; a_init(&base); a_upd(&base, win, n); a_chk(&base, win, n, "bulk update");
            uint32_t rs0 = ref_rollsum(win + 1, n - 1), rk0 = ref_rabinkarp(win + 1, n - 1); uint32_t s1 = rs0 & 0xffff, s2 = rs0 >> 16;
            a = base; a_out(&a, (u8)oo); a_cmp(&a, rs0, rk0, n - 1, "rollout");
            for (int c = 0; c < 256; c++) {
                uint32_t t1 = (s1 + (uint32_t)c + 31) & 0xffff, rs = ((s2 + t1) & 0xffff) << 16 | t1, rk = rk0 * 0x08104225u + (uint32_t)c;
                a = base; a_rot(&a, (u8)oo, (u8)c); a_cmp(&a, rs, rk, n, "rotate");
                a_out(&a, n > 1 ? win[1] : (u8)c); if (n == 1) a_cmp(&a, 0, 1, 0, "rotate, rollout");
                a = base; a_out(&a, (u8)oo); a_in(&a, (u8)c); a_cmp(&a, rs, rk, n, "rollout then rollin");
                a = base; a_in(&a, (u8)c); a_out(&a, (u8)oo); a_cmp(&a, rs, rk, n, "rollin then rollout");
                mc_distinct(mc_mix((uint64_t)rs << 32 | rk));
            }
        }
        mc_tick();
    }
    /* C: every length of bulk update, in one and two parts, against rolling in byte by byte */
    for (int f = 0; f < 5; f++) for (int blk = 0; blk < 4096; blk += 64) {
        if (SAN && blk > 256) continue;
        if (!mc_case()) continue;
        mc_desc("bulk updates of every length %d..%d, fill %d", blk, blk + 63, f);
        size_t N = (size_t)blk + 64; u8 *p = win;
        if (f == 0) mc_fill(p, N, 5); else memset(p, f == 1 ? 0 : f == 2 ? 255 : f == 3 ? 128 : 31, N);
        for (size_t n = (size_t)blk; n < N; n++) {
            uint32_t rs = ref_rollsum(p, n), rk = ref_rabinkarp(p, n);
            a_init(&a); a_upd(&a, p, n); a_cmp(&a, rs, rk, n, "bulk update");
            MC_CHECK(rs_calc_weak_sum(RS_ROLLSUM, p, n) == rs && rs_calc_weak_sum(RS_RABINKARP, p, n) == rk, "weak sum of %zu bytes is not the documented value", n);
            a_init(&a); for (size_t k = 0; k < n; k++) a_in(&a, p[k]); a_cmp(&a, rs, rk, n, "rollin of every byte");
            for (size_t k = 0; k <= n; k += (n < 200 ? 1 : n / 7)) { a_init(&a); a_upd(&a, p, k); a_upd(&a, p + k, n - k); a_cmp(&a, rs, rk, n, "two bulk updates"); }
            /* bulk in, everything out again */
            a_init(&a); a_upd(&a, p, n); for (size_t k = 0; k < n; k++) a_out(&a, p[k]); a_cmp(&a, 0, 1, 0, "bulk update then rollout of every byte");
            mc_distinct(mc_mix((uint64_t)rs << 32 | rk));
        }
    }
    /* D: large windows, rolled over long data */
    static const size_t BIG[] = {65535, 65536, 65537, 1 << 17, (1 << 20) + 3, 1 << 24, (1 << 27) + 1};
    for (int i = 0; i < NEL(BIG); i++) for (int f = 0; f < 2; f++) {
        if (SAN && i > 3) continue;
        if (!mc_case()) continue;
        size_t n = BIG[i], roll = n < (1 << 20) ? 200000 : 3000; u8 *p = malloc(n + roll);
        mc_desc("window of %zu bytes rotated %zu times", n, roll);
        if (f) memset(p, 255, n + roll); else mc_fill(p, n + roll, n);
        a_init(&a); a_upd(&a, p, n); a_chk(&a, p, n, "bulk update");
        for (size_t k = 0; k < roll; k++) { a_rot(&a, p[k], p[k + n]); if (k + 1 == roll || (n < 70000 && k % 20000 == 1)) a_chk(&a, p + k + 1, n, "many rotations"); if (!(k & 1023)) mc_tick(); }
        for (size_t k = 0; k < 500; k++) a_out(&a, p[roll + k]);
        a_chk(&a, p + roll + 500, n - 500, "many rotations then rollouts");
        free(p);
    }
    /* E: more than 4 GiB in one update */
    for (int i = 0; i < 2; i++) {
        if (SAN || !mc_case()) continue;
        size_t n = (1ULL << 32) + (i ? 70001 : 0); u8 *p = mc_mapp(n);
        mc_desc("bulk update of %zu zero bytes, then rollout", n);
        uint64_t s1 = (uint64_t)31 * n, s2 = 31 * (uint64_t)(((unsigned __int128)n * (n + 1)) / 2); uint32_t rs = (uint32_t)(s2 << 16) | (uint32_t)(s1 & 0xffff), rk = 1;
        for (size_t k = 0; k < (n & 0xffffffff); k++) rk *= 0x08104225u;    /* mult^(2^32) == 1 */
        Rollsum r; rabinkarp_t q; RollsumInit(&r); rabinkarp_init(&q);
        if (i) { RollsumUpdate(&r, p, n); MC_CHECK(RollsumDigest(&r) == rs && r.count == n, "rollsum of %zu zero bytes is %08x, expected %08x", n, RollsumDigest(&r), rs); RollsumRollout(&r, 0); RollsumRollin(&r, 0); MC_CHECK(RollsumDigest(&r) == rs, "rollsum of a %zu byte window wrong after rolling", n); }
        else { rabinkarp_update(&q, p, n); MC_CHECK(rabinkarp_digest(&q) == rk && q.count == n, "rabinkarp of %zu zero bytes is %08x, expected %08x", n, rabinkarp_digest(&q), rk); rabinkarp_rotate(&q, 0, 0); MC_CHECK(rabinkarp_digest(&q) == rk, "rabinkarp of a %zu byte window wrong after rotating", n); }
        M->w->evals += 2; munmap(p, n);
    }
    free(win); free(tr);
}
/* ---------------------------------------------------------------- C16 */
static mc_win W16, P16;
static void md_inc(const u8 *p, size_t n, const size_t *cut, int nc, const u8 want[16])
{
    rs_mdfour_t md; u8 out[16]; size_t at = 0;
    memset(&md, 0x5A, sizeof md); memset(out, 0x77, 16);
    rs_mdfour_begin(&md);
    for (int i = 0; i <= nc; i++) {
        size_t e = i < nc ? cut[i] : n, k = e - at; u8 *q = P16.end - k;
        if (k) memcpy(q, p + at, k);
        rs_mdfour_update(&md, q, k);
        if (k) memset(q, 0xEE, k);
        at = e;
    }
    rs_mdfour_result(&md, out);
    M->w->evals++;
    if (memcmp(out, want, 16)) { char b[300] = ""; for (int i = 0; i < nc && i < 20; i++) sprintf(b + strlen(b), "%zu ", cut[i]); mc_fail("incremental MD4 of %zu bytes cut at %s differs from standard MD4", n, b); }
}
static void st_one(const u8 *p, size_t n, const u8 *m4, const u8 *b2)
{
    u8 o[64];
    memset(o, 0x77, 64); rs_mdfour(o + 16, p, n); MC_CHECK(!memcmp(o + 16, m4, 16), "rs_mdfour of %zu bytes is not standard MD4", n);
    MC_CHECK(o[15] == 0x77 && o[32] == 0x77, "rs_mdfour writes outside its 16 byte result");
    rs_strong_sum_t s; memset(&s, 0, sizeof s); rs_calc_strong_sum(RS_MD4, p, n, &s); MC_CHECK(!memcmp(&s, m4, 16), "strong sum (MD4) of %zu bytes is not standard MD4", n);
    memset(&s, 0, sizeof s); rs_calc_strong_sum(RS_BLAKE2, p, n, &s); MC_CHECK(!memcmp(&s, b2, 32), "strong sum (BLAKE2) of %zu bytes is not standard BLAKE2b-256", n);
    M->w->evals += 3;
}
static void f16(u8 *p, size_t n, int f) { if (f < 2) mc_fill(p, n, n * 3 + (size_t)f); else memset(p, f == 2 ? 0 : f == 3 ? 255 : 0x80, n); }
static void c16(int th)
{
    u8 m4[16], b2[32]; u8 *p = malloc(1 << 21);
    W16 = mc_win_new(1 << 21); P16 = mc_win_new(1 << 21);
    for (size_t n = 0; n <= (SAN ? 140 : 600); n++) {
        if (!mc_case()) continue;
        mc_desc("length %zu: one-shot at 16 alignments, every 2-way split, all equal pieces", n);
        for (int f = 0; f < 5; f++) {
            f16(p, n, f); ref_md4(m4, p, n); ref_blake2(b2, p, n); mc_distinct(mc_hash(b2, 32, n));
            for (size_t al = 0; al < 16; al++) { u8 *q = W16.end - n - al; memcpy(q, p, n); st_one(q, n, m4, b2); }
            if (SAN && f) continue;
            for (size_t k = 0; k <= n; k++) md_inc(p, n, &k, 1, m4);
            for (size_t k = 1; k <= 130 && k < n; k++) { size_t cut[700]; int c = 0; for (size_t x = k; x < n; x += k) cut[c++] = x; md_inc(p, n, cut, c, m4); }
        }
    }
    size_t mx = SAN ? 70 : th ? 330 : 200;
    for (size_t n = 0; n <= mx; n++) {
        if (!mc_case()) continue;
        mc_desc("length %zu: every 3-way split", n);
        f16(p, n, 0); ref_md4(m4, p, n);
        for (size_t i = 0; i <= n; i++) { for (size_t j = i; j <= n; j++) { size_t c[2] = {i, j}; md_inc(p, n, c, 2, m4); } mc_tick(); }
    }
    /* every sequence of piece lengths from a boundary set */
    static const size_t L[] = {0, 1, 55, 56, 57, 63, 64, 65, 127, 128, 129};
    for (int a = 0; a < 11; a++) for (int b = 0; b < 11; b++) {
        if (SAN && ((a & 1) || (b & 1))) continue;
        if (!mc_case()) continue;
        mc_desc("five pieces of boundary lengths, the first %zu and %zu", L[a], L[b]);
        f16(p, 1000, 1);
        for (int c = 0; c < 11; c++) for (int d = 0; d < 11; d++) for (int e = 0; e < 11; e++) {
            size_t cut[4] = {L[a], L[a] + L[b], L[a] + L[b] + L[c], L[a] + L[b] + L[c] + L[d]}, n = cut[3] + L[e];
            ref_md4(m4, p, n); md_inc(p, n, cut, 4, m4);
        }
    }
    /* all sequences of small pieces */
    for (int a = 1; a <= 7; a++) for (int b = 1; b <= 7; b++) {
        if (!mc_case()) continue;
        mc_desc("periodic pieces of %d, %d and 1..70 bytes over 500 bytes", a, b);
        f16(p, 500, 1); ref_md4(m4, p, 500);
        for (int c = 1; c <= 70; c++) { size_t cut[600], x = 0; int k = 0, t = 0; int per[3] = {a, b, c}; while ((x += (size_t)per[t++ % 3]) < 500) cut[k++] = x; md_inc(p, 500, cut, k, m4); }
    }
    static const size_t BIG[] = {4095, 4096, 4097, 65535, 65536, 65537, 1000003, 1 << 20};
    for (int i = 0; i < 8; i++) {
        if (SAN && i > 5) continue;
        if (!mc_case()) continue;
        size_t n = BIG[i]; mc_desc("length %zu, splits", n);
        f16(p, n, 0); ref_md4(m4, p, n); ref_blake2(b2, p, n); st_one(p, n, m4, b2);
        for (size_t k = 0; k < 200; k++) { md_inc(p, n, &k, 1, m4); size_t z = n - k; md_inc(p, n, &z, 1, m4); }
    }
    /* lengths whose bit count exceeds 32 bits; above 4 GiB */
    static const uint64_t HUGE_[] = {(1ULL << 29) - 1, 1ULL << 29, (1ULL << 29) + 77, (1ULL << 32) + 5};
    for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) {
        if (SAN || (i == 3 && !th)) continue;
        if (!mc_case()) continue;
        size_t n = HUGE_[i]; mc_desc("%zu zero bytes, %s", n, k ? "BLAKE2" : "MD4 one-shot and incremental");
        u8 *z = mc_mapp(n);
        if (k) { rs_strong_sum_t s; ref_blake2(b2, z, n); mc_tick(); rs_calc_strong_sum(RS_BLAKE2, z, n, &s); MC_CHECK(!memcmp(&s, b2, 32), "BLAKE2 of %zu bytes wrong", n); }
        else { u8 o[16]; rs_mdfour_t md; ref_md4(m4, z, n); mc_tick(); rs_mdfour(o, z, n); MC_CHECK(!memcmp(o, m4, 16), "MD4 of %zu bytes wrong", n); mc_tick();
               rs_mdfour_begin(&md); rs_mdfour_update(&md, z, 3); rs_mdfour_update(&md, z, n - 4); rs_mdfour_update(&md, z, 1); rs_mdfour_result(&md, o); MC_CHECK(!memcmp(o, m4, 16), "incremental MD4 of %zu bytes wrong", n); }
        M->w->evals++; munmap(z, n);
    }
}
static u8 HDR[4096]; static size_t HDR_N;
static ssize_t hdr_write(void *c, const char *b, size_t n) { if (HDR_N) return 0; HDR_N = n < sizeof HDR ? n : sizeof HDR; memcpy(HDR, b, HDR_N); return 0; }
/* ---------------------------------------------------------------- C19 */
typedef struct { int unused; } zcs;
static size_t Z_LEFT;
static ssize_t z_read(void *c, char *b, size_t n) { (void)c; if (n > Z_LEFT) n = Z_LEFT; memset(b, 0, n); Z_LEFT -= n; return (ssize_t)n; }
static uint64_t isqrt(uint64_t v) { uint64_t lo = 0, hi = 3037000500ULL; while (lo < hi) { uint64_t m = (lo + hi + 1) / 2; if ((unsigned __int128)m * m <= v) lo = m; else hi = m - 1; } return lo; }
static int ilog2(unsigned __int128 v) { int r = 0; while (v >>= 1) r++; return r; }
static const size_t BLS[] = {0, 1, 2, 3, 16, 127, 128, 129, 255, 256, 257, 512, 1000, 2048, 4096, 65536, 1 << 20, 1 << 30, INT_MAX - 1, INT_MAX, (size_t)INT_MAX + 1, (size_t)INT_MAX + 2, UINT32_MAX - 1, UINT32_MAX, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2048, 1ULL << 40, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX};
static void c19_exp(int64_t sz, uint32_t mg, size_t bl, size_t sl, int *res, uint32_t *omg, size_t *obl, size_t *osl)
{
    uint32_t m = mg ? mg : REF_RK_B2; size_t max, min; int known = 0;
    for (int i = 0; i < 4; i++) known |= ref_magics[i] == m;
    if (!known) { *res = RS_BAD_MAGIC; return; }
    *omg = m; max = (size_t)ref_maxstrong(m);
    if (bl > INT_MAX) { *res = RS_PARAM_ERROR; return; }
    if (!bl) { if (sz < 0) bl = 2048; else if (sz <= 65536) bl = 256; else { uint64_t r = isqrt((uint64_t)sz); if (r > INT_MAX) r = INT_MAX; bl = (size_t)(r & ~(uint64_t)127); } }
    *obl = bl;
    if (sz < 0) min = 12;
    else min = 2 + (size_t)((ilog2((unsigned __int128)sz + (1 << 24)) + ilog2((uint64_t)sz / bl + 1) + 7) / 8);
    if (min > max) min = max;
    if (sl == 0) *osl = max; else if (sl == (size_t)-1) *osl = min; else if (sl > max) { *res = RS_PARAM_ERROR; return; } else *osl = sl;
    *res = RS_DONE;
}
static void c19_one(int64_t sz, uint32_t mg, size_t bl, size_t sl)
{
    rs_magic_number m = (rs_magic_number)mg; size_t b = bl, s = sl; int er; uint32_t em = 0; size_t eb = 0, es = 0;
    c19_exp(sz, mg, bl, sl, &er, &em, &eb, &es);
    rs_result r = rs_sig_args((rs_long_t)sz, &m, &b, &s);
    M->w->evals++;
    if (er != RS_DONE) { MC_CHECK(RES(r) == er, "rs_sig_args(size %lld, magic %#x, block_len %zu, strong_len %zu) returned %d, expected %d", (long long)sz, mg, bl, sl, RES(r), er); return; }
    MC_CHECK(r == RS_DONE && (uint32_t)m == em && b == eb && s == es, "rs_sig_args(size %lld, magic %#x, block_len %zu, strong_len %zu) gave result %d, magic %#x, block_len %zu, strong_len %zu; documented: magic %#x, block_len %zu, strong_len %zu",
             (long long)sz, mg, bl, sl, RES(r), (unsigned)m, b, s, em, eb, es);
    mc_distinct(mc_mix((uint64_t)em << 40 ^ (uint64_t)eb << 8 ^ es));
}
static void c19_all(int64_t sz)
{
    static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2};
    for (int m = 0; m < 5; m++) for (int b = 0; b < NEL(BLS); b++) { c19_one(sz, mgs[m], BLS[b], (size_t)-1); c19_one(sz, mgs[m], BLS[b], 0); }
}
static void c19(int th)
{
    rs_trace_to(quiet_sink);
    static const size_t SLS[] = {0, 1, 2, 3, 4, 7, 8, 12, 15, 16, 17, 31, 32, 33, 48, 64, 255, INT_MAX, (size_t)INT_MAX + 1, UINT32_MAX, 1ULL << 32, (1ULL << 32) + 8, (1ULL << 32) + 16, SIZE_MAX / 2, SIZE_MAX - 16, SIZE_MAX - 1, SIZE_MAX};
    /* A: all sizes up to 140000 */
    for (int64_t s = 0; s < 140000; s += 1000) {
        if (!mc_case()) continue;
        mc_desc("every file size %lld..%lld", (long long)s, (long long)s + 999);
        for (int64_t k = s; k < s + 1000; k++) { c19_one(k, 0, 0, (size_t)-1); c19_one(k, REF_MD4, 0, (size_t)-1); c19_one(k, REF_MD4, 1, (size_t)-1); c19_one(k, REF_RK_MD4, 0, 0); c19_one(k, 0, 2048, 12); }
    }
    /* B: around every power of two and other boundaries, full parameter product */
    for (int e = -1; e <= 63; e++) for (int d = -3; d <= 3; d++) {
        if (!mc_case()) continue;
        int64_t sz = e < 0 ? d - 4 : e == 63 ? INT64_MAX - 3 + (d < 0 ? 0 : d) : (int64_t)((1ULL << e) + (uint64_t)(int64_t)d);
        if (e < 0 && d == 3) sz = INT64_MIN;
        if (e < 0 && d == 2) sz = -1;
        mc_desc("file size %lld with the full product of types, block and strong lengths", (long long)sz);
        c19_all(sz);
        for (int m = 0; m < 8; m++) { static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2, 0x72730138, 0x72730236, 1};
            for (int b = 0; b < NEL(BLS); b++) for (int k = 0; k < NEL(SLS); k++) c19_one(sz, mgs[m], BLS[b], SLS[k]); }
    }
    /* C: around the squares, where the recommended block length changes */
    for (int64_t j0 = 1; j0 < 23726568; j0 += 20000) {
        if (SAN && j0 > 40000) continue;
        if (!th && j0 > 400000 && (j0 / 20000) % 16) continue;
        if (!mc_case()) continue;
        mc_desc("squares of 128*%lld..", (long long)j0);
        for (int64_t j = j0; j < j0 + 20000 && j * 128 <= 3037000499LL; j++) { int64_t q = (j * 128) * (j * 128); for (int d = -1; d <= 1; d++) { c19_one(q + d, 0, 0, 0); c19_one(q + d, REF_RK_MD4, 0, (size_t)-1); } }
    }
    for (int i = 0; i < 64; i++) { if (!mc_case()) continue; int64_t q = 3037000499LL * 3037000499LL; mc_desc("largest squares"); for (int64_t d = -40; d < 40; d++) { c19_one(q + d + i * 80, 0, 0, 0); int64_t r = 2147483647LL - i; c19_one(r * r + d, 0, 0, 0); c19_one((r + 64) * (r + 64) + d, 0, 0, (size_t)-1); } }
    /* D: every strong length and size class with explicit small block lengths */
    for (int e = 0; e < 63; e++) {
        if (!mc_case()) continue;
        mc_desc("size 3*2^%d.., every strong length 0..40, block lengths 1..300", e);
        for (int q = 0; q < 4; q++) { int64_t sz = e < 60 ? (int64_t)((4ULL + (unsigned)q) << e) : INT64_MAX - (int64_t)q * 12345; if (sz < 0) continue;
            for (size_t bl = 0; bl <= 300; bl += bl < 10 ? 1 : 29) for (size_t sl = 0; sl <= 41; sl++) for (int m = 0; m < 4; m++) c19_one(sz, ref_magics[m], bl, sl == 41 ? (size_t)-1 : sl); }
    }
    /* E: every magic in the neighbourhood */
    for (int k = 0; k < 16; k++) {
        if (!mc_case()) continue;
        mc_desc("magic numbers, slice %d", k);
        for (uint32_t lo = (uint32_t)k << 12; lo < (uint32_t)(k + 1) << 12; lo++) for (int h = 0; h < 6; h++) { static const uint32_t hi[] = {0x72730000u, 0, 0x72720000u, 0x73730000u, 0xf2730000u, 0xffff0000u}; c19_one(1000, hi[h] | lo, 0, 0); c19_one(-1, hi[h] | lo, 2048, 8); }
        for (int b = 0; b < 32; b++) for (int m = 0; m < 4; m++) c19_one(5, ref_magics[m] ^ (1u << b), 0, 0);
    }
    /* F: the values are the ones the operations use: signature headers for raw and resolved parameters; the header is accepted by loading */
    for (int m = 0; m < 8; m++) for (int b = 0; b < NEL(BLS); b++) {
        if (!mc_case()) continue;
        static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2, 0x72730138, 0x72730236, 1};
        mc_desc("signature jobs with magic %#x, block_len %zu and every strong length class", mgs[m], BLS[b]);
        for (int k = 0; k < NEL(SLS); k++) {
            int er; uint32_t em; size_t eb, es; vec o = {0}; runinfo ri;
            c19_exp(-1, mgs[m], BLS[b], SLS[k], &er, &em, &eb, &es);
            if (er == RS_DONE && eb > (1 << 20)) continue;      /* the job would allocate a block */
            rs_job_t *j = rs_sig_begin(BLS[b], SLS[k], (rs_magic_number)mgs[m]);
            int r = j ? RES(run_job(j, (u8 *)"", 0, ONESHOT, &o, &ri)) : er; if (j) rs_job_free(j);
            M->w->evals++;
            MC_CHECK(r == er, "signature job with magic %#x block_len %zu strong_len %zu: result %d, expected %d", mgs[m], BLS[b], SLS[k], r, er);
            if (er == RS_DONE) {
                u8 h[12]; ref_put4(h, em); ref_put4(h + 4, (uint32_t)eb); ref_put4(h + 8, (uint32_t)es);
                MC_CHECK(vec_eq(&o, h, 12), "signature header does not carry the resolved parameters (magic %#x block_len %zu strong_len %zu)", em, eb, es);
                rs_result lr; rs_signature_t *s = load_sig(h, 12, ONESHOT, &lr); MC_CHECK(s, "a signature with resolved parameters does not load: %d", RES(lr)); rs_free_sumset(s);
            } else MC_CHECK(o.n == 0, "output written despite bad parameters");
            free(o.p);
        }
    }
    /* G: whole-file signatures of regular files use the recommendation for their size */
    static const int64_t FS[] = {0, 1, 255, 256, 65535, 65536, 65537, 147455, 147456, 147457, 262143, 262144, 1000000, 1 << 24};
    for (int i = 0; i < NEL(FS); i++) for (int m = 0; m < 5; m++) {
        if (!mc_case()) continue;
        static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2};
        mc_desc("rs_sig_file of a %lld byte file with default parameters, magic %#x", (long long)FS[i], mgs[m]);
        for (int k = 0; k < 2; k++) {
            FILE *f = tmpfile(); char *ob = NULL; size_t on = 0; FILE *o = open_memstream(&ob, &on); int er; uint32_t em; size_t eb, es; u8 h[12];
            if (!f || !o || ftruncate(fileno(f), FS[i])) _exit(99);
            c19_exp(FS[i], mgs[m], 0, k ? (size_t)-1 : 0, &er, &em, &eb, &es);
            rs_result r = rs_sig_file(f, o, 0, k ? (size_t)-1 : 0, (rs_magic_number)mgs[m], NULL); fclose(o); fclose(f);
            ref_put4(h, em); ref_put4(h + 4, (uint32_t)eb); ref_put4(h + 8, (uint32_t)es); M->w->evals++;
            MC_CHECK(r == RS_DONE && on >= 12 && !memcmp(ob, h, 12), "rs_sig_file of a %lld byte file: result %d, header does not carry block_len %zu strong_len %zu", (long long)FS[i], RES(r), eb, es);
            free(ob);
        }
    }
    /* G2: sizes that are never read to the end: the output fails after the header */
    for (int b = 30; b <= 62; b++) for (int e = -1; e <= 1; e++) for (int m = 0; m < 5; m++) {
        if (!mc_case()) continue;
        static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2}; int64_t sz = (1LL << b) + e * (b & 1 ? 1 : 70001);
        mc_desc("rs_sig_file of a %lld byte file with default parameters, magic %#x, up to the header", (long long)sz, mgs[m]);
        for (int k = 0; k < 3; k++) {
            int fd = memfd_create("mc", 0), er; uint32_t em; size_t eb, es, bl = k == 2 ? 1000 : 0; u8 h[12];
            if (fd < 0) _exit(99);
            if (ftruncate(fd, sz)) { close(fd); continue; }
            FILE *f = fdopen(fd, "rb"), *o = fopencookie(NULL, "w", (cookie_io_functions_t){NULL, hdr_write, NULL, NULL}); if (!f || !o) _exit(99);
            setvbuf(o, NULL, _IONBF, 0); HDR_N = 0; c19_exp(sz, mgs[m], bl, k ? (size_t)-1 : 0, &er, &em, &eb, &es);
            /* small buffers: nothing near a block is allocated before the header is out */
            rs_inbuflen = rs_outbuflen = 4096; mc_tick();
            rs_result r = rs_sig_file(f, o, bl, k ? (size_t)-1 : 0, (rs_magic_number)mgs[m], NULL); fclose(o); fclose(f); rs_inbuflen = rs_outbuflen = 0;
            ref_put4(h, em); ref_put4(h + 4, (uint32_t)eb); ref_put4(h + 8, (uint32_t)es); M->w->evals++;
            MC_CHECK(r == RS_IO_ERROR && HDR_N >= 12 && !memcmp(HDR, h, 12), "rs_sig_file of a %lld byte file: result %d, %zu bytes, header does not carry block_len %zu strong_len %zu", (long long)sz, RES(r), HDR_N, eb, es);
            mc_distinct(mc_hash(h, 12, (uint64_t)sz));
        }
    }
    /* H: streams without a size use the recommendation for an unknown size, whatever they hold */
    static const size_t US[] = {0, 1, 255, 256, 5000, 60000, 300000};
    static const char *SKN[] = {"pipe", "socket", "memory stream", "custom stream"};
    for (int i = 0; i < NEL(US); i++) for (int m = 0; m < 5; m++) for (int kd = 0; kd < 4; kd++) {
        if (!mc_case()) continue;
        static const uint32_t mgs[] = {0, REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2};
        mc_desc("rs_sig_file of %zu bytes from a %s, default parameters, magic %#x", US[i], SKN[kd], mgs[m]);
        for (int k = 0; k < 2; k++) {
            char *ob = NULL, *d = calloc(1, US[i] + 1); size_t on = 0; FILE *o = open_memstream(&ob, &on), *f; int er; uint32_t em; size_t eb, es; u8 h[12]; pid_t pid = 0;
            if (kd == 2 && US[i]) f = fmemopen(d, US[i], "r");
            else if (kd == 3) f = fopencookie(&(zcs){0}, "r", (cookie_io_functions_t){z_read, NULL, NULL, NULL});
            else {
                int p[2]; if (kd == 1 ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) _exit(99);
                if (!(pid = fork())) { close(p[0]); for (size_t q = 0; q < US[i];) { ssize_t w = write(p[1], d + q, US[i] - q); if (w <= 0) _exit(1); q += (size_t)w; } _exit(0); }
                close(p[1]); f = fdopen(p[0], "r");
            }
            if (!f || !o) _exit(99);
            Z_LEFT = US[i];
            c19_exp(-1, mgs[m], 0, k ? (size_t)-1 : 0, &er, &em, &eb, &es);
            rs_result r = rs_sig_file(f, o, 0, k ? (size_t)-1 : 0, (rs_magic_number)mgs[m], NULL); fclose(o); fclose(f);
            if (pid) waitpid(pid, NULL, 0);
            ref_put4(h, em); ref_put4(h + 4, (uint32_t)eb); ref_put4(h + 8, (uint32_t)es); M->w->evals++;
            MC_CHECK(r == RS_DONE && on == 12 + (US[i] + eb - 1) / eb * (4 + es) && !memcmp(ob, h, 12), "rs_sig_file of %zu bytes from a %s: result %d, %zu bytes, header should carry block_len %zu strong_len %zu", US[i], SKN[kd], RES(r), on, eb, es);
            free(ob); free(d);
        }
    }
}
/* ---------------------------------------------------------------- C22 */
static mc_win WO, WI, WT;
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_b64(const u8 *p, size_t n, char *o)
{
    size_t k = 0; unsigned acc = 0; int bits = 0;
    for (size_t i = 0; i < n; i++) { acc = acc << 8 | p[i]; bits += 8; while (bits >= 6) { bits -= 6; o[k++] = B64[(acc >> bits) & 63]; } acc &= 0xffff; }
    if (bits) o[k++] = B64[(acc << (6 - bits)) & 63];
    o[k] = 0; return k;
}
static void c22_one(const u8 *p, size_t n, char *exp)
{
    size_t k = ref_b64(p, n, exp); char *o = (char *)WO.end - (k + 1); const u8 *q = WI.end - n;
    if (n) memcpy(WI.end - n, p, n);
    o[-1] = 0x55; memset(o, 0x55, k + 1);
    rs_base64(q, (int)n, o);
    MC_CHECK(!memcmp(o, exp, k + 1) && o[-1] == 0x55, "base64 of %zu bytes (%02x %02x %02x...) is not standard base64 without padding", n, n > 0 ? p[0] : 0, n > 1 ? p[1] : 0, n > 2 ? p[2] : 0);
    char *t = (char *)WT.end - (k + 1); memcpy(t, exp, k + 1); t[-1] = 0x44;
    size_t r = rs_unbase64(t);
    MC_CHECK(r == n, "decoding the base64 of %zu bytes returns %zu", n, r);
    MC_CHECK(!memcmp(t, p, n), "decoding the base64 of %zu bytes (%02x %02x %02x...) does not restore them", n, n > 0 ? p[0] : 0, n > 1 ? p[1] : 0, n > 2 ? p[2] : 0);
    MC_CHECK(t[k] == 0 && t[-1] == 0x44, "decoder writes outside the text");
    char *h = (char *)WO.end - (2 * n + 1); memset(h - 1, 0x55, 2 * n + 2);
    rs_hexify(h, q, (int)n);
    for (size_t i = 0; i < n; i++) MC_CHECK(h[2 * i] == "0123456789abcdef"[p[i] >> 4] && h[2 * i + 1] == "0123456789abcdef"[p[i] & 15], "hex of byte %02x wrong", p[i]);
    MC_CHECK(h[2 * n] == 0 && h[-1] == 0x55, "hex not terminated or writes before its buffer");
    M->w->evals += 3;
}
static void c22(int th)
{
    WO = mc_win_new(1 << 20); WI = mc_win_new(1 << 20); WT = mc_win_new(1 << 20); char *exp = malloc(1 << 20); u8 p[512];
    for (int c = 0; c < 256; c++) {
        if (SAN && c % 16) continue;
        if (!mc_case()) continue;
        mc_desc("every string of up to 3 bytes starting with %02x", c);
        p[0] = (u8)c; if (!c) c22_one(p, 0, exp);
        c22_one(p, 1, exp);
        for (int d = 0; d < 256; d++) { p[1] = (u8)d; c22_one(p, 2, exp); mc_tick(); mc_distinct(mc_mix((uint64_t)c << 8 | (uint64_t)d | 1 << 20));
            for (int e = 0; e < 256; e += SAN ? 5 : 1) { p[2] = (u8)e; c22_one(p, 3, exp); } }
    }
    for (int n = 0; n <= 400; n++) {
        if (!mc_case()) continue;
        mc_desc("length %d: several fills, every single byte value at each of the last 7 positions", n);
        for (int f = 0; f < 5; f++) { f16(p, (size_t)n, f); c22_one(p, (size_t)n, exp); mc_distinct(mc_hash(p, (size_t)n, (uint64_t)n)); }
        for (int pos = n - 7 < 0 ? 0 : n - 7; pos < n; pos++) for (int f = 1; f < 4; f++) for (int v = 0; v < 256; v++) { f16(p, (size_t)n, f); p[pos] = (u8)v; c22_one(p, (size_t)n, exp); }
    }
    if (!SAN) for (int b = 0; b < 256; b++) {    /* four and more bytes over boundary values */
        if (!mc_case()) continue;
        static const u8 V[] = {0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff, 0x41, 0x2b, 0x0f, 0xf0, 0x55, 0xaa, 0x30};
        mc_desc("strings of 4 and 5 bytes over 16 values, slice %d", b);
        p[0] = V[b & 15]; p[1] = V[b >> 4];
        for (int i = 0; i < 4096; i++) { p[2] = V[i & 15]; p[3] = V[i >> 4 & 15]; p[4] = V[i >> 8]; c22_one(p, 5, exp); if (i < 256) c22_one(p, 4, exp); }
    }
    static const int BIG[] = {1000, 4096, 65535, 65536, 200000};
    for (int i = 0; i < 5; i++) {
        if (!mc_case()) continue;
        mc_desc("length %d", BIG[i]); u8 *q = malloc((size_t)BIG[i]); mc_fill(q, (size_t)BIG[i], 4); c22_one(q, (size_t)BIG[i], exp); free(q);
    }
    /* beyond 2^31 bits */
    if (!SAN && mc_case()) {
        size_t n = (1u << 28) + 6, k = (n * 8 + 5) / 6; mc_desc("length %zu", n);
        u8 *q = mc_mapp(n); char *o = mc_mapp(k + 4096);
        memcpy(q, "abcdef", 6); memcpy(q + n - 9, "\xff\x80\x01ghijkl", 9);
        rs_base64(q, (int)n, o); mc_tick();
        char ex[40]; size_t off = (n - 9) / 3 * 3; size_t kk = ref_b64(q + off, n - off, ex);
        MC_CHECK(strnlen(o, k + 1) == k && !memcmp(o + off / 3 * 4, ex, kk + 1) && !memcmp(o, "YWJjZGVm", 8), "base64 of %zu bytes wrong", n);
        size_t r = rs_unbase64(o); MC_CHECK(r == n && !memcmp(o, q, 64) && !memcmp(o + n - 64, q + n - 64, 64), "decoding the base64 of %zu bytes gives %zu bytes", n, r);
        M->w->evals += 2; munmap(q, n); munmap(o, k + 4096);
    }
}
/* ---------------------------------------------------------------- C23 */
typedef struct { long calls; int level; char text[4096]; size_t len; int unterminated; } SINK;
static SINK *SK;
static void sink(rs_loglevel l, char const *m) { SK->calls++; SK->level = (int)l; SK->len = strnlen(m, 4000); if (SK->len == 4000) SK->unterminated = 1; memcpy(SK->text, m, SK->len); SK->text[SK->len] = 0; }
static void sink2(rs_loglevel l, char const *m) { SK->calls += 1000000; (void)l; (void)m; }
typedef struct { uint64_t h; } obs;
static uint64_t hstats(const rs_stats_t *s, uint64_t h)
{
    rs_stats_t z; memset(&z, 0, sizeof z);
    uint64_t v[] = {(uint64_t)s->lit_cmds, (uint64_t)s->lit_bytes, (uint64_t)s->lit_cmdbytes, (uint64_t)s->copy_cmds, (uint64_t)s->copy_bytes, (uint64_t)s->copy_cmdbytes, (uint64_t)s->sig_blocks, s->block_len, (uint64_t)s->in_bytes, (uint64_t)s->out_bytes};
    return mc_hash(v, sizeof v, h);
}
static uint64_t ops(const u8 *o, size_t on, const u8 *n, size_t nn, size_t bl, uint32_t mg, sched s, int corrupt)
{
    vec sg = {0}, dl = {0}, nw = {0}; runinfo ri; rs_result r; uint64_t h = 7;
    rs_job_t *j = rs_sig_begin(bl, 8, (rs_magic_number)mg); r = run_job(j, o, on, s, &sg, &ri); h = hstats(rs_job_statistics(j), h); rs_job_free(j); h = mc_hash(sg.p, sg.n, h + (uint64_t)r);
    if (corrupt & 1 && sg.n > 12) sg.n--;
    rs_signature_t *ss = NULL; j = rs_loadsig_begin(&ss); r = run_job(j, sg.p, sg.n, s, &nw, &ri); h = hstats(rs_job_statistics(j), h + (uint64_t)r); rs_job_free(j);
    if (r == RS_DONE) { r = rs_build_hash_table(ss); h += (uint64_t)r * 31;
        j = rs_delta_begin(ss); r = run_job(j, n, nn, s, &dl, &ri); h = hstats(rs_job_statistics(j), h); rs_job_free(j); h = mc_hash(dl.p, dl.n, h + (uint64_t)r);
        if (corrupt & 2) dl.p[dl.n / 2] = 0x99;
        if (corrupt & 4) dl.n--;
        mbasis b = {o, on, 0, corrupt & 3, NULL, 0}; nw.n = 0;
        j = rs_patch_begin(mem_copy, &b); r = run_job(j, dl.p, dl.n, s, &nw, &ri); h = hstats(rs_job_statistics(j), h); rs_job_free(j); h = mc_hash(nw.p, nw.n, h + (uint64_t)r); }
    rs_free_sumset(ss); free(sg.p); free(dl.p); free(nw.p);
    rs_magic_number m = (rs_magic_number)(mg ^ (corrupt == 7 ? 0x100 : 0)); size_t b2 = corrupt & 1 ? SIZE_MAX : 0, s2 = corrupt & 2 ? 1 : 0; r = rs_sig_args(corrupt & 4 ? 1 << 30 : -1, &m, &b2, &s2); h = mc_mix(h + (uint64_t)r * 77 + b2 + s2);
    M->w->evals++;
    return h;
}
static void c23_trace(int th)
{
    /* the operations at every level and with every kind of sink give what they give with logging off */
    static const sched SS[] = {{0, 0, 0, 0}, {1, 1, 0, 0}, {3, 2, 1, 0}};
    for (int on = 0; on < 6; on++) for (int ob = 0; ob < 1 << on; ob += 1 + (on > 3 && !th)) for (int nn = 0; nn < 6; nn++) {
        if (!mc_case()) continue;
        mc_desc("old file of %d letters (#%d) against every new file of %d letters at every log level and sink", on, ob, nn);
        u8 o[8], n[8]; for (int i = 0; i < on; i++) o[i] = (u8)(ob >> i & 1 ? 'a' : 200);
        for (int nb = 0; nb < 1 << nn; nb++) for (int bl = 1; bl <= 3; bl++) for (int si = 0; si < 3; si++) for (int c = 0; c < 8; c += 1 + (nb & 1)) {
            uint32_t mg = ref_magics[(nb + bl) & 3];
            for (int i = 0; i < nn; i++) n[i] = (u8)(nb >> i & 1 ? 'a' : 200);
            rs_trace_to(NULL); rs_trace_set_level(RS_LOG_EMERG); uint64_t h0 = ops(o, (size_t)on, n, (size_t)nn, (size_t)bl, mg, SS[si], c);
            for (int l = 0; l < 8; l++) for (int k = 0; k < 2; k++) {
                if ((l != 7 && l != 4 && l != 3) && (nb || k)) continue;
                rs_trace_to(k ? sink : NULL); rs_trace_set_level((rs_loglevel)l); SK->calls = 0; SK->level = -1;
                uint64_t h = ops(o, (size_t)on, n, (size_t)nn, (size_t)bl, mg, SS[si], c);
                MC_CHECK(h == h0, "log level %d with sink %d changes an output, result or statistic (old %d letters #%d, new %d letters #%d, block_len %d)", l, k, on, ob, nn, nb, bl);
                MC_CHECK(k || !SK->calls, "a message reached a sink that was not chosen");
                MC_CHECK(SK->calls == 0 || SK->level <= l, "a message of severity %d delivered at level %d", SK->level, l);
                MC_CHECK(!SK->unterminated, "unterminated message");
            }
            mc_distinct(h0);
        }
    }
    /* big buffers and many blocks with tracing on; sections with the greatest strong length */
    for (int m = 0; m < 4; m++) for (int bl = 0; bl < 3; bl++) {
        if (!mc_case()) continue;
        static const size_t B[] = {7, 64, 2048}; mc_desc("100 KB files at every level, magic %#x", ref_magics[m]);
        u8 *o = malloc(100000), *n = malloc(110000); mc_fill(o, 100000, 3); memcpy(n, o + 500, 60000); mc_fill(n + 60000, 20000, 9); memcpy(n + 80000, o, 30000);
        uint64_t h0 = 0;
        for (int l = -1; l < 8; l++) { rs_trace_to(l < 0 ? NULL : sink); rs_trace_set_level((rs_loglevel)(l < 0 ? 0 : l)); uint64_t h = ops(o, 100000, n, 110000, B[bl], ref_magics[m], ONESHOT, 0); if (l < 0) h0 = h; MC_CHECK(h == h0, "log level %d changes an output, result or statistic", l); }
        free(o); free(n);
    }
}
static int has(const char *t, long long v) { char b[40]; sprintf(b, "%lld", v); const char *p = t; size_t l = strlen(b); while ((p = strstr(p, b))) { if (!(p > t && p[-1] >= '0' && p[-1] <= '9') && !(p[l] >= '0' && p[l] <= '9')) return 1; p++; } return 0; }
/* statistics text: every number of every field group appears in full, whatever its size */
static void c_stext(void)
{
    static const long long MAG[] = {10, 1000, 65500, 1234567, 2147483600LL, 2147483650LL, 4294967290LL, 4294967300LL, 5000000000LL, 1000000000000LL, 4611686018427387904LL, INT64_MAX - 20};
    char *t = malloc(4000);
    for (int mag = 0; mag < NEL(MAG); mag++) for (int mask = 0; mask < 16; mask++) {
        if (!mc_case()) continue;
        mc_desc("statistics text: fields %#x, numbers from %lld", mask, MAG[mag]);
        rs_stats_t s; memset(&s, 0, sizeof s); long long v = MAG[mag]; int vi = v > INT_MAX - 20 ? INT_MAX - 20 : (int)v;
        s.op = "delta";
        if (mask & 1) { s.lit_cmds = vi + 1; s.lit_bytes = v + 2; s.lit_cmdbytes = v + 3; }
        if (mask & 2) { s.copy_cmds = v + 4; s.copy_bytes = v + 5; s.copy_cmdbytes = v + 6; }
        if (mask & 4) { s.sig_blocks = v + 7; s.block_len = (size_t)v + 8; }
        if (mask & 8) { s.in_bytes = v; s.out_bytes = v / 3; }
        rs_format_stats(&s, t, 4000); M->w->evals++; mc_distinct(mc_hash(t, strlen(t), 8));
        MC_CHECK(!(mask & 1) || (has(t, s.lit_cmds) && has(t, s.lit_bytes) && has(t, s.lit_cmdbytes)), "statistics text lacks a literal number (%lld commands, %lld bytes, %lld command bytes): %.300s", (long long)s.lit_cmds, (long long)s.lit_bytes, (long long)s.lit_cmdbytes, t);
        MC_CHECK(!(mask & 2) || (has(t, s.copy_cmds) && has(t, s.copy_bytes) && has(t, s.copy_cmdbytes)), "statistics text lacks a copy number (%lld commands, %lld bytes, %lld command bytes): %.300s", (long long)s.copy_cmds, (long long)s.copy_bytes, (long long)s.copy_cmdbytes, t);
        MC_CHECK(!(mask & 4) || (has(t, s.sig_blocks) && has(t, (long long)s.block_len)), "statistics text lacks a signature number (%lld blocks of %lld): %.300s", (long long)s.sig_blocks, (long long)s.block_len, t);
        MC_CHECK(!strstr(t, " inf") && !strstr(t, "(inf") && !strstr(t, "nan"), "statistics text of an operation that took no time has numbers that are none: %.300s", t);
        char a[60], b[60]; sprintf(a, "%.1f", (double)s.in_bytes / 1e6); sprintf(b, "%.1f", (double)s.out_bytes / 1e6);
        MC_CHECK(!(mask & 8) || (strstr(t, a) && strstr(t, b)), "statistics text lacks the megabytes read or written (%s, %s): %.300s", a, b, t);
    }
    free(t);
}
/* listing a signature: every block in order, in full, at the level of information only; nothing changes */
static struct { long n; char t[40][400]; int lv; } DL;
static void dsink(rs_loglevel l, char const *m) { if (DL.n < 40) { strncpy(DL.t[DL.n], m, 399); DL.t[DL.n][399] = 0; } DL.n++; if ((int)l > DL.lv) DL.lv = (int)l; }
static void c_dump(void)
{
    for (int m = 0; m < 4; m++) for (int sl = 1; sl <= ((m & 1) ? 32 : 16); sl++) {
        if (!mc_case()) continue;
        mc_desc("listing of signatures of 0 to 20 blocks, magic %#x, strong sums of %d bytes", ref_magics[m], sl);
        for (int nb = 0; nb <= 20; nb++) for (int idx = 0; idx < 2; idx++) {
            size_t n = 12 + (size_t)nb * (4 + (size_t)sl); u8 *d = malloc(n), *nw = malloc(2000); rs_result r; ref_put4(d, ref_magics[m]); ref_put4(d + 4, 30); ref_put4(d + 8, (uint32_t)sl); mc_fill(d + 12, n - 12, nb * 37 + sl); mc_fill(nw, 2000, 4);
            rs_signature_t *ss = NULL; rs_job_t *j = rs_loadsig_begin(&ss); vec o = {0}, d1 = {0}, d2 = {0}; runinfo ri; r = run_job(j, d, n, ONESHOT, &o, &ri); rs_job_free(j); MC_CHECK(r == RS_DONE, "load: %d", RES(r));
            rs_build_hash_table(ss); j = rs_delta_begin(ss); run_job(j, nw, 2000, ONESHOT, &d1, &ri); rs_job_free(j);
            rs_trace_to(dsink);
            rs_trace_set_level(RS_LOG_NOTICE); memset(&DL, 0, sizeof DL); rs_sumset_dump(ss); MC_CHECK(DL.n == 0, "%ld lines of the listing at a level that excludes information", DL.n);
            rs_trace_set_level(RS_LOG_INFO); memset(&DL, 0, sizeof DL); rs_sumset_dump(ss); M->w->evals++;
            rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
            MC_CHECK(DL.n == nb + 1 && DL.lv <= RS_LOG_INFO, "%ld lines (level %d) for a signature of %d blocks", DL.n, DL.lv, nb);
            for (int i = 0; i < nb; i++) { char hx[80]; for (int q = 0; q < sl; q++) sprintf(hx + 2 * q, "%02x", d[12 + i * (4 + sl) + 4 + q]);
                MC_CHECK(strstr(DL.t[i + 1], hx) && strlen(hx) == 2u * (unsigned)sl && has(DL.t[i + 1], i), "block %d of %d is listed as: %.300s (its strong sum is %s)", i, nb, DL.t[i + 1], hx); }
            j = rs_delta_begin(ss); run_job(j, nw, 2000, ONESHOT, &d2, &ri); rs_job_free(j);
            MC_CHECK(vec_eq(&d1, d2.p, d2.n), "listing a signature changed a later delta");
            rs_free_sumset(ss); free(o.p); free(d1.p); free(d2.p); free(d); free(nw);
        }
        mc_distinct(mc_mix((uint64_t)m * 64 + (uint64_t)sl + 99991));
    }
}
static struct { int depth, max, n, l2, bad; char buf[1100]; } NS;
static void nest_sink(rs_loglevel l, char const *m)
{
    char keep[1200], t[1100]; size_t k = strlen(m); (void)l; if (k >= sizeof keep) { NS.bad = 1; return; }
    memcpy(keep, m, k + 1); NS.n++;
    if (NS.depth < NS.max) { NS.depth++; memset(t, 'a' + NS.depth, (size_t)NS.l2); t[NS.l2] = 0; rs_log0(RS_LOG_INFO, "inner", "%s", t); }
    if (strcmp(keep, m)) NS.bad = 1;
}
static void c23(int th)
{
    SK = mc_mapp(sizeof *SK);
    /* nothing has been configured yet in this process: the initial settings */
    int dflt = 0;
    {
        int fd = memfd_create("err", 0), sv = dup(2); if (fd < 0 || sv < 0) _exit(99);
        fflush(stderr); dup2(fd, 2);
        for (int l = 0; l < 8; l++) { char mm[20]; sprintf(mm, "<initial%d>", l); rs_log0(l, "fn", "%s", mm); }
        fflush(stderr); dup2(sv, 2); close(sv);
        char t[4000]; ssize_t n = pread(fd, t, sizeof t - 1, 0); if (n < 0) _exit(99); t[n] = 0; close(fd);
        for (int l = 0; l < 8; l++) { char mm[20]; sprintf(mm, "<initial%d>", l); if (strstr(t, mm)) dflt |= 1 << l; }
    }
    if (mc_case()) { mc_desc("initial trace level and destination"); MC_CHECK((dflt & 0x1f) == 0x1f, "without any configuration, messages of severity mask %#x reach standard error (errors and warnings should)", dflt); M->w->evals++; }
    if (strstr(M->mode, "-trace")) { c23_trace(th); return; }
    mc_win w = mc_win_new(1 << 16); char *full = malloc(20000);
    static const char *OP[] = {NULL, "", "delta", "x"}; char *longop = malloc(1501); memset(longop, 'o', 1500); longop[1500] = 0;
    c_stext(); c_dump();
    /* A: statistics text, every combination of fields, every buffer size */
    for (int mask = 0; mask < 64; mask++) for (int mag = 0; mag < 4; mag++) for (int op = 0; op < 5; op++) {
        if (!mc_case()) continue;
        static const long long MAG[] = {1, 1234567, 2147483647LL, INT64_MAX};
        rs_stats_t s; memset(&s, 0, sizeof s); long long v = MAG[mag]; int vi = v > INT_MAX ? INT_MAX : (int)v;
        mc_desc("statistics text: fields %#x, magnitude %lld, operation %d, every buffer size", mask, v, op);
        s.op = op == 4 ? longop : (char *)(uintptr_t)OP[op];
        if (mask & 1) { s.lit_cmds = vi; s.lit_bytes = v - 1 > 0 ? v - 1 : 1; s.lit_cmdbytes = v; }
        if (mask & 2) { s.sig_cmds = v; s.sig_bytes = v; }
        if (mask & 4) { s.copy_cmds = v; s.copy_bytes = v; s.copy_cmdbytes = v; }
        if (mask & 8) s.false_matches = vi;
        if (mask & 16) { s.sig_blocks = v; s.block_len = (size_t)v; }
        if (mask & 32) { s.in_bytes = v; s.out_bytes = v; s.start = 0; s.end = (time_t)(mag == 0 ? 0 : 7); }
        memset(full, 0x66, 20000); char *r = rs_format_stats(&s, full, 20000);
        MC_CHECK(r == full && memchr(full, 0, 20000), "statistics text not terminated or wrong pointer returned");
        size_t L = strlen(full);
        MC_CHECK(!(mask & 1) || (has(full, s.lit_cmds) && has(full, s.lit_bytes) && has(full, s.lit_cmdbytes)), "statistics text lacks the literal numbers: %.300s", full);
        MC_CHECK(!(mask & 4) || (has(full, s.copy_cmds) && has(full, s.copy_bytes) && has(full, s.copy_cmdbytes)), "statistics text lacks the copy numbers: %.300s", full);
        MC_CHECK(!(mask & 16) || (has(full, s.sig_blocks) && has(full, (long long)s.block_len)), "statistics text lacks the signature numbers: %.300s", full);
        MC_CHECK(!s.op || !*s.op || strstr(full, s.op), "statistics text lacks the operation");
        for (size_t z = 1; z <= L + 3; z += (op == 4 && z > 20 && z < 1480 ? 97 : 1)) {
            char *b = (char *)w.end - z; memset(b - 8, 0x66, z + 8);
            MC_CHECK(rs_format_stats(&s, b, z) == b, "wrong pointer returned");
            MC_CHECK(memchr(b, 0, z), "statistics text of %zu characters not terminated in a buffer of %zu", L, z);
            MC_CHECK(b[-1] == 0x66, "statistics text written before the buffer");
            if (z > L) MC_CHECK(!strcmp(b, full), "statistics text of %zu characters fits in %zu but is incomplete", L, z);
            M->w->evals++;
        }
        mc_distinct(mc_hash(full, L, 3));
        rs_trace_to(sink); rs_trace_set_level(RS_LOG_INFO); SK->calls = 0; rs_log_stats(&s); MC_CHECK(SK->calls == 1 && !SK->unterminated, "rs_log_stats delivered %ld messages", SK->calls);
        if (L < 900) MC_CHECK(strstr(SK->text, full), "rs_log_stats does not log the full text");
        MC_CHECK(!strstr(SK->text, "rs_log_stats"), "the function name is in a message flagged to hide it");
        rs_trace_set_level(RS_LOG_NOTICE); SK->calls = 0; rs_log_stats(&s); MC_CHECK(SK->calls == 0, "informational message delivered at notice level");
    }
    /* A2: a sink that itself logs (also what it was given): each message keeps its text until the sink returns */
    for (int d = 1; d <= 4; d++) for (int l1 = 0; l1 < 1000; l1 += d == 1 ? 1 : 111) {
        if (!mc_case()) continue;
        mc_desc("sink that logs %d more messages inside, outer message of %d characters", d, l1);
        for (int l2 = 0; l2 < 1000; l2 += 37) { NS.max = d; NS.depth = NS.n = 0; NS.l2 = l2; NS.bad = 0; memset(NS.buf, 'q', (size_t)l1); NS.buf[l1] = 0; rs_trace_to(nest_sink); rs_trace_set_level(RS_LOG_DEBUG); rs_log0(RS_LOG_INFO, "outer", "%s", NS.buf); rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG); M->w->evals++;
            MC_CHECK(!NS.bad && NS.n == d + 1, "a message changed while it was being delivered (%d delivered, nested %d deep)", NS.n, d); }
        mc_distinct(mc_mix((uint64_t)d * 4096 + (uint64_t)l1 + 5150));
    }
    /* B: level filter and message bounds for every level, flag, length */
    for (int set = 0; set < 8; set++) for (int lvl = 0; lvl < 8; lvl++) for (int fl = 0; fl < 2; fl++) {
        if (!mc_case()) continue;
        mc_desc("messages of severity %d at level %d, flags %d, every length up to 1300", lvl, set, fl);
        static const char *FN[] = {"", "f", "rs_some_function_name", "a_function_with_a_very_long_name_that_does_not_fit_into_the_slack_of_the_message_buffer"};
        char *m = malloc(1400);
        for (int fi = 0; fi < 4; fi++) for (int len = 0; len <= 1300; len += (len < 40 || len > 940) ? 1 : 37) {
            for (int i = 0; i < len; i++) m[i] = (char)(len % 3 == 2 && i % 29 == 7 ? '%' : 'a' + i % 23);
            m[len] = 0; rs_trace_set_level((rs_loglevel)set);
            for (int k = 0; k < 3; k++) {
                rs_trace_to(k == 0 ? sink : k == 1 ? sink2 : NULL); SK->calls = 0; SK->unterminated = 0; SK->len = 0;
                rs_log0(lvl | (fl ? RS_LOG_NONAME : 0), FN[fi], "%s", m);
                long want = lvl <= set ? (k == 0 ? 1 : k == 1 ? 1000000 : 0) : 0;
                MC_CHECK(SK->calls == want, "message of severity %d at level %d: %ld calls of the sink, expected %ld", lvl, set, SK->calls, want);
                if (k == 0 && want) {
                    MC_CHECK(SK->level == lvl, "sink told severity %d for a message of severity %d", SK->level, lvl);
                    MC_CHECK(!SK->unterminated && SK->len < 2000, "message not terminated");
                    if (fl && fi >= 2) MC_CHECK(!strstr(SK->text, FN[fi]), "the function name is in a message flagged to hide it");
                    if (len < 900) MC_CHECK(strstr(SK->text, m), "message text of %d characters not delivered", len);
                    else { char keep = m[900]; m[900] = 0; MC_CHECK(strstr(SK->text, m), "long message text lost"); m[900] = keep; }
                }
                M->w->evals++;
            }
        }
        free(m);
    }
    /* C: the default sink is standard error; result descriptions */
    if (mc_case()) {
        mc_desc("rs_strerror of every result code; messages to standard error");
        static const int RC[] = {RS_DONE, RS_BLOCKED, RS_RUNNING, RS_TEST_SKIPPED, RS_IO_ERROR, RS_SYNTAX_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BAD_MAGIC, RS_UNIMPLEMENTED, RS_CORRUPT, RS_INTERNAL_ERROR, RS_PARAM_ERROR};
        const char *d[16];
        for (int i = 0; i < NEL(RC); i++) { d[i] = rs_strerror((rs_result)RC[i]); MC_CHECK(d[i] && *d[i], "no description for result %d", RC[i]); if (RC[i] != RS_TEST_SKIPPED) { MC_CHECK(strcmp(d[i], rs_strerror((rs_result)99)), "result %d is described like an unknown code", RC[i]); for (int k = 0; k < i; k++) MC_CHECK(RC[k] == RS_TEST_SKIPPED || strcmp(d[i], d[k]), "results %d and %d share a description", RC[i], RC[k]); } M->w->evals++; }
        for (int i = -1000; i < 1000; i++) MC_CHECK(rs_strerror((rs_result)i), "rs_strerror(%d) is NULL", i);
    }
    for (int set = 0; set < 8; set++) {
        if (!mc_case()) continue;
        mc_desc("standard error sink at level %d", set);
        int fd = memfd_create("err", 0), sv = dup(2); if (fd < 0 || sv < 0) _exit(99);
        fflush(stderr); dup2(fd, 2); rs_trace_to(rs_trace_stderr); rs_trace_set_level((rs_loglevel)set);
        for (int l = 0; l < 8; l++) { char mm[60]; sprintf(mm, "<message%d %%d %%c%%%% %%s %%5$x>", l); rs_log0(l, "fn", "%s", mm); }
        fflush(stderr); dup2(sv, 2); close(sv);
        char t[4000]; ssize_t n = pread(fd, t, sizeof t - 1, 0); if (n < 0) _exit(99); t[n] = 0; close(fd);
        for (int l = 0; l < 8; l++) { char mm[60]; sprintf(mm, "<message%d %%d %%c%%%% %%s %%5$x>", l); MC_CHECK(!!strstr(t, mm) == (l <= set), "severity %d at level %d wrongly %s standard error", l, set, l <= set ? "missing from" : "written to"); M->w->evals++; }
        rs_trace_to(sink);
    }
    /* C2: the message about a file that cannot be opened, for names of every length */
    for (int len = 1; len <= 4200; len += (len < 30 || (len > 900 && len < 1100)) ? 1 : 41) {
        if (!mc_case()) continue;
        mc_desc("rs_file_open of a missing file with a name of %d characters, messages to standard error", len);
        for (int set = RS_LOG_CRIT; set <= RS_LOG_DEBUG; set++) {
            int fd = memfd_create("err", 0); if (fd < 0) _exit(99);
            char *nm = malloc((size_t)len + 1); for (int i = 0; i < len; i++) nm[i] = i % 97 == 50 ? '/' : i % 31 == 3 ? '%' : (char)('a' + i % 23); nm[len] = 0;
            pid_t pid = fork(); if (pid < 0) _exit(99);
            if (!pid) { dup2(fd, 2); rs_trace_to(rs_trace_stderr); rs_trace_set_level((rs_loglevel)set); FILE *f = rs_file_open(nm, "rb", 0); fflush(stderr); _exit(f ? 77 : 76); }
            int st; waitpid(pid, &st, 0); char t[8000]; ssize_t n = pread(fd, t, sizeof t - 1, 0); if (n < 0) _exit(99); t[n] = 0; close(fd);
            MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 0, "status %#x", st);
            if (set < RS_LOG_ERR) MC_CHECK(n == 0, "the message is delivered at level %d", set);
            else {
                if (len > 900) nm[900] = 0;
                MC_CHECK(strstr(t, nm), "the message does not name the file"); MC_CHECK(n && t[n - 1] == '\n' && !memchr(t, '\n', (size_t)n - 1), "the message is not one line");
                if (len < 900) MC_CHECK(strstr(t, strerror(len > 4095 ? ENAMETOOLONG : ENOENT)) || len > 200, "the message does not give the reason");
            }
            free(nm); M->w->evals++; mc_distinct((uint64_t)len * 8 + (uint64_t)set + 88000000);
        }
    }
    /* D: real library messages obey the filter */
    for (int set = 0; set < 8; set++) for (int i = 0; i < 4; i++) {
        if (!mc_case()) continue;
        mc_desc("library messages for bad parameters at level %d", set);
        rs_trace_to(sink); rs_trace_set_level((rs_loglevel)set); SK->calls = 0; SK->level = -1;
        rs_magic_number m = (rs_magic_number)(i == 0 ? 0x1234 : 0); size_t bl = 0, sl = i == 1 ? 99 : i == 2 ? 1 : 0; rs_sig_args(1 << 30, &m, &bl, &sl);
        if (i < 2) MC_CHECK((SK->calls == 1) == (set >= RS_LOG_ERR), "error message about bad parameters: %ld messages at level %d", SK->calls, set);
        if (i == 2) MC_CHECK((SK->calls == 1) == (set >= RS_LOG_WARNING), "warning about a short strong sum: %ld messages at level %d", SK->calls, set);
        if (i == 3) MC_CHECK(SK->calls == 0 || set == RS_LOG_DEBUG, "unexpected message");
        M->w->evals++;
    }
}
static void run(void)
{
    const char *m = M->mode; SAN = !!strstr(m, "-san");
    if (!strncmp(m, "C15", 3)) c15(M->thorough);
    else if (!strncmp(m, "C16", 3)) c16(M->thorough);
    else if (!strncmp(m, "C19", 3)) c19(M->thorough);
    else if (!strncmp(m, "C22", 3)) c22(M->thorough);
    else if (!strncmp(m, "C23", 3)) c23(M->thorough);
    else if (!strcmp(m, "C18-text") || !strcmp(m, "C24-text")) c_stext();
    else _exit(99);
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
