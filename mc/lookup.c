/* C17: looking up blocks in a loaded signature, against a linear search. */
#include "api.h"
#include "sumset.h"
static int SAN;
#define NEL(a) ((int)(sizeof(a) / sizeof *(a)))
static uint32_t mix(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
static uint32_t modinv(uint32_t a) { uint32_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static uint32_t unmix(uint32_t h) { h ^= h >> 16; h *= modinv(0xc2b2ae35u); h ^= h >> 13 ^ h >> 26; h *= modinv(0x85ebca6bu); h ^= h >> 16; return h; }
/* a model signature: entries (weak as looked up, content id) */
typedef struct { uint32_t weak; int id; } ent;
#define NBUF 40
typedef struct { uint8_t data[NBUF][24]; size_t len[NBUF]; uint8_t st[4][NBUF][32]; vec sg; } BUFS;
static BUFS *B;
/* Candidates whose one-byte truncated strong sums collide are wanted too: ids 1 and 2 share the first byte of their sums of type mi. */
static void mkbufs(void)
{
    B = calloc(1, sizeof *B);
    for (int i = 0; i < NBUF; i++) { B->len[i] = 8 + (size_t)(i % 9); mc_fill(B->data[i], 24, 900 + (uint64_t)i); for (int m = 0; m < 4; m++) ref_strong(ref_magics[m], B->st[m][i], B->data[i], B->len[i]); }
    for (int m = 0; m < 4; m += 1) (void)m;
    /* make id 2 collide with id 1 in the first strong byte for every type, by search over its content */
    uint64_t n = 0; int k;
    do { mc_fill(B->data[2], 24, 50000 + n++); for (k = 0; k < 4; k++) { ref_strong(ref_magics[k], B->st[k][2], B->data[2], B->len[2]); if (B->st[k][2][0] != B->st[k][1][0]) break; } } while (k < 4);
}
static rs_signature_t *load(const ent *e, size_t n, int mi, size_t sl, size_t bl, int file)
{
    uint32_t magic = ref_magics[mi]; rs_result r; rs_signature_t *s = NULL;
    vec_need(&B->sg, 12 + n * (4 + sl)); B->sg.n = 12 + n * (4 + sl);
    ref_put4(B->sg.p, magic); ref_put4(B->sg.p + 4, (uint32_t)bl); ref_put4(B->sg.p + 8, (uint32_t)sl);
    for (size_t i = 0; i < n; i++) { uint8_t *p = B->sg.p + 12 + i * (4 + sl); ref_put4(p, ref_is_rk(magic) ? e[i].weak : unmix(e[i].weak)); memcpy(p + 4, B->st[mi][e[i].id], sl); }
    if (file) { FILE *f = fmemopen(B->sg.p, B->sg.n, "rb"); FILE *t = f; if (file == 2) { t = tmpfile(); if (!t || fwrite(B->sg.p, 1, B->sg.n, t) != B->sg.n) _exit(99); rewind(t); fclose(f); } if (!t) _exit(99);
        r = rs_loadsig_file(t, &s, NULL); fclose(t); MC_CHECK(r == RS_DONE, "rs_loadsig_file failed: %d", RES(r)); r = rs_build_hash_table(s); MC_CHECK(r == RS_DONE, "rs_build_hash_table failed: %d", RES(r)); return s; }
    s = load_sig(B->sg.p, B->sg.n, ONESHOT, &r);
    MC_CHECK(s, "loading a signature of %zu entries failed: %d", n, RES(r));
    return s;
}
static int64_t linear(const ent *e, size_t n, int mi, size_t sl, size_t bl, uint32_t w, int id)
{
    for (size_t i = 0; i < n; i++) if (e[i].weak == w && !memcmp(B->st[mi][e[i].id], B->st[mi][id], sl)) return (int64_t)(i * bl);
    return -1;
}
static void look(rs_signature_t *s, const ent *e, size_t n, int mi, size_t sl, size_t bl, uint32_t w, int id)
{
    int64_t want = linear(e, n, mi, sl, bl, w, id), got = (int64_t)rs_signature_find_match(s, w, B->data[id], B->len[id]);
    M->w->evals++;
    if (got != want) { char b[600] = ""; for (size_t i = 0; i < n && i < 24; i++) sprintf(b + strlen(b), "(%08x,%d) ", e[i].weak, e[i].id);
        mc_fail("signature of %zu blocks %s, strong_len %zu: lookup of weak %08x content %d gives %lld, expected %lld", n, b, sl, w, id, (long long)got, (long long)want); }
}
static void run(void)
{
    int th = M->thorough; SAN = !!strstr(M->mode, "-san");
    mkbufs();
    /* A: all signatures of up to 4 entries over weak sums x contents, all lookups, three rounds in different orders */
    static const uint32_t W[2][5] = { {0, 0xffffffffu, 1, 0x80000000u, 0x7ffffff9u}, {0xffffffffu, 0, 0xfffffff7u, 0x00000008u, 0x40000000u} };
    for (int ws = 0; ws < 2; ws++) for (int mi = 0; mi < 4; mi++) for (int n = 0; n <= 4; n++) for (int first = 0; first < 15; first++) {
        if ((SAN && n > 2) || (!th && n == 4 && (mi == 1 || mi == 2))) continue;
        if (n == 0 && first) continue;
        if (!mc_case()) continue;
        mc_desc("all signatures of %d entries over 5 weak sums x 3 contents (first entry %d), magic %#x, every lookup", n, first, ref_magics[mi]);
        long tot = 1; for (int k = 1; k < n; k++) tot *= 15;
        for (long c = 0; c < tot; c++) for (int si = 0; si < 2; si++) {
            ent e[6]; long x = c; size_t sl = si ? 1 : 5, bl = 8;
            for (int k = 0; k < n; k++) { int v = k ? (int)(x % 15) : first; if (k) x /= 15; e[k].weak = W[ws][v / 3]; e[k].id = v % 3; }
            rs_signature_t *s = load(e, (size_t)n, mi, sl, bl, 0);
            for (int round = 0; round < 3; round++) for (int q = 0; q < 20; q++) { int z = round == 1 ? 19 - q : round == 2 ? (q * 7) % 20 : q; look(s, e, (size_t)n, mi, sl, bl, W[ws][z / 4], z % 4); }
            rs_free_sumset(s); M->w->transitions += 60; M->w->states++;
            mc_distinct(mc_hash(B->sg.p, B->sg.n, 17));
        }
    }
    /* A': five and six entries over fewer values */
    for (int mi = 0; mi < 4; mi += 3) for (int n = 5; n <= (th ? 7 : 6); n++) for (int first = 0; first < 4; first++) {
        if (SAN || !mc_case()) continue;
        mc_desc("all signatures of %d entries over weak sums {0,~0} x 2 contents (first %d), magic %#x", n, first, ref_magics[mi]);
        long tot = 1; for (int k = 1; k < n; k++) tot *= 4;
        for (long c = 0; c < tot; c++) { ent e[8]; long x = c; for (int k = 0; k < n; k++) { int v = k ? (int)(x & 3) : first; if (k) x >>= 2; e[k].weak = v & 1 ? 0xffffffffu : 0; e[k].id = 1 + (v >> 1); }
            for (size_t sl = 1; sl <= 8; sl += 7) { rs_signature_t *s = load(e, (size_t)n, mi, sl, 4, 0); for (int r = 0; r < 2; r++) for (int id = 0; id < 4; id++) { look(s, e, (size_t)n, mi, sl, 4, 0, id); look(s, e, (size_t)n, mi, sl, 4, 0xffffffffu, id); look(s, e, (size_t)n, mi, sl, 4, 0xfffffffeu, id); } rs_free_sumset(s); } M->w->states++; }
    }
    /* B: many entries in one bucket, one bloom bit, or the same weak sum; every count */
    for (int kind = 0; kind < 7; kind++) for (int mi = 0; mi < 4; mi++) for (int n0 = 0; n0 < 400; n0 += 20) {
        if (SAN && n0 > 60) continue;
        if (!mc_case()) continue;
        mc_desc("%d..%d entries, weak sums pattern %d (same low bits / same high bits / equal / runs / extremes), magic %#x", n0, n0 + 19, kind, ref_magics[mi]);
        for (int n = n0; n < n0 + 20; n += (n > 100 && !th) ? 7 : 1) {
            ent e[420];
            for (int i = 0; i < n + 10; i++) {
                uint32_t w = kind == 0 ? (uint32_t)i << 12 : kind == 1 ? 0xfff00000u | (uint32_t)i : kind == 2 ? 0xabcd1234u : kind == 3 ? (uint32_t)(i / 7) * 0x01000193u : kind == 4 ? (i & 1 ? 0xffffffffu - (uint32_t)i : (uint32_t)i) : kind == 5 ? 0xffffffffu - (uint32_t)i * 512 : (uint32_t)i * 2654435761u;
                e[i].weak = w; e[i].id = kind == 2 ? (i % NBUF) : kind == 3 ? i % 11 : (i * 5) % NBUF;
            }
            for (int f = 0; f < 3; f += 2) {
                size_t sl = (n & 1) ? 3 : 16, bl = 512;
                rs_signature_t *s = load(e, (size_t)n, mi, sl, bl, f);
                for (int r = 0; r < 2; r++) for (int i = 0; i < n + 10; i++) { int k = r ? n + 9 - i : i; look(s, e, (size_t)n, mi, sl, bl, e[k].weak, e[k].id); look(s, e, (size_t)n, mi, sl, bl, e[k].weak, (e[k].id + 1) % NBUF); look(s, e, (size_t)n, mi, sl, bl, e[k].weak ^ 0x00100000u, e[k].id); }
                rs_free_sumset(s); M->w->states++; M->w->transitions += (uint64_t)(n + 10) * 6;
            }
            mc_distinct(mc_hash(B->sg.p, B->sg.n, 18));
        }
    }
    /* C: counts around every table and array growth step, distinct weak sums; every block looked up (position in O(1): weak sums are unique) */
    for (int e2 = 4; e2 <= (SAN ? 10 : th ? 23 : 20); e2++) for (int step = 0; step < 6; step++) for (int mi = 0; mi < 4; mi += 3) {
        size_t p2 = (size_t)1 << e2, n = step == 0 ? p2 - 1 : step == 1 ? p2 : step == 2 ? p2 + 1 : step == 3 ? p2 * 7 / 10 - 1 : step == 4 ? p2 * 7 / 10 : p2 * 7 / 10 + 1;
        if (!mc_case()) continue;
        mc_desc("%zu blocks with distinct weak sums, magic %#x: each and its absent neighbours", n, ref_magics[mi]);
        ent *e = malloc(n * sizeof *e);
        for (size_t i = 0; i < n; i++) { e[i].weak = (uint32_t)i * 0x9E3779B1u; e[i].id = (int)(i % NBUF); }        /* odd multiplier: distinct; includes 0 */
        rs_signature_t *s = load(e, n, mi, 8, 4096, step & 1 ? 2 : 0);
        for (size_t i = 0; i < n; i++) {
            int64_t g = (int64_t)rs_signature_find_match(s, e[i].weak, B->data[e[i].id], B->len[e[i].id]);
            MC_CHECK(g == (int64_t)i * 4096, "block %zu of %zu: lookup gives %lld", i, n, (long long)g);
            g = (int64_t)rs_signature_find_match(s, e[i].weak, B->data[(e[i].id + 3) % NBUF], B->len[(e[i].id + 3) % NBUF]);
            MC_CHECK(g == -1, "other content with the weak sum of block %zu of %zu is matched at %lld", i, n, (long long)g);
            uint32_t w = (uint32_t)(n + i) * 0x9E3779B1u;
            g = (int64_t)rs_signature_find_match(s, w, B->data[e[i].id], B->len[e[i].id]);
            MC_CHECK(g == -1, "absent weak sum %08x matched at %lld in a signature of %zu blocks", w, (long long)g, n);
            M->w->evals += 3; if (!(i & 4095)) mc_tick();
        }
        rs_free_sumset(s); free(e); M->w->states++;
    }
    /* C': repeated blocks among many others: always the first of them, whatever was looked up before */
    static const size_t RN[] = {40, 1000, 4100, 20000, 70000};
    for (int ni = 0; ni < (SAN ? 2 : 5); ni++) for (int kind = 0; kind < 6; kind++) for (int mi = 0; mi < 4; mi += 3) {
        if (!mc_case()) continue;
        static const char *KN[] = {"every second block the same", "every third block one of 3", "every 64th block the same", "the second half repeats the first", "runs of 4 equal blocks", "palindrome"};
        size_t n = RN[ni], h = n / 2; mc_desc("%zu blocks, %s, magic %#x: lookups in six orders", n, KN[kind], ref_magics[mi]);
        ent *e = malloc(n * sizeof *e); uint32_t *first = malloc(n * 4), *rep = malloc(n * 4);
        for (size_t i = 0; i < n; i++) {
            size_t c = kind == 0 ? (i & 1 ? i : 0) : kind == 1 ? (i % 3 ? i : i / 3 % 3 * 3) : kind == 2 ? (i & 63 ? i : 0) : kind == 3 ? i % h : kind == 4 ? i / 4 * 4 : i < h ? i : n - 1 - i;
            rep[i] = (uint32_t)c; first[i] = (uint32_t)c; e[i].weak = (uint32_t)c * 0x9E3779B1u; e[i].id = (int)(c % NBUF);
        }
        rs_signature_t *s = load(e, n, mi, 8, 4096, 1);
#define LK(i) do { size_t q_ = (i); int64_t g_ = (int64_t)rs_signature_find_match(s, e[q_].weak, B->data[e[q_].id], B->len[e[q_].id]); \
            MC_CHECK(g_ == (int64_t)first[q_] * 4096, "block %zu of %zu: lookup gives block %lld, the first such block is %u", q_, n, (long long)(g_ / 4096), first[q_]); M->w->evals++; } while (0)
#define ABSENT(i) (void)rs_signature_find_match(s, e[i].weak ^ 0x80000000u, B->data[e[i].id], B->len[e[i].id])
        for (int o = 0; o < 6; o++) for (size_t i = 0; i < n; i++) {
            if (!(i & 4095)) mc_tick();
            switch (o) {
            case 0: LK(i); break;
            case 1: LK(n - 1 - i); break;
            case 2: LK(i * 7 % n); break;
            case 3: if (i) { LK(i - 1); LK(i); LK(i); LK(i - 1); } break;
            case 4: LK(rep[i]); if (rep[i] + 1 < n) LK(rep[i] + 1); if (i + 1 < n) LK(i + 1); LK(i); break;
            default: LK(i); ABSENT(i); LK((i + h) % n); LK(i);
            }
        }
        rs_free_sumset(s); free(e); free(first); free(rep); M->w->states++; mc_distinct(mc_mix(n * 64 + (uint64_t)kind * 4 + (uint64_t)mi + 777));
    }
    /* D: real data: every window of every small file against the signature of every other */
    for (int bl = 1; bl <= 3; bl++) for (int mi = 0; mi < 4; mi++) for (int on = 0; on <= (SAN ? 4 : 7); on++) {
        if (!mc_case()) continue;
        mc_desc("real signatures of all 2-letter files of %d bytes, block_len %d, magic %#x; all strings up to the block length looked up", on, bl, ref_magics[mi]);
        for (int o = 0; o < 1 << on; o++) {
            uint8_t f[8], d[4], sg[200], st[32]; for (int i = 0; i < on; i++) f[i] = o >> i & 1 ? 'b' : 'a';
            size_t sn = ref_sig(sg, ref_magics[mi], (size_t)bl, 8, f, (size_t)on); rs_result r; rs_signature_t *s = load_sig(sg, sn, ONESHOT, &r); MC_CHECK(s, "load failed %d", RES(r));
            for (int rep = 0; rep < 2; rep++) for (int l = 1; l <= bl + 1; l++) for (int v = 0; v < 1 << l; v++) {
                for (int i = 0; i < l; i++) d[i] = v >> i & 1 ? 'b' : 'a';
                uint32_t w = ref_weak(ref_magics[mi], d, (size_t)l); if (!ref_is_rk(ref_magics[mi])) w = mix(w);
                int64_t want = -1; for (int b = 0; b * bl < on && want < 0; b++) { int k = on - b * bl < bl ? on - b * bl : bl; if (k == l && !memcmp(f + b * bl, d, (size_t)l)) want = b * bl; }
                int64_t g = (int64_t)rs_signature_find_match(s, w, d, (size_t)l); M->w->evals++; (void)st;
                MC_CHECK(g == want, "lookup of a %d byte string gives %lld, the first such block is at %lld", l, (long long)g, (long long)want);
            }
            rs_free_sumset(s);
        }
    }
    /* E: capacity of the lookup table for any number of blocks (memory is reserved lazily) */
    for (int i = 0; i < 32; i++) for (int d = 0; d < 5; d++) {
        if (SAN || !mc_case()) continue;
        int64_t n = d < 3 ? ((int64_t)1 << i) - 1 + d - (d == 2 ? 0 : 0) : ((int64_t)1 << i) * 7 / 10 + d - 4;
        if (i == 31) n = d == 0 ? INT_MAX : d == 1 ? 214748364 : d == 2 ? 214748365 : d == 3 ? 429496730 : 751619276;
        if (n > INT_MAX || n < 0) continue;
        mc_desc("lookup table for %lld blocks", (long long)n);
        hashtable_t *t = _hashtable_new((int)n); M->w->evals++;
        if (t) { MC_CHECK((int64_t)t->size > n, "table for %lld blocks has %d buckets", (long long)n, t->size); _hashtable_free(t); }
        else MC_CHECK(n > 50000000, "no table for %lld blocks", (long long)n);
    }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
