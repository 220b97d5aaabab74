/* Signature engine: C06 content of generated signatures; C09 loading of signatures (valid and malformed). */
#include "api.h"
#include "librsync.h"
static const sched S0 = {0, 0, 0, 0}, S11 = {1, 1, 0, 0}, S11L = {1, 1, 1, 0}, S37 = {3, 7, 1, 0}, SX = {0, 0, 0, 1}, SX5 = {5, 3, 1, 1};
static int SAN;
typedef struct { vec sg, rf, o, d; uint8_t *buf; } SG;
static SG *G;

static void c06_one(const uint8_t *p, size_t n, size_t bl, size_t sl, uint32_t magic, sched s)
{
    runinfo ri; G->o.n = 0;
    rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    rs_result r = run_job(j, p, n, s, &G->o, &ri);
    rs_stats_t st = *rs_job_statistics(j); (void)st;
    rs_job_free(j);
    M->w->evals++;
    MC_CHECK(!ri.bad && r == RS_DONE, "signature of %zu bytes, block_len %zu strong_len %zu magic %#x failed: %d %s", n, bl, sl, magic, RES(r), ri.bad ? ri.bad : "");
    if (!vec_eq(&G->o, G->rf.p, G->rf.n)) {
        size_t k = 0; while (k < G->o.n && k < G->rf.n && G->o.p[k] == G->rf.p[k]) k++;
        mc_fail("signature of %zu bytes (block_len %zu, strong_len %zu, magic %#x): %zu bytes, documented content has %zu, first difference at byte %zu", n, bl, sl, magic, G->o.n, G->rf.n, k);
    }
}
static void refsig(const uint8_t *p, size_t n, size_t bl, size_t sl, uint32_t magic) { vec_need(&G->rf, ref_siglen(n, bl, sl) + 16); G->rf.n = ref_sig(G->rf.p, magic, bl, sl, p, n); mc_distinct(mc_hash(G->rf.p, G->rf.n, 1)); }
static void fill(uint8_t *p, size_t n, int kind) { if (kind == 0) mc_fill(p, n, n + 1); else if (kind == 1) memset(p, 0, n); else if (kind == 2) memset(p, 0xff, n); else for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 7 + (i >> 8)); }
static void c06(int th)
{
    static const size_t bls[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 100, 119, 120, 121, 127, 128, 129, 192, 255, 256, 257, 383, 384, 385, 511, 512, 513, 1000, 1024, 2048, 4096, 65536};
    /* A: every length for each block length */
    for (int b = 0; b < 41; b++) for (int mi = 0; mi < 4; mi++) for (int k = 0; k < 4; k++) {
        size_t bl = bls[b], max = 3 * bl + 2;
        if (!th && SAN && (b % 4 || k)) continue;
        if (!mc_case()) continue;
        uint32_t magic = ref_magics[mi]; size_t sl = (size_t)ref_maxstrong(magic);
        mc_desc("signatures of every length up to %zu, block_len %zu, magic %#x, fill %d", max, bl, magic, k);
        uint8_t *p = malloc(max + 1);
        for (size_t n = 0; n <= max; n += (bl < 150 || th ? 1 : (n % bl < 2 || n % bl > bl - 3) ? 1 : bl / 16)) {
            fill(p, n, k); refsig(p, n, bl, sl, magic); c06_one(p, n, bl, sl, magic, SAN ? SX : S0); if (bl < 40) c06_one(p, n, bl, sl, magic, SAN ? SX5 : S37);
        }
        free(p);
    }
    /* B: every strong length */
    for (int mi = 0; mi < 4; mi++) for (int b = 0; b < 41; b += 3) {
        if (!mc_case()) continue;
        size_t bl = bls[b], n = 2 * bl + bl / 2; uint32_t magic = ref_magics[mi]; uint8_t *p = malloc(n + 1);
        mc_desc("every strong_len, block_len %zu, magic %#x", bl, magic);
        for (size_t sl = 1; sl <= (size_t)ref_maxstrong(magic); sl++) { fill(p, n, 0); refsig(p, n, bl, sl, magic); c06_one(p, n, bl, sl, magic, SAN ? SX : S0); c06_one(p, n, bl, sl, magic, SAN ? SX5 : (sched){bl / 2 + 1, 5, 0, 0}); }
        free(p);
    }
    /* C: every byte value in a block and every position */
    for (int mi = 0; mi < 4; mi++) for (int c = 0; c < 256; c += SAN ? 51 : 1) {
        if (!mc_case()) continue;
        uint32_t magic = ref_magics[mi]; uint8_t p[80];
        mc_desc("byte value %#x at every position and as fill, magic %#x", c, magic);
        for (size_t bl = 1; bl <= 40; bl += 3) { memset(p, c, 80); refsig(p, 80, bl, 8, magic); c06_one(p, 80, bl, 8, magic, S0);
            for (size_t q = 0; q < 40; q += 3) { fill(p, 80, 0); p[q] = (uint8_t)c; refsig(p, 80, bl, 8, magic); c06_one(p, 80, bl, 8, magic, S0); } }
    }
    /* D: many blocks; whole-file call on regular files and streams */
    static const size_t nbs[] = {0, 1, 2, 15, 16, 17, 255, 256, 257, 1000, 5000, 20000, 65535, 65536, 70001};
    for (int i = 0; i < 15; i++) for (int mi = 0; mi < 4; mi++) for (int b = 0; b < 4; b++) {
        static const size_t bb[] = {1, 16, 33, 256};
        if (SAN && nbs[i] > 1000) continue;
        if (!mc_case()) continue;
        size_t bl = bb[b], n = nbs[i] * bl + (i & 1 ? bl / 2 : 0), sl = 8; uint32_t magic = ref_magics[mi];
        mc_desc("%zu blocks of %zu, magic %#x, streaming and whole-file", nbs[i], bl, magic);
        uint8_t *p = malloc(n + 1); fill(p, n, 0); refsig(p, n, bl, sl, magic);
        c06_one(p, n, bl, sl, magic, S0); c06_one(p, n, bl, sl, magic, (sched){1000, 1000, 1, 0});
        FILE *f = tmpfile(); char *ob = NULL; size_t on = 0; FILE *o = open_memstream(&ob, &on); if (!f || !o) _exit(99);
        if (n && fwrite(p, 1, n, f) != n) _exit(99);
        rewind(f);
        rs_result r = rs_sig_file(f, o, bl, sl, (rs_magic_number)magic, NULL); fclose(o); fclose(f);
        MC_CHECK(r == RS_DONE && on == G->rf.n && !memcmp(ob, G->rf.p, on), "rs_sig_file of %zu bytes gives a wrong signature (result %d)", n, RES(r));
        free(ob); free(p);
    }
    /* F: every block length; strong length varying with it */
    for (size_t bl = 1; bl <= (th ? 5000 : SAN ? 300 : 2500); bl++) {
        if (!mc_case()) continue;
        mc_desc("block_len %zu, all types, lengths around multiples of it", bl);
        size_t max = 4 * bl + 1; uint8_t *p = malloc(max + 1);
        for (int mi = 0; mi < 4; mi++) {
            uint32_t magic = ref_magics[mi]; size_t sl = 1 + (bl + (size_t)mi * 5) % (size_t)ref_maxstrong(magic);
            static const int dn[] = {-1, 0, 1}; size_t ns[16]; int k = 0;
            for (size_t q = 1; q <= 4; q++) for (int d = 0; d < 3; d++) ns[k++] = q * bl + (size_t)dn[d];
            ns[k++] = bl / 2; ns[k++] = 2 * bl + bl / 3; ns[k++] = bl + bl / 7;
            for (int i = 0; i < k; i++) { size_t n = ns[i]; fill(p, n, (i + (int)bl) % 4); refsig(p, n, bl, sl, magic); c06_one(p, n, bl, sl, magic, SAN ? SX : i % 4 == 0 ? (sched){bl / 3 + 1, 3, 0, 0} : i % 4 == 1 ? (sched){bl + 1, 100, 1, 0} : S0); }
        }
        free(p);
    }
    /* G: defaulted parameters through the whole-file call: header as resolved, entries as documented for it */
    static const size_t gs[] = {0, 1, 2, 100, 255, 256, 257, 511, 512, 513, 1000, 2047, 2048, 2049, 5000, 65535, 65536, 65537, 70000, 147455, 147456, 147457, 262144, 300000, 1000000, 1100000};
    for (int i = 0; i < 26; i++) for (int mi = 0; mi < 5; mi++) for (int v = 0; v < 12; v++) {
        static const size_t sls[] = {0, (size_t)-1, 12}, bb[] = {0, 300};
        size_t n = gs[i], sl = sls[v % 3], bl = bb[v / 3 % 2]; int pipe_in = v >= 6; uint32_t magic = mi == 4 ? 0 : ref_magics[mi], eff = mi == 4 ? REF_RK_B2 : magic;
        if (SAN && (n > 3000 || v % 2)) continue;
        if (!mc_case()) continue;
        mc_desc("rs_sig_file of %zu bytes, %s, block_len %zu strong_len %zd magic %#x", n, pipe_in ? "size unknown" : "regular file", bl, (ssize_t)sl, magic);
        uint8_t *p = malloc(n + 1); fill(p, n, 0);
        FILE *f = pipe_in ? fmemopen(NULL, n + 1, "w+") : tmpfile(); char *ob = NULL; size_t on = 0; FILE *o = open_memstream(&ob, &on); if (!f || !o) _exit(99);
        if (pipe_in) { fclose(f); f = n ? fmemopen(p, n, "r") : fopen("/dev/null", "r"); if (!f) _exit(99); }
        else { if (n && fwrite(p, 1, n, f) != n) _exit(99); rewind(f); }
        rs_result r = rs_sig_file(f, o, bl, sl, (rs_magic_number)magic, NULL); fclose(o); fclose(f);
        MC_CHECK(r == RS_DONE && on >= 12, "rs_sig_file of %zu bytes failed (result %d)", n, RES(r));
        size_t gbl = (size_t)ref_get((uint8_t *)ob + 4, 4), gsl = (size_t)ref_get((uint8_t *)ob + 8, 4);
        MC_CHECK(ref_get((uint8_t *)ob, 4) == eff && gbl >= 1 && gbl < (1u << 31) && gsl >= 1 && gsl <= (size_t)ref_maxstrong(eff) && (!bl || bl == gbl) && (sl != 12 || gsl == 12) && (sl || gsl == (size_t)ref_maxstrong(eff)), "rs_sig_file header is wrong: type %#x block_len %zu strong_len %zu", (unsigned)ref_get((uint8_t *)ob, 4), gbl, gsl);
        refsig(p, n, gbl, gsl, eff);
        MC_CHECK(on == G->rf.n && !memcmp(ob, G->rf.p, on), "rs_sig_file of %zu bytes gives a wrong signature", n);
        M->w->evals++; free(ob); free(p);
    }
    /* E: large blocks */
    static const size_t big[] = {65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3000000};
    for (int i = 0; i < 6; i++) for (int mi = 0; mi < 4; mi++) for (int k = 0; k < 3; k++) {
        if (SAN && i > 2) continue;
        if (!mc_case()) continue;
        size_t bl = big[i], n = bl + bl / 3; uint32_t magic = ref_magics[mi]; uint8_t *p = malloc(n);
        mc_desc("blocks of %zu bytes, magic %#x, fill %d", bl, magic, k);
        fill(p, n, k); refsig(p, n, bl, 16, magic); c06_one(p, n, bl, 16, magic, S0); c06_one(p, n, bl, 16, magic, (sched){70000, 17, 0, 0}); free(p);
    }
    /* E2: every residue of the hashes' own block sizes above each power of two, and every length just below and above it */
    for (int e = 11; e <= (th ? 24 : 21); e++) for (int d = -129; d <= 258; d++) {
        if (SAN) continue;
        if (e > 19 && d % 8 && (d & 63) != 55 && (d & 63) != 56 && d * d != 1 && !th) continue;
        if (!mc_case()) continue;
        size_t bl = (size_t)((1L << e) + d), n = bl + 1 + (size_t)(d + 129); uint8_t *p = malloc(n);
        mc_desc("blocks of %zu bytes, every type", bl);
        fill(p, n, d & 1 ? 0 : 3);
        for (int mi = 0; mi < 4; mi++) { uint32_t magic = ref_magics[mi]; size_t sl = (size_t)ref_maxstrong(magic); refsig(p, n, bl, sl, magic); c06_one(p, n, bl, sl, magic, d % 3 ? S0 : (sched){bl / 2 + 3, 100, 0, 0}); mc_tick(); }
        free(p);
    }
    /* E3: very long blocks */
    for (int e = 22; e <= (th ? 30 : 28); e++) for (int d = -1; d <= 2; d++) for (int mi = 0; mi < 4; mi++) {
        if (SAN) continue;
        if (e > 26 && d != 1 && !th) continue;
        if (!mc_case()) continue;
        size_t bl = (size_t)((1L << e) + (d == 2 ? 77 : d)), n = bl + 100; uint8_t *p = malloc(n);
        mc_desc("blocks of %zu bytes, type %d", bl, mi);
        fill(p, n, d & 1 ? 0 : 3); mc_tick();
        uint32_t magic = ref_magics[mi]; size_t sl = (size_t)ref_maxstrong(magic); refsig(p, n, bl, sl, magic); mc_tick(); c06_one(p, n, bl, sl, magic, d == 2 ? (sched){bl / 2 + 3, 100, 0, 0} : S0); mc_tick();
        free(p);
    }
}
/* ---- C09 ---- */
enum { E_MAGIC = 1, E_BAD = 2, E_END = 4 };
static int known(uint32_t m) { return m == REF_MD4 || m == REF_B2 || m == REF_RK_MD4 || m == REF_RK_B2; }
/* 0 if valid, else set of acceptable error kinds */
static int classify(const uint8_t *p, size_t n)
{
    int e = 0; uint32_t m = 0; int32_t bl = 1, sl = 1;
    if (n >= 4) { m = (uint32_t)ref_get(p, 4); if (!known(m)) e |= E_MAGIC; }
    if (n >= 8) { bl = (int32_t)ref_get(p + 4, 4); if (bl < 1) e |= E_BAD; }
    if (n >= 12) { sl = (int32_t)ref_get(p + 8, 4); if (sl < 1 || sl > 32 || (known(m) && sl > ref_maxstrong(m))) e |= E_BAD; }
    if (n < 12) e |= E_END;
    else if (!e && (n - 12) % (size_t)(4 + sl)) e |= E_END;
    return e;
}
static void judge(const char *how, rs_result r, int e, const uint8_t *p, size_t n)
{
    char hx[140]; int ok = e ? ((e & E_MAGIC) && r == RS_BAD_MAGIC) || ((e & E_BAD) && (r == RS_CORRUPT || r == RS_PARAM_ERROR)) || ((e & E_END) && r == RS_INPUT_ENDED) : r == RS_DONE;
    if (!ok) { mc_hex(hx, sizeof hx, p, n); mc_fail("%s: signature of %zu bytes %s gave result %d (%s)", how, n, hx, RES(r), e == 0 ? "it is valid" : e == E_END ? "it is truncated" : e == E_MAGIC ? "its type is unknown" : "its header is bad"); }
}
/* all entries of a valid signature are found */
static void probe(rs_signature_t *ss, const uint8_t *sig, size_t nb, const uint8_t *blocks, size_t bl, size_t sl, uint32_t magic, int full)
{
    rs_result r = rs_build_hash_table(ss); runinfo ri; rs_job_t *j;
    MC_CHECK(r == RS_DONE, "rs_build_hash_table: %d", RES(r));
    if (full) for (size_t i = 0; i < nb; i++) {
        /* first entry with these sums */
        size_t f = 0; const uint8_t *ei = sig + 12 + i * (4 + sl);
        while (memcmp(sig + 12 + f * (4 + sl), ei, 4 + sl)) f++;
        G->d.n = 0; j = rs_delta_begin(ss); r = run_job(j, blocks + i * bl, bl, S0, &G->d, &ri); rs_job_free(j);
        int w1 = 0, w2 = 0; int k = G->d.n > 4 ? ref_cmd(G->d.p[4], &w1, &w2) : 'X';
        MC_CHECK(r == RS_DONE && k == 'C' && G->d.n == (size_t)(6 + w1 + w2) && ref_get(G->d.p + 5, w1) == f * bl && ref_get(G->d.p + 5 + w1, w2) == bl,
                 "entry %zu of %zu of a loaded signature is not used for matching (magic %#x, strong_len %zu)", i, nb, magic, sl);
    }
    if (nb && sl >= 6) {
        vec x = {0}; for (size_t i = nb; i-- > 0;) vec_add(&x, blocks + i * bl, bl);
        G->d.n = 0; j = rs_delta_begin(ss); r = run_job(j, x.p, x.n, S0, &G->d, &ri); rs_job_free(j);
        uint8_t *t = malloc(x.n + 1); ref_dres d = ref_patch(G->d.p, G->d.n, blocks, nb * bl, t, x.n + 1);
        MC_CHECK(r == RS_DONE && d.result == REF_OK && d.outlen == x.n && !memcmp(t, x.p, x.n) && d.lit_bytes == 0, "loaded signature of %zu blocks does not match its own blocks (%" PRIu64 " literal bytes)", nb, d.lit_bytes);
        free(t); free(x.p);
    }
}
static rs_result ld(const uint8_t *p, size_t n, sched s, rs_signature_t **ss)
{
    runinfo ri; G->o.n = 0; rs_job_t *j = rs_loadsig_begin(ss);
    rs_result r = run_job(j, p, n, s, &G->o, &ri); rs_job_free(j); M->w->evals++;
    char hx[100]; if (ri.bad) { mc_hex(hx, 100, p, n); mc_fail("loading %s: %s", hx, ri.bad); }
    return r;
}
static rs_result ldfile(const uint8_t *p, size_t n, int how, rs_signature_t **ss)
{
    FILE *f; rs_result r;
    if (how == 0 || how == 2) { f = tmpfile(); if (!f) _exit(99); if (how == 2) fwrite("prefix", 1, 6, f); if (n) fwrite(p, 1, n, f); fseek(f, how == 2 ? 6 : 0, SEEK_SET); }
    else f = n ? fmemopen((void *)(uintptr_t)p, n, "rb") : fopen("/dev/null", "rb");
    if (!f) _exit(99);
    r = rs_loadsig_file(f, ss, NULL); fclose(f); M->w->evals++;
    return r;
}
static void load_all(const uint8_t *p, size_t n, int lvl)
{
    int e = classify(p, n); rs_signature_t *ss; rs_result r;
    static const sched sc[] = {{0, 0, 0, 0}, {1, 1, 0, 0}, {1, 1, 1, 0}, {3, 7, 1, 0}, {5, 1, 0, 0}}, scx[] = {{0, 0, 0, 1}, {1, 1, 0, 1}, {5, 3, 1, 1}};
    mc_distinct(mc_hash(p, n, 5));
    for (int q = 0; q < (lvl ? SAN ? 3 : 5 : 1); q++) { r = ld(p, n, SAN ? scx[q] : sc[q], &ss); judge("streaming", r, e, p, n); rs_free_sumset(ss); }
    if (lvl > 1) for (int h = 0; h < 3; h++) { r = ldfile(p, n, h, &ss); judge("rs_loadsig_file", r, e, p, n); rs_free_sumset(ss); }
}
static void c09(int th)
{
    static const uint32_t mg[] = {REF_MD4, REF_B2, REF_RK_MD4, REF_RK_B2, 0, 1, REF_DELTA, 0x72730135, 0x72730138, 0x72730145, 0x72730148, 0x36017372, 0xffffffff, 0x80000000, 0x00730136, 0x72730036, 0x727301ff, 0xf2730136};
    static const uint32_t blv[] = {0, 1, 2, 8, 255, 256, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffff8, 65536};
    static const uint32_t slv[] = {0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 34, 64, 255, 256, 0x100, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0};
    /* A: header product with bodies */
    for (int m = 0; m < 18; m++) for (int b = 0; b < 12; b++) {
        if (!mc_case()) continue;
        mc_desc("header magic %#x block_len %#x with every strong length candidate, bodies of 0..70 bytes", mg[m], blv[b]);
        uint8_t p[12 + 100]; mc_fill(p, sizeof p, 3);
        for (int s = 0; s < 20; s++) { ref_put4(p, mg[m]); ref_put4(p + 4, blv[b]); ref_put4(p + 8, slv[s]);
            for (size_t n = 12; n <= 82; n += (th || n < 40) ? 1 : 7) load_all(p, n, n == 12 || n == 24 ? 2 : 1);
            for (size_t n = 0; n < 12; n++) if (s == 0) load_all(p, n, 2); }
    }
    /* every single-byte change of the header */
    for (int mi = 0; mi < 4; mi++) for (int pos = 0; pos < 12; pos++) {
        if (!mc_case()) continue;
        mc_desc("every value of header byte %d, magic %#x, 0..3 entries", pos, ref_magics[mi]);
        uint8_t p[12 + 60]; mc_fill(p, sizeof p, 4);
        for (int v = 0; v < 256; v++) for (size_t n = 12; n <= 48; n += 12) { ref_put4(p, ref_magics[mi]); ref_put4(p + 4, 16); ref_put4(p + 8, 8); p[pos] = (uint8_t)v; load_all(p, n, 1); }
    }
    /* B: every truncation of valid signatures, every strong length; loaded entries are all used */
    for (int mi = 0; mi < 4; mi++) for (size_t sl = 1; sl <= (size_t)ref_maxstrong(ref_magics[mi]); sl++) {
        if (SAN && !th && sl % 5 != 1) continue;
        if (!mc_case()) continue;
        size_t bl = 24, nb = 4; uint8_t bs[96], p[12 + 4 * 36]; mc_fill(bs, 96, sl); memcpy(bs + 72, bs + 24, 24);
        mc_desc("every truncation of a 4-block signature, magic %#x strong_len %zu; all entries used", ref_magics[mi], sl);
        size_t n = ref_sig(p, ref_magics[mi], bl, sl, bs, 96);
        for (size_t t = 0; t <= n; t++) {
            load_all(p, t, 2);
            if (!classify(p, t)) for (int q = 0; q < 6; q++) { rs_signature_t *ss; rs_result r = q < 3 ? ld(p, t, q == 0 ? S0 : q == 1 ? S11L : S37, &ss) : ldfile(p, t, q - 3, &ss); judge("load", r, 0, p, t); probe(ss, p, (t - 12) / (4 + sl), bs, bl, sl, ref_magics[mi], 1); rs_free_sumset(ss); }
        }
        (void)nb;
    }
    /* C: numbers of entries around growth boundaries, loaded every way */
    static const size_t nbs[] = {0, 1, 2, 3, 5, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 341, 512, 513, 1023, 1024, 1025, 1365, 2048, 4097, 10000};
    for (int i = 0; i < 31; i++) for (int mi = 0; mi < 4; mi++) for (int si = 0; si < 4; si++) {
        static const size_t sls[] = {1, 6, 8, 16};
        if (SAN && nbs[i] > 600) continue;
        if (!mc_case()) continue;
        size_t nb = nbs[i], bl = 16, sl = sls[si]; uint32_t magic = ref_magics[mi];
        uint8_t *bs = malloc(nb * bl + 1), *p = malloc(ref_siglen(nb * bl, bl, sl) + 1); mc_fill(bs, nb * bl, nb);
        mc_desc("valid signature of %zu entries, strong_len %zu, magic %#x, loaded by streaming, from files and with small buffers", nb, sl, magic);
        size_t n = ref_sig(p, magic, bl, sl, bs, nb * bl);
        for (int q = 0; q < 8; q++) {
            rs_signature_t *ss; rs_result r; extern int rs_inbuflen;
            if (q < 3) r = ld(p, n, q == 0 ? (SAN ? SX : S0) : q == 1 ? S11L : (sched){1000, 1, 0, 0}, &ss);
            else { rs_inbuflen = q == 6 ? 7 : q == 7 ? 64 : 0; r = ldfile(p, n, q % 3, &ss); rs_inbuflen = 0; }
            judge("load", r, 0, p, n); probe(ss, p, nb, bs, bl, sl, magic, nb <= 300 && q % 3 == 0); rs_free_sumset(ss);
        }
        load_all(p, n - 1 < 12 ? 11 : n - 1, 2);
        if (nb) { load_all(p, n - sl, 2); load_all(p, n - sl - 1, 2); load_all(p, n - sl - 3, 2); }
        free(bs); free(p);
    }
}
static void run(void)
{
    G = mc_mapp(sizeof *G); SAN = strstr(M->mode, "san") != NULL;
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    if (!strncmp(M->mode, "C06", 3)) c06(M->thorough); else c09(M->thorough);
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
