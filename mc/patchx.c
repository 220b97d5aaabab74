/* Patch engine: C07 every well-formed delta executes as documented; C08 malformed deltas are reported;
 * C10 callback errors (patch callback, and all callbacks of rs_job_drive for every job kind). */
#include "api.h"
#define BNMAX 300000
typedef struct { uint8_t *basis; size_t bn; vec d, o; uint8_t *ref; mc_win iw, ow; int san; } PG;
static PG *G;
static const sched S0 = {0, 0, 0, 0}, S11 = {1, 1, 0, 0}, S11L = {1, 1, 1, 0}, S23 = {2, 3, 1, 0}, S31 = {3, 1, 0, 0}, SX = {0, 0, 0, 1}, SX1 = {1, 1, 0, 1}, SX7 = {5, 7, 1, 1};

static size_t put_cmd(uint8_t *p, int kind, int w1, int w2, uint64_t a, uint64_t b)
{
    static const int lg[9] = {0, 0, 1, 0, 2, 0, 0, 0, 3};
    if (kind == 'E') { p[0] = 0; return 1; }
    if (kind == 'L') { if (!w1) { p[0] = (uint8_t)a; return 1; } p[0] = (uint8_t)(0x41 + lg[w1]); ref_putn(p + 1, a, w1); return 1 + (size_t)w1; }
    p[0] = (uint8_t)(0x45 + 4 * lg[w1] + lg[w2]); ref_putn(p + 1, a, w1); ref_putn(p + 1 + w1, b, w2); return 1 + (size_t)(w1 + w2);
}
static void d_start(void) { uint8_t h[4]; ref_put4(h, REF_DELTA); vec_set(&G->d, h, 4); }
static void d_lit(int w, uint64_t len, uint64_t seed) { uint8_t b[16]; vec_add(&G->d, b, put_cmd(b, 'L', w, 0, len, 0)); vec_need(&G->d, G->d.n + len); mc_fill(G->d.p + G->d.n, len, seed); G->d.n += len; }
static void d_copy(int w1, int w2, uint64_t pos, uint64_t len) { uint8_t b[32]; vec_add(&G->d, b, put_cmd(b, 'C', w1, w2, pos, len)); }

/* Execute G->d under schedule s and callback mode; compare with the reference interpreter. */
static void exec1(sched s, int cbmode, const ref_dres *rd, int want_ok)
{
    mbasis mb = {G->basis, G->bn, 0, cbmode, NULL, 0}; runinfo ri;
    rs_job_t *j = rs_patch_begin(mem_copy, &mb);
    G->o.n = 0;
    rs_result r = run_job(j, G->d.p, G->d.n, s, &G->o, &ri);
    rs_job_free(j);
    M->w->evals++;
    char hx[120]; if (ri.bad || RES(r) != rd->result || G->o.n != rd->outlen) mc_hex(hx, sizeof hx, G->d.p, G->d.n);
    MC_CHECK(!ri.bad, "patch: %s; delta %s", ri.bad, hx);
    if (want_ok) MC_CHECK(r == RS_DONE, "well-formed delta refused with result %d (schedule in %zu out %zu, callback mode %d); delta %s", RES(r), s.istep, s.ostep, cbmode, hx);
    else MC_CHECK(RES(r) == rd->result, "result %d, the documented format requires %d (schedule in %zu out %zu); delta %s", RES(r), rd->result, s.istep, s.ostep, hx);
    MC_CHECK(G->o.n == rd->outlen && !memcmp(G->o.p, G->ref, G->o.n), "output of %zu bytes differs from executing the commands one by one (%zu bytes), callback mode %d", G->o.n, rd->outlen, cbmode);
}
static ref_dres refrun(void)
{
    /* output size is bounded by delta size + copies inside the basis; large cases use small sequences */
    ref_dres r = ref_patch(G->d.p, G->d.n, G->basis, G->bn, G->ref, 8 << 20);
    if (r.outlen > (8 << 20)) { fprintf(stderr, "case too large\n"); _exit(99); }
    return r;
}
/* the whole-file call on memory streams */
static void exec_file(const ref_dres *rd, int want_ok)
{
    FILE *b = tmpfile(), *d = fmemopen(G->d.p, G->d.n, "rb"), *o; char *ob = NULL; size_t on = 0;
    o = open_memstream(&ob, &on);
    if (!b || !d || !o) _exit(99);
    if (G->bn && fwrite(G->basis, 1, G->bn, b) != G->bn) _exit(99);
    rewind(b);
    rs_result r = rs_patch_file(b, d, o, NULL);
    fclose(o); fclose(d); fclose(b);
    M->w->evals++;
    char hx[120]; mc_hex(hx, sizeof hx, G->d.p, G->d.n);
    if (want_ok) MC_CHECK(r == RS_DONE && on == rd->outlen && !memcmp(ob, G->ref, on), "rs_patch_file: result %d, %zu bytes, expected %zu; delta %s", RES(r), on, rd->outlen, hx);
    else MC_CHECK(RES(r) == rd->result || (rd->copy_oob && r == RS_IO_ERROR), "rs_patch_file: result %d, the documented format requires %d; delta %s", RES(r), rd->result, hx);
    free(ob);
}
static void exec_all(int lvl, int want_ok)
{
    ref_dres rd = refrun();
    if (want_ok && rd.result != REF_OK) { fprintf(stderr, "generator error %d\n", rd.result); _exit(99); }
    mc_distinct(mc_hash(G->d.p, G->d.n, 3));
    if (G->san) { exec1(SX, 0, &rd, want_ok); if (lvl) { exec1(SX1, 2, &rd, want_ok); exec1(SX7, 1, &rd, want_ok); } return; }
    exec1(S0, 0, &rd, want_ok);
    if (lvl >= 1) { exec1(S11, 0, &rd, want_ok); exec1(S0, 2, &rd, want_ok); exec1(S23, 1, &rd, want_ok); }
    if (lvl >= 2) { exec1(S31, 3, &rd, want_ok); exec1(S11L, 6, &rd, want_ok); exec1(S0, 4, &rd, want_ok); exec1(S0, 1, &rd, want_ok); exec1(S23, 2, &rd, want_ok); }
}
static const int W[4] = {1, 2, 4, 8};
typedef struct { int kind, w1, w2; uint64_t a, b; } cmd;
static void d_cmd(cmd c, int seed) { if (c.kind == 'L') d_lit(c.w1, c.a, (uint64_t)seed); else d_copy(c.w1, c.w2, c.a, c.b); }
static int build_cmds(cmd *c, int rich)
{
    int n = 0;
    static const uint64_t ll[] = {1, 2, 63, 64};
    for (int i = 0; i < 4; i++) c[n++] = (cmd){'L', 0, 0, ll[i], 0};
    for (int w = 0; w < 4; w++) { c[n++] = (cmd){'L', W[w], 0, 1, 0}; if (rich) { c[n++] = (cmd){'L', W[w], 0, 65, 0}; c[n++] = (cmd){'L', W[w], 0, 255, 0}; if (w) c[n++] = (cmd){'L', W[w], 0, 256, 0}; } }
    for (int w1 = 0; w1 < 4; w1++) for (int w2 = 0; w2 < 4; w2++) {
        c[n++] = (cmd){'C', W[w1], W[w2], 3, 5};
        if (rich) { c[n++] = (cmd){'C', W[w1], W[w2], 0, 12}; c[n++] = (cmd){'C', W[w1], W[w2], 11, 1}; }
    }
    return n;
}
static void well_formed(int th)
{
    cmd c[200]; int n;
    /* A: every opcode, every value on a small basis */
    for (int op = 1; op <= 0x54; op++) {
        if (!mc_case()) continue;
        int w1, w2, k = ref_cmd((uint8_t)op, &w1, &w2);
        mc_desc("every delta of one command with opcode %#x (basis of 12 bytes), six callback behaviours", op);
        G->bn = 12;
        if (k == 'L') { for (uint64_t l = w1 ? 1 : (uint64_t)op; l <= (w1 ? 300u : (uint64_t)op); l++) { if (w1 == 1 && l > 255) break; d_start(); d_lit(w1, l, l); vec_b(&G->d, 0); exec_all(2, 1); if (l % 7 == 1) { ref_dres rd = refrun(); if (!G->san) exec_file(&rd, 1); } } }
        else for (uint64_t p = 0; p < 12; p++) for (uint64_t l = 1; p + l <= 12; l++) { d_start(); d_copy(w1, w2, p, l); vec_b(&G->d, 0); exec_all(2, 1); if (!G->san) { ref_dres rd = refrun(); exec_file(&rd, 1); } }
    }
    /* B: all sequences */
    n = build_cmds(c, 1); G->bn = 12;
    for (int i = 0; i < n; i++) {
        if (!mc_case()) continue;
        mc_desc("all sequences of two commands out of %d starting with #%d", n, i);
        for (int j = -1; j < n; j++) { d_start(); d_cmd(c[i], i); if (j >= 0) d_cmd(c[j], j + 50); vec_b(&G->d, 0); exec_all(2, 1); }
    }
    n = build_cmds(c, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (!mc_case()) continue;
        mc_desc("all sequences of three%s commands out of %d starting with #%d #%d", th ? " and four" : "", n, i, j);
        for (int k = 0; k < n; k++) for (int l = -1; l < (th && !G->san ? n : 0); l++) { d_start(); d_cmd(c[i], i); d_cmd(c[j], j + 50); d_cmd(c[k], k + 90); if (l >= 0) d_cmd(c[l], l); vec_b(&G->d, 0); exec_all(l >= 0 ? 0 : 1, 1); }
    }
    /* C: large lengths and positions, overlapping and repeated copies */
    static const uint64_t big[] = {255, 256, 257, 4095, 65535, 65536, 65537, 70000, 131072, 200000, 262144, 262145};
    for (int i = 0; i < 12; i++) for (int w = 0; w < 4; w++) for (int w2 = 0; w2 < 4; w2++) {
        if (!mc_case()) continue;
        G->bn = BNMAX;
        mc_desc("lengths and offsets around %" PRIu64 " at widths %d,%d", big[i], W[w], W[w2]);
        d_start(); int ok = 0;
        if (w2 == 0 && (W[w] >= 4 || big[i] < 1ULL << (8 * W[w]))) { d_lit(W[w], big[i], 9); ok = 1; }
        if (W[w2] >= 4 || big[i] < 1ULL << (8 * W[w2])) { d_copy(1, W[w2], 7, big[i]); d_copy(4, W[w2], 8, big[i]); ok = 1; }
        if (W[w] >= 4 || big[i] < 1ULL << (8 * W[w])) { d_copy(W[w], 1, big[i], 100); d_copy(W[w], W[w2] < 4 ? 4 : W[w2], big[i], BNMAX - big[i]); d_copy(W[w], W[w2], big[i] - 1, 1); ok = 1; }
        if (!ok) continue;
        vec_b(&G->d, 0);
        ref_dres rd = refrun(); mc_distinct(mc_hash(G->d.p, G->d.n, 4));
        static const sched ss[] = {{0, 0, 0, 0}, {65536, 65536, 0, 0}, {100, 262144, 0, 0}, {1000, 999, 1, 0}, {4096, 70001, 1, 0}};
        for (int q = 0; q < 5; q++) { exec1(ss[q], q & 1 ? 2 : 0, &rd, 1); exec1(ss[q], 4, &rd, 1); }
        if (!G->san) exec_file(&rd, 1);
    }
}
/* D: sequences with many different places and lengths (adjacent, overlapping, repeated, backwards), every output space */
static void places(int th)
{
    static const cmd al[] = {{'C', 1, 1, 0, 1}, {'C', 1, 1, 0, 12}, {'C', 1, 2, 1, 3}, {'C', 2, 1, 4, 4}, {'C', 1, 1, 8, 4}, {'C', 4, 1, 8, 1}, {'C', 8, 8, 11, 1}, {'C', 1, 1, 3, 5}, {'L', 0, 0, 1, 0}, {'L', 0, 0, 3, 0}, {'L', 1, 0, 9, 0}, {'L', 4, 0, 2, 0}};
    int n = 12, dp = th && !G->san ? 6 : th || !G->san ? 5 : 4;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (!mc_case()) continue;
        G->bn = 12;
        mc_desc("all sequences of up to %d commands from %d (adjacent, overlapping, repeated copies; literals) starting with #%d #%d", dp, n, i, j);
        long tot = 1; for (int k = 2; k < dp; k++) tot *= n + 1;
        for (long q = 0; q < tot; q++) {
            long z = q; int bad = 0, ended = 0;
            d_start(); d_cmd(al[i], 1); d_cmd(al[j], 2);
            for (int k = 2; k < dp; k++) { int x = (int)(z % (n + 1)); z /= n + 1; if (x == n) ended = 1; else if (ended) { bad = 1; break; } else d_cmd(al[x], k + 1); }
            if (bad) continue;
            vec_b(&G->d, 0); exec_all(dp == 4 || q % (dp == 5 ? 4 : 64) == 0 ? 2 : 0, 1);
        }
    }
    /* every pair of input and output amount per call, every callback behaviour, for a few mixed deltas */
    for (int is = 0; is <= (th ? 30 : 16); is++) for (int dv = 0; dv < 6; dv++) {
        if (!mc_case()) continue;
        G->bn = 3000;
        mc_desc("mixed delta %d, input %d bytes per call, every output space to 40, 7 callback behaviours", dv, is);
        d_start();
        for (int k = 0; k <= dv; k++) { d_lit(k % 2, 1 + (uint64_t)k * 17 % 60, 7); d_copy(W[k % 4], W[(k + 1) % 4 ? (k + 1) % 4 : 1], (uint64_t)k * 13, 1 + (uint64_t)(k * 37) % 255); if (k == 3) d_copy(2, 2, 100, 1000); if (k % 2) d_copy(4, 2, (uint64_t)k * 13 + 1 + (uint64_t)(k * 37) % 255, 30); }
        vec_b(&G->d, 0);
        ref_dres rd = refrun(); if (rd.result) _exit(99);
        mc_distinct(mc_hash(G->d.p, G->d.n, (uint64_t)is));
        for (size_t os = 0; os <= 40; os++) for (int m = 0; m < 7; m++) { if (G->san && (m + os) % 5) continue; exec1((sched){(size_t)is, os, (int)(os & 1), G->san}, m, &rd, 1); }
    }
}
/* E: commands of any length: the start of literals and copies that are longer than anything that could be stored here */
static struct { int64_t next; uint64_t off, len; long calls; int bad; } LC;
static rs_result long_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    LC.calls++;
    if (pos < 0 || (uint64_t)pos != LC.off + (uint64_t)LC.next || *len > LC.len - (uint64_t)LC.next || !*len) { LC.bad = 1; return RS_IO_ERROR; }
    for (size_t i = 0; i < *len; i++) ((uint8_t *)*buf)[i] = (uint8_t)((uint64_t)(pos + (int64_t)i) * 31 >> 3);
    LC.next += (int64_t)*len;
    return RS_DONE;
}
static void long_cmds(void)
{
    static const uint64_t L[] = {300, 70000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x17fffffff, 0xffffffffff, 1ULL << 62, 0x7fffffffffffffff};
    static const uint64_t O[] = {0, 5, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0xfffffffffff};
    enum { N = sizeof L / sizeof *L, NO = sizeof O / sizeof *O };
    for (int i = 0; i < N; i++) for (int w = 2; w <= 8; w *= 2) for (int o = -1; o < NO; o++) {
        if (w < 8 && L[i] >> (8 * w)) continue;
        if (o >= 0 && O[o] > INT64_MAX - L[i]) continue;
        if (!mc_case()) continue;
        mc_desc("%s of %#" PRIx64 " bytes (length in %d bytes) at %#" PRIx64 ", the first bytes of it", o < 0 ? "literal" : "copy", L[i], w, o < 0 ? 0 : O[o]);
        static const size_t os[] = {1, 7, 250}; uint8_t b[40], ob[256], data[300]; mc_fill(data, 300, 5);
        for (int q = 0; q < 3; q++) {
            uint64_t tot = 0, want = 260, fed = 0; rs_result r; rs_buffers_t bf = {0};
            LC.next = 0; LC.off = o < 0 ? 0 : O[o]; LC.len = L[i]; LC.calls = 0; LC.bad = 0;
            d_start(); vec_add(&G->d, b, o < 0 ? put_cmd(b, 'L', w, 0, L[i], 0) : put_cmd(b, 'C', 8, w, O[o], L[i]));
            rs_job_t *j = rs_patch_begin(long_copy, NULL); bf.next_in = (char *)G->d.p; bf.avail_in = G->d.n;
            for (int it = 0; tot < want && it < 2000; it++) {
                bf.next_out = (char *)ob; bf.avail_out = os[q]; mc_tick(); r = rs_job_iter(j, &bf); M->w->evals++;
                MC_CHECK(r == RS_BLOCKED, "%s of %#" PRIx64 " bytes: result %d after %" PRIu64 " of them", o < 0 ? "literal" : "copy", L[i], RES(r), tot);
                MC_CHECK(!LC.bad, "copy of %#" PRIx64 " bytes at %#" PRIx64 ": wrong request to the old file", L[i], LC.off);
                size_t got = os[q] - bf.avail_out;
                for (size_t k = 0; k < got; k++) MC_CHECK(ob[k] == (o < 0 ? data[(tot + k) % 300] : (uint8_t)((LC.off + tot + k) * 31 >> 3)), "%s of %#" PRIx64 " bytes: byte %" PRIu64 " is wrong", o < 0 ? "literal" : "copy", L[i], tot + k);
                tot += got;
                if (o < 0 && !bf.avail_in) { fed %= 300; size_t m = 300 - fed < 41 ? 300 - fed : 41; bf.next_in = (char *)data + fed; bf.avail_in = m; fed += m; }
            }
            MC_CHECK(tot >= want, "%s of %#" PRIx64 " bytes: only %" PRIu64 " bytes come out", o < 0 ? "literal" : "copy", L[i], tot);
            rs_job_free(j); mc_distinct(mc_hash(G->d.p, G->d.n, (uint64_t)q + 99));
        }
    }
}
/* ---- malformed ---- */
static void malformed(int th)
{
    int deep = (th || !G->san) ? 3 : 2;
    G->bn = 12;
    /* A: every byte string of up to `deep` bytes after the magic, plus two-byte continuations */
    for (int a = 0; a < 256; a++) {
        if (!mc_case()) continue;
        mc_desc("every delta of up to %d bytes after the magic starting with %#x", deep, a);
        if (a == 0) { d_start(); exec_all(2, 0); }
        d_start(); vec_b(&G->d, a); exec_all(2, 0);
        for (int b = 0; b < 256; b++) {
            d_start(); vec_b(&G->d, a); vec_b(&G->d, b); exec_all(1, 0);
            if (deep >= 3) for (int c = 0; c < 256; c++) {
                d_start(); vec_b(&G->d, a); vec_b(&G->d, b); vec_b(&G->d, c); exec_all((b % 16 == 1 && c % 16 == 2) ? 1 : 0, 0);
            }
        }
        if (!G->san) { for (int b = 0; b < 256; b += 5) { d_start(); vec_b(&G->d, a); vec_b(&G->d, b); vec_b(&G->d, 0); ref_dres rd = refrun(); exec_file(&rd, 0); } }
    }
    /* B: parameter boundary values for every opcode with parameters */
    static const uint64_t vals[] = {0, 1, 2, 5, 11, 12, 13, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x100000005ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xfffffffffffffff0ULL, 0xffffffffffffffffULL};
    for (int op = 0x41; op <= 0x54; op++) {
        if (!mc_case()) continue;
        int w1, w2, k = ref_cmd((uint8_t)op, &w1, &w2);
        mc_desc("opcode %#x with all pairs of boundary parameter values, three contexts", op);
        for (int i = 0; i < 26; i++) for (int j = 0; j < (k == 'C' ? 26 : 1); j++) for (int ctx = 0; ctx < 3; ctx++) {
            uint8_t b[32];
            if (w1 < 8 && vals[i] >> (8 * w1)) continue;
            if (k == 'C' && w2 < 8 && vals[j] >> (8 * w2)) continue;
            d_start(); if (ctx) d_lit(0, 3, 8); if (ctx == 2) d_copy(1, 1, 2, 4);
            vec_add(&G->d, b, put_cmd(b, k, w1, w2, vals[i], vals[j]));
            if (k == 'L') vec_add(&G->d, "zzzzz", 5);
            vec_b(&G->d, 0);
            exec_all(2, 0);
            if (!G->san && ctx == 1) { ref_dres rd = refrun(); exec_file(&rd, 0); }
        }
    }
    /* C: every truncation and every one-byte change of well-formed deltas */
    cmd c[200]; int n = build_cmds(c, 0);
    for (int i = 0; i < n; i++) for (int j = -1; j < n; j++) {
        if (G->san && !th && (i + j) % 5) continue;
        if (!mc_case()) continue;
        mc_desc("every truncation and one-byte change of the delta with commands #%d #%d", i, j);
        d_start(); d_cmd(c[i], i); if (j >= 0) d_cmd(c[j], j + 50); vec_b(&G->d, 0);
        size_t full = G->d.n; uint8_t *keep = malloc(full); memcpy(keep, G->d.p, full);
        for (size_t t = 0; t < full; t++) { vec_set(&G->d, keep, t); exec_all(2, 0); if (!G->san && (j == -1 || j == 7)) { ref_dres rd = refrun(); if (t) exec_file(&rd, 0); } }
        for (size_t t = 0; t < full; t++) {
            int w1, w2; (void)w1; (void)w2;
            int step = (t < 24 || th) ? 1 : 37;
            for (int v = 0; v < 256; v += step) { if (v == keep[t]) continue; vec_set(&G->d, keep, full); G->d.p[t] = (uint8_t)v; exec_all(v % 32 == 0 && t < 24 ? 1 : 0, 0); }
        }
        free(keep);
    }
    /* D: magic numbers */
    for (int bt = 0; bt < 4; bt++) {
        if (!mc_case()) continue;
        mc_desc("every value of magic byte %d, all signature magics, short headers", bt);
        for (int v = 0; v < 256; v++) { d_start(); d_lit(0, 2, 1); vec_b(&G->d, 0); G->d.p[bt] = (uint8_t)v; exec_all(2, 0); }
        for (int m = 0; m < 4; m++) { d_start(); vec_b(&G->d, 0); ref_put4(G->d.p, ref_magics[m]); exec_all(2, 0); }
        for (size_t l = 0; l < 4; l++) { d_start(); G->d.n = l; exec_all(2, 0); }
    }
}
/* ---- callbacks ---- */
typedef struct { const uint8_t *p; size_t n; long calls, fail_at, after; int code, mode; int failed; size_t asked_bad; } fbasis;
static int *ANYFAIL; static long *AFTER;
static rs_result f_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    fbasis *f = arg; size_t k = *len;
    if (*ANYFAIL) (*AFTER)++;
    if (f->calls++ == f->fail_at) {     /* an error, with any combination of data delivered beside it */
        f->failed = 1; *ANYFAIL = 1;
        size_t have = pos >= 0 && (uint64_t)pos < f->n ? f->n - (size_t)pos : 0; if (have > k) have = k;
        switch (f->mode >> 4) {
        case 1: *len = 0; break;
        case 2: if (have > 1) have = (have + 1) / 2; memcpy(*buf, f->p + pos, have); *len = have; break;
        case 3: if (have) { *buf = (void *)(uintptr_t)(f->p + pos); *len = 1; } break;
        case 4: *len = SIZE_MAX; break;
        case 5: *buf = NULL; break;
        case 6: memcpy(*buf, f->p + pos, have); *len = have; break;
        }
        return (rs_result)f->code;
    }
    if (pos < 0 || (uint64_t)pos >= f->n) return RS_INPUT_ENDED;
    if (k > f->n - (size_t)pos) k = f->n - (size_t)pos;
    if ((f->mode & 1) && k > 1) k = (k + 1) / 2;
    if (f->mode & 2) *buf = (void *)(uintptr_t)(f->p + pos); else memcpy(*buf, f->p + pos, k);
    *len = k; return RS_DONE;
}
static const int codes[] = {100, 101, 102, 103, 104, 105, 106, 107, 108, 77, 3, 99, 1000};
typedef struct { const uint8_t *in; size_t n, at, step; long calls, fail_at; int code; uint8_t *buf; size_t cap; int give; } inst;
typedef struct { vec *out; uint8_t *buf; size_t cap; long calls, fail_at; int code; int partial; } outst;
static rs_result in_cb(rs_job_t *job, rs_buffers_t *b, void *op)
{
    inst *s = op; (void)job;
    if (*ANYFAIL) (*AFTER)++;
    int fail = s->calls++ == s->fail_at;
    if (fail) { *ANYFAIL = 1; if (!s->give) return (rs_result)s->code; }
    if (b->avail_in >= s->cap) return fail ? (rs_result)s->code : RS_DONE;
    if (b->avail_in) memmove(s->buf, b->next_in, b->avail_in);
    b->next_in = (char *)s->buf;
    size_t k = s->n - s->at; if (k > s->step) k = s->step; if (k > s->cap - b->avail_in) k = s->cap - b->avail_in;
    memcpy(s->buf + b->avail_in, s->in + s->at, k); s->at += k; b->avail_in += k;
    if (s->at == s->n) b->eof_in = 1;
    return fail ? (rs_result)s->code : RS_DONE;
}
static rs_result out_cb(rs_job_t *job, rs_buffers_t *b, void *op)
{
    outst *s = op; (void)job;
    if (*ANYFAIL) (*AFTER)++;
    size_t k = b->next_out ? (size_t)((uint8_t *)b->next_out - s->buf) : 0;
    int fail = s->calls++ == s->fail_at;
    if (fail) { *ANYFAIL = 1; if (!s->partial) return (rs_result)s->code; }
    vec_add(s->out, s->buf, k);
    b->next_out = (char *)s->buf; b->avail_out = s->cap;
    return fail ? (rs_result)s->code : RS_DONE;
}
static rs_job_t *mkjob(int kind, rs_signature_t *ss, rs_signature_t **ls, fbasis *fb)
{
    switch (kind) { case 0: return rs_sig_begin(8, 6, RS_RK_BLAKE2_SIG_MAGIC); case 1: return rs_loadsig_begin(ls); case 2: return rs_delta_begin(ss); default: return rs_patch_begin(f_copy, fb); }
}
static void callbacks(int th)
{
    ANYFAIL = mc_mapp(4096); AFTER = mc_mapp(4096);
    uint8_t bs[60]; mc_fill(bs, 60, 2);
    /* A: patch callback fails at each call, under schedules */
    for (int ci = 0; ci < 13; ci++) for (int v = 0; v < 14; v++) {
        if (!mc_case()) continue;
        mc_desc("basis callback returns %d at each call index, with data variant %d, %s reads, several schedules and deltas", codes[ci], v / 2, v & 1 ? "short" : "full");
        static const sched ss[] = {{0, 0, 0, 0}, {1, 1, 0, 0}, {3, 2, 1, 0}, {0, 5, 0, 0}, {0, 1, 0, 0}};
        for (int dv = 0; dv < 6; dv++) for (int q = 0; q < 5; q++) for (long at = 0; at < 80; at++) {
            d_start(); if (dv & 1) d_lit(0, 5, 1); d_copy(1, 1, 3, dv < 2 ? 1 : 20); if (dv > 3) { d_lit(1, 3, 4); d_copy(2, 2, 0, 30); } vec_b(&G->d, 0);
            G->basis = bs; G->bn = 60; ref_dres rd = refrun();
            fbasis fb = {bs, 60, 0, at, 0, codes[ci], v & 1 ? 1 : 0, 0, 0}; if ((v / 2) % 3 == 1) fb.mode |= 2; fb.mode |= v / 2 << 4;
            *ANYFAIL = 0; *AFTER = 0; runinfo ri; G->o.n = 0;
            rs_job_t *j = rs_patch_begin(f_copy, &fb);
            rs_result r = run_job(j, G->d.p, G->d.n, ss[q], &G->o, &ri);
            rs_job_free(j); M->w->evals++;
            MC_CHECK(!ri.bad, "patch with failing callback: %s", ri.bad);
            if (!fb.failed) { MC_CHECK(r == RS_DONE && G->o.n == rd.outlen, "no fault, but result %d", RES(r)); break; }
            mc_distinct(mc_hash(G->d.p, G->d.n, (uint64_t)(at * 100 + q * 7 + ci) * 31 + (uint64_t)v));
            MC_CHECK(RES(r) == codes[ci], "callback error %d at call %ld came back as %d", codes[ci], at, RES(r));
            MC_CHECK(*AFTER == 0, "callback called %ld more times after it had failed", *AFTER);
            MC_CHECK(G->o.n <= rd.outlen && !memcmp(G->o.p, G->ref, G->o.n), "output before the failure is not a prefix");
            if (at == 0) { size_t lit = dv & 1 ? 5 : 0; MC_CHECK(G->o.n == lit, "output before the first failing copy has %zu bytes, expected %zu", G->o.n, lit); }
        }
    }
    /* B: callback claims more than asked (assertions-off build only) or nothing at all */
    for (int v = 0; v < 5; v++) for (size_t os = 1; os <= 24; os++) {
#ifndef NDEBUG
        if (v >= 2 && !strstr(M->mode, "ndebug")) continue;
#endif
        if (!mc_case()) continue;
        static const char *nm[] = {"delivers nothing", "delivers nothing, own buffer", "claims one byte more", "claims many more, own buffer", "claims SIZE_MAX"};
        mc_desc("basis callback %s, output space %zu", nm[v], os);
        for (int at = 0; at < 8; at++) {
            extern rs_result odd_copy(void *, rs_long_t, size_t *, void **);
            struct { int v, at, calls; uint8_t *big; } a = {v, at, 0, NULL};
            a.big = mc_mapp(1 << 16); memset(a.big, 0x42, 1 << 16);
            d_start(); d_lit(0, 2, 1); d_copy(1, 1, 0, 40); vec_b(&G->d, 0);
            rs_job_t *j = rs_patch_begin(odd_copy, &a);
            memcpy(G->iw.w + G->iw.cap - G->d.n, G->d.p, G->d.n);
            size_t c = 0; rs_result r; long t = 0; int odd = 0;
            for (;;) {
                rs_buffers_t b; b.next_in = (char *)G->iw.end - (G->d.n - c); b.avail_in = G->d.n - c; b.eof_in = 1;
                uint8_t *o = G->ow.end - os; memset(o - 32, 0x3E, os + 32);
                b.next_out = (char *)o; b.avail_out = os;
                mc_tick();
                r = rs_job_iter(j, &b); t++;
                c = G->d.n - b.avail_in;
                MC_CHECK(b.avail_out <= os && b.next_out >= (char *)o && b.next_out <= (char *)G->ow.end && (size_t)((char *)G->ow.end - b.next_out) == b.avail_out, "output accounting wrong after an over-long callback result (avail_out %zu of %zu)", b.avail_out, os);
                for (int i = 1; i <= 32; i++) MC_CHECK(o[-i] == 0x3E, "wrote before the output space");
                odd = a.calls > at;
                if (r != RS_BLOCKED) break;
                MC_CHECK(t < 500, "never finishes when the basis callback delivers nothing");
            }
            if (v < 2 && odd) MC_CHECK(r != RS_DONE, "success although the basis callback delivered nothing");
            if (v >= 2) MC_CHECK(r != RS_RUNNING && r != RS_BLOCKED, "odd result %d", RES(r));
            rs_job_free(j); munmap(a.big, 1 << 16); M->w->evals++; mc_distinct((uint64_t)v * 1000 + os * 10 + (uint64_t)at + 77);
        }
    }
    /* C: rs_job_drive: every callback, every call index, every code, every job kind */
    for (int kind = 0; kind < 4; kind++) for (int which = 0; which < 3; which++) for (int ci = 0; ci < 13; ci++) for (int q = 0; q < 5; q++) {
        if (which == 2 && kind != 3) continue;
        if (which == 1 && kind == 1) continue;
        if (!mc_case()) continue;
        static const size_t isz[] = {1, 4, 13, 64, 1000}, osz[] = {1, 7, 16, 50, 1000};
        mc_desc("rs_job_drive of job kind %d: callback %s fails with %d at each call, buffers %zu/%zu", kind, which == 0 ? "input" : which == 1 ? "output" : "basis", codes[ci], isz[q], osz[q]);
        rs_result r; runinfo ri; vec sg = {0}, nw = {0}, dl = {0}, ex = {0}; rs_signature_t *ls = NULL;
        vec_need(&sg, 1000); sg.n = ref_sig(sg.p, REF_RK_B2, 8, 6, bs, 60);
        vec_add(&nw, bs + 20, 40); vec_add(&nw, "hello world, this is literal", 28); vec_add(&nw, bs, 24);
        rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load");
        rs_job_t *j = rs_delta_begin(ss); run_job(j, nw.p, nw.n, ONESHOT, &dl, &ri); rs_job_free(j);
        const uint8_t *in = kind == 0 ? bs : kind == 1 ? sg.p : kind == 2 ? nw.p : dl.p; size_t n = kind == 0 ? 60 : kind == 1 ? sg.n : kind == 2 ? nw.n : dl.n;
        long fa = -1; int done = 0;
        for (; !done; fa++) {
            vec out = {0}; uint8_t ib[1000], ob[1000];
            fbasis fb = {bs, 60, 0, which == 2 ? fa : -1, 0, codes[ci], (int)((q + fa + 7) % 7) << 4, 0, 0};
            inst is = {in, n, 0, isz[q], 0, which == 0 ? fa : -1, codes[ci], ib, isz[q], (q + ci) & 1}; outst os = {&out, ob, osz[q], 0, which == 1 ? fa : -1, codes[ci], (q + ci) & 1};
            *ANYFAIL = 0; *AFTER = 0; rs_buffers_t bufs;
            j = mkjob(kind, ss, &ls, &fb);
            r = rs_job_drive(j, &bufs, in_cb, &is, kind == 1 ? NULL : out_cb, &os);
            rs_job_free(j); if (kind == 1) rs_free_sumset(ls);
            M->w->evals++; mc_distinct((uint64_t)(((kind * 3 + which) * 13 + ci) * 5 + q) * 1000003 + (uint64_t)fa);
            if (!*ANYFAIL) {
                MC_CHECK(r == RS_DONE, "rs_job_drive without fault: result %d", RES(r));
                if (fa < 0) { vec_set(&ex, out.p, out.n); if (kind == 3) MC_CHECK(vec_eq(&out, nw.p, nw.n), "driven patch output wrong"); }
                else { MC_CHECK(vec_eq(&out, ex.p, ex.n), "output differs without fault"); done = 1; }
            } else {
                MC_CHECK(RES(r) == codes[ci], "%s callback error %d at call %ld came back as %d", which == 0 ? "input" : which == 1 ? "output" : "basis", codes[ci], fa, RES(r));
                MC_CHECK(*AFTER == 0, "%ld callbacks after the failure", *AFTER);
                MC_CHECK(out.n <= ex.n && (!out.n || !memcmp(out.p, ex.p, out.n)), "delivered output is not a prefix of the full output");
            }
            free(out.p);
            if (fa > 3000) mc_fail("too many callback calls");
        }
        rs_free_sumset(ss); free(sg.p); free(nw.p); free(dl.p); free(ex.p);
    }
    (void)th;
}
rs_result odd_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    struct { int v, at, calls; uint8_t *big; } *a = arg; (void)pos;
    size_t k = *len;
    if (a->calls++ < a->at) { memset(*buf, 'n', k > 1 ? k = 1 : k); *len = k; return RS_DONE; }
    switch (a->v) {
    case 0: *len = 0; break;
    case 1: *len = 0; *buf = a->big; break;
    case 2: memset(*buf, 'o', k); *len = k + 1; break;
    case 3: *buf = a->big; *len = k + 5000; break;
    case 4: memset(*buf, 'o', k); *len = SIZE_MAX; break;
    }
    return RS_DONE;
}
static void run(void)
{
    G = mc_mapp(sizeof *G);
    G->basis = malloc(BNMAX); mc_fill(G->basis, BNMAX, 12345); G->ref = mc_mapp((8 << 20) + 4096);
    G->iw = mc_win_ro(4096); G->ow = mc_win_new(4096);
    G->san = strstr(M->mode, "san") != NULL;
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    if (!strncmp(M->mode, "C07", 3)) { well_formed(M->thorough); places(M->thorough); long_cmds(); }
    else if (!strncmp(M->mode, "C08", 3)) malformed(M->thorough);
    else callbacks(M->thorough);
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
