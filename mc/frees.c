/* C21 (second part): allocation ledger over the whole-file calls with every truncation, corruption and I/O fault, and allocation faults while indexing a signature. */
#include "arena.h"
#include "api.h"
typedef struct { const uint8_t *p; size_t n, at, fail; } src;
static ssize_t s_read(void *c, char *b, size_t n) { src *s = c; if (s->at >= s->fail) { errno = EIO; return -1; } if (s->at >= s->n) return 0; size_t k = s->n - s->at; if (k > n) k = n; if (k > s->fail - s->at) k = s->fail - s->at; memcpy(b, s->p + s->at, k); s->at += k; return (ssize_t)k; }
static int s_seek(void *c, off64_t *o, int w) { src *s = c; int64_t p = *o + (w == SEEK_CUR ? (int64_t)s->at : w == SEEK_END ? (int64_t)s->n : 0); if (p < 0) return -1; s->at = (size_t)p; *o = p; return 0; }
typedef struct { size_t got, fail; } dst;
static ssize_t d_write(void *c, const char *b, size_t n) { dst *d = c; (void)b; if (d->got + n > d->fail) { errno = ENOSPC; return 0; } d->got += n; return (ssize_t)n; }
static FILE *fin(src *s) { cookie_io_functions_t io = {s_read, NULL, s_seek, NULL}; FILE *f = fopencookie(s, "r", io); if (!f) _exit(99); setvbuf(f, NULL, _IONBF, 0); return f; }
static FILE *fout(dst *d) { cookie_io_functions_t io = {NULL, d_write, NULL, NULL}; FILE *f = fopencookie(d, "w", io); if (!f) _exit(99); setvbuf(f, NULL, _IONBF, 0); return f; }
enum { O_SIG, O_LOAD, O_DELTA, O_PATCH };
static void clean(const char *what, int op, rs_result r)
{
    const char *c = ar_check();
    MC_CHECK(!c, "%s (operation %d, result %d): %s", what, op, RES(r), c);
    MC_CHECK(AC->live == 0, "%s (operation %d, result %d): %ld allocations (%zu bytes) not released", what, op, RES(r), AC->live, AC->live_bytes);
    M->w->evals++; M->w->transitions += (uint64_t)AC->nalloc;
    ar_reset();
}
static rs_signature_t *mksig(const uint8_t *o, size_t on, size_t bl, uint32_t mg, vec *sg)
{
    rs_result r; vec_need(sg, ref_siglen(on, bl, 8) + 16); sg->n = ref_sig(sg->p, mg, bl, 8, o, on);
    AC->on = 1; src s = {sg->p, sg->n, 0, SIZE_MAX}; AC->on = 0; FILE *f = fin(&s); rs_signature_t *ss = NULL;
    AC->on = 1; r = rs_loadsig_file(f, &ss, NULL); AC->on = 0; fclose(f);
    MC_CHECK(r == RS_DONE, "load failed %d", RES(r));
    return ss;
}
/* one whole-file call; data = its main input */
static void one(int op, const uint8_t *data, size_t n, size_t ifail, size_t ofail, const uint8_t *basis, size_t bn, rs_signature_t *sig, size_t bfail)
{
    src s = {data, n, 0, ifail}, b = {basis, bn, 0, bfail}; dst d = {0, ofail}; FILE *f = fin(&s), *o = fout(&d), *bf = fin(&b); rs_result r; rs_signature_t *ss = NULL;
    rs_stats_t st;
    mc_tick(); AC->on = 1;
    if (op == O_SIG) r = rs_sig_file(f, o, 4, 8, RS_RK_MD4_SIG_MAGIC, &st);
    else if (op == O_LOAD) r = rs_loadsig_file(f, &ss, &st);
    else if (op == O_DELTA) r = rs_delta_file(sig, f, o, &st);
    else r = rs_patch_file(bf, f, o, &st);
    if (op == O_LOAD && ss) rs_free_sumset(ss);
    AC->on = 0;
    fclose(f); fclose(o); fclose(bf);
    if (op != O_DELTA) clean("whole-file call", op, r);
    else M->w->evals++;
    mc_distinct(mc_hash(data, n, (uint64_t)op * 1000003 + (uint64_t)r * 7 + ifail * 31 + ofail));
}
static void run(void)
{
    ar_init(); rs_trace_to(quiet_sink);
    uint8_t old[64], nw[96]; vec sg = {0}, dl = {0}, o2 = {0};
    for (int i = 0; i < 50; i++) old[i] = (uint8_t)('a' + i * 7 % 13);
    memcpy(nw, old + 8, 20); memcpy(nw + 20, "literal data!", 13); memcpy(nw + 33, old, 30); memcpy(nw + 63, old + 44, 6);
    size_t on = 50, nn = 69;
    static const size_t bls[] = {4, 7};
    for (int bi = 0; bi < 2; bi++) for (int mi = 0; mi < 4; mi++) for (int ib = 0; ib < 3; ib++) {
        uint32_t mg = ref_magics[mi]; size_t bl = bls[bi]; static const int IB[] = {0, 1, 13};
        rs_inbuflen = IB[ib]; rs_outbuflen = IB[ib];
        /* reference delta */
        if (!mc_case()) continue;
        mc_desc("whole-file calls, block_len %zu magic %#x buffers %d: every truncation, corruption, input fault and output fault", bl, mg, IB[ib]);
        rs_result r; runinfo ri; size_t sn; uint8_t sgb[400]; sn = ref_sig(sgb, mg, bl, 8, old, on);
        rs_signature_t *ss = load_sig(sgb, sn, ONESHOT, &r); rs_job_t *j = rs_delta_begin(ss); dl.n = 0; r = run_job(j, nw, nn, ONESHOT, &dl, &ri); rs_job_free(j); rs_free_sumset(ss); MC_CHECK(r == RS_DONE, "delta failed");
        uint8_t buf[600];
        for (size_t k = 0; k <= on; k++) { one(O_SIG, old, k, SIZE_MAX, SIZE_MAX, NULL, 0, NULL, SIZE_MAX); one(O_SIG, old, on, k, SIZE_MAX, NULL, 0, NULL, SIZE_MAX); }
        for (size_t k = 0; k <= sn; k++) { one(O_SIG, old, on, SIZE_MAX, k, NULL, 0, NULL, SIZE_MAX); one(O_LOAD, sgb, k, SIZE_MAX, 0, NULL, 0, NULL, SIZE_MAX); one(O_LOAD, sgb, sn, k, 0, NULL, 0, NULL, SIZE_MAX); }
        for (size_t k = 0; k < sn && k < 24; k++) for (int v = 0; v < 4; v++) { memcpy(buf, sgb, sn); buf[k] = (uint8_t)(v == 0 ? 0 : v == 1 ? 0xff : v == 2 ? buf[k] + 1 : buf[k] ^ 0x80); if (k >= 4 && k < 8 && buf[4] | buf[5] | buf[6]) continue; one(O_LOAD, buf, sn, SIZE_MAX, 0, NULL, 0, NULL, SIZE_MAX); }
        for (size_t k = 0; k <= dl.n; k++) { one(O_PATCH, dl.p, k, SIZE_MAX, SIZE_MAX, old, on, NULL, SIZE_MAX); one(O_PATCH, dl.p, dl.n, k, SIZE_MAX, old, on, NULL, SIZE_MAX); one(O_PATCH, dl.p, dl.n, SIZE_MAX, SIZE_MAX, old, k < on ? k : on, NULL, SIZE_MAX); one(O_PATCH, dl.p, dl.n, SIZE_MAX, SIZE_MAX, old, on, NULL, k < on ? k : on); }
        for (size_t k = 0; k <= nn; k++) one(O_PATCH, dl.p, dl.n, SIZE_MAX, k, old, on, NULL, SIZE_MAX);
        for (size_t k = 0; k < dl.n; k++) for (int v = 0; v < 5; v++) { memcpy(buf, dl.p, dl.n); buf[k] = (uint8_t)(v == 0 ? 0 : v == 1 ? 0xff : v == 2 ? buf[k] + 1 : v == 3 ? buf[k] ^ 0x80 : 0x54); one(O_PATCH, buf, dl.n, SIZE_MAX, SIZE_MAX, old, on, NULL, SIZE_MAX); }
        /* deltas: the signature stays with the caller through any failure */
        for (size_t k = 0; k <= nn; k++) for (int v = 0; v < 3; v++) {
            rs_signature_t *s = mksig(old, on, bl, mg, &sg); AC->on = 1; r = rs_build_hash_table(s); AC->on = 0; MC_CHECK(r == RS_DONE, "rs_build_hash_table %d", RES(r));
            long live = AC->live;
            one(O_DELTA, nw, v == 0 ? k : nn, v == 1 ? k : SIZE_MAX, v == 2 ? k : SIZE_MAX, NULL, 0, s, SIZE_MAX);
            MC_CHECK(AC->live == live && !ar_check(), "rs_delta_file leaves %ld allocations, there were %ld before: %s", AC->live, live, ar_check() ? ar_check() : "");
            dst d = {0, SIZE_MAX}; (void)d; o2.n = 0; vec_need(&o2, 2000);
            AC->on = 1; j = rs_delta_begin(s); AC->on = 0; AC->on = 1;
            { rs_buffers_t b = { (char *)nw, nn, 1, (char *)o2.p, 2000 }; r = rs_job_iter(j, &b); o2.n = 2000 - b.avail_out; } rs_job_free(j); AC->on = 0;
            MC_CHECK(r == RS_DONE && vec_eq(&o2, dl.p, dl.n), "signature no longer works after a delta that ended early");
            AC->on = 1; rs_free_sumset(s); AC->on = 0; clean("signature after deltas", O_DELTA, r);
            one(O_DELTA, nw, v == 0 ? k : nn, v == 1 ? k : SIZE_MAX, v == 2 ? k : SIZE_MAX, NULL, 0, NULL, SIZE_MAX); clean("delta without signature", O_DELTA, RS_DONE);
        }
        M->w->states++;
    }
    rs_inbuflen = rs_outbuflen = 0;
    /* allocation faults while indexing */
    static const size_t NB[] = {0, 1, 2, 5, 16, 17, 100, 1000};
    for (int i = 0; i < 8; i++) for (int mi = 0; mi < 4; mi++) for (int again = 0; again < 3; again++) {
        if (!mc_case()) continue;
        size_t n = NB[i] * 3; uint32_t mg = ref_magics[mi]; mc_desc("indexing %zu blocks, magic %#x, with each allocation failing in turn; %d earlier successful calls", NB[i], mg, again);
        uint8_t *o = malloc(n + 16); mc_fill(o, n + 16, 5); rs_result r; vec out = {0}; vec_need(&out, 20000);
        for (long f = 0; f < 12; f++) {
            rs_signature_t *s = mksig(o, n, 3, mg, &sg); long lv;
            AC->on = 1; for (int k = 0; k < again; k++) { r = rs_build_hash_table(s); MC_CHECK(r == RS_DONE, "rs_build_hash_table call %d: %d", k, RES(r)); }
            AC->on = 0; lv = AC->live; AC->fail_at = AC->nalloc + f; AC->failed = 0;
            AC->on = 1; r = rs_build_hash_table(s); AC->on = 0; AC->fail_at = -1;
            if (AC->failed) {
                MC_CHECK(r == RS_MEM_ERROR, "allocation %ld of indexing fails: result %d, expected RS_MEM_ERROR", f, RES(r));
                MC_CHECK(AC->live <= lv, "failed indexing leaves %ld allocations behind", AC->live - lv);
                if (f & 1) { AC->on = 1; rs_free_sumset(s); AC->on = 0; clean("signature whose indexing failed", -1, r); s = mksig(o, n, 3, mg, &sg); }
                AC->on = 1; r = rs_build_hash_table(s); AC->on = 0;
            }
            MC_CHECK(r == RS_DONE, "rs_build_hash_table after an earlier memory error: %d", RES(r));
            AC->on = 1; rs_job_t *j = rs_delta_begin(s); rs_buffers_t b = { (char *)o, n, 1, (char *)out.p, 20000 }; r = rs_job_iter(j, &b); rs_job_free(j); AC->on = 0;
            out.n = 20000 - b.avail_out; ref_dres d = ref_patch(out.p, out.n, o, n, NULL, 0);
            MC_CHECK(r == RS_DONE && d.result == REF_OK && d.outlen == n && d.lit_bytes == 0, "delta after an indexing fault: result %d, %" PRIu64 " literal bytes", RES(r), d.lit_bytes);
            AC->on = 1; rs_free_sumset(s); AC->on = 0; clean("indexed signature", -1, r); M->w->states++;
        }
        free(o); free(out.p);
    }
    /* signatures freed in every state of loading, jobs freed before or after */
    for (int mi = 0; mi < 4; mi++) for (int st = 1; st < 30; st += 4) {
        if (!mc_case()) continue;
        mc_desc("loading abandoned after each number of bytes in steps of %d, then freed", st);
        uint8_t sgb[400]; size_t sn = ref_sig(sgb, ref_magics[mi], 4, 8, old, on);
        for (size_t stop = 0; stop <= sn; stop++) {
            rs_signature_t *s = NULL; AC->on = 1; rs_job_t *j = rs_loadsig_begin(&s); rs_result r = RS_BLOCKED; size_t at = 0;
            while (at < stop && r == RS_BLOCKED) { size_t k = stop - at < (size_t)st ? stop - at : (size_t)st; rs_buffers_t b = { (char *)sgb + at, k, 0, NULL, 0 }; r = rs_job_iter(j, &b); at += k - b.avail_in; if (b.avail_in == k) break; }
            rs_job_free(j); rs_free_sumset(s);
            AC->on = 0; clean("abandoned load", O_LOAD, r); M->w->states++;
        }
    }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
