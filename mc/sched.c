/* Families of buffer schedules on larger data with the real 64 KiB literal limit (and under the address sanitizer
 * with exactly sized buffers).  Modes: C02 same output and result as in one call; C03 buffer contract. */
#include "api.h"
#include "virt.h"
static int W3;
typedef struct { size_t i[2], o[2]; int late; } cyc;
static uint8_t *BASIS; static size_t BN; static int CBM;
static rs_result cp(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    size_t k = *len; (void)arg;
    if (pos < 0 || (uint64_t)pos >= BN) return RS_INPUT_ENDED;
    if (k > BN - (size_t)pos) k = BN - (size_t)pos;
    if ((CBM & 4) && k > 1) k = (k + 1) / 2;
    if (CBM & 2) *buf = BASIS + pos; else memcpy(*buf, BASIS + pos, k);
    *len = k; return RS_DONE;
}
/* returns result; output in out */
static rs_result run_cyc(rs_job_t *job, const uint8_t *in, size_t n, cyc s, vec *out, const vec *exp)
{
    size_t c = 0, p = 0; rs_result r; long t = 0; int eof = 0, zero = 0; rs_buffers_t b;
    size_t cap_i = 0, cap_o = 0; uint8_t *ib = NULL, *ob = NULL;
    for (;;) {
        int was = eof && p == n; size_t is = s.i[t & 1], os = s.o[t & 1]; int allp = t > 0 && p == n;
        if (p < n) { p = is > n - p ? n : p + is; }
        if (p == n && (!s.late || allp)) eof = 1;
        size_t ai = p - c, ao = os;
#ifdef __SANITIZE_ADDRESS__
        int exact = 1;
#else
        int exact = 0;
#endif
        if (exact || ai > cap_i) { free(ib); ib = malloc(ai ? ai : 1); cap_i = ai ? ai : 1; }
        if (exact || ao > cap_o) { free(ob); ob = malloc(ao ? ao : 1); cap_o = ao ? ao : 1; }
        if (ai) memcpy(ib, in + c, ai);
        memset(ob, 0x5c, ao < 4096 ? ao : 4096);
        b.next_in = (char *)ib; b.avail_in = ai; b.eof_in = eof; b.next_out = (char *)ob; b.avail_out = ao;
        mc_tick(); M->w->transitions++;
        r = rs_job_iter(job, &b); t++;
        if (b.avail_in > ai || b.avail_out > ao) mc_fail("counts grew");
        size_t used = ai - b.avail_in, got = ao - b.avail_out;
        if (W3) {
            MC_CHECK(b.next_in == (char *)ib + used && b.next_out == (char *)ob + got && b.eof_in == eof, "pointers and counts inconsistent");
            MC_CHECK(!ai || !memcmp(ib, in + c, ai), "input modified");
            MC_CHECK(r != RS_RUNNING && r != RS_INTERNAL_ERROR, "result %d (call %ld, input %zu eof %d, output space %zu)", RES(r), t, ai, eof, ao);
            MC_CHECK(!(r == RS_BLOCKED && was && ao && !got), "blocked with all input, eof and output space");
        }
        vec_add(out, ob, got); c += used;
        if (!W3 && exp && (out->n > exp->n || memcmp(out->p + out->n - got, exp->p + out->n - got, got))) mc_fail("output differs from the one-call output near offset %zu", out->n - got);
        if (r != RS_BLOCKED) break;
        if (eof && !got && !used) { if (++zero > 64) mc_fail("never finishes"); } else zero = 0;
        if (t > (long)(8 * (n + out->n) + 100000)) mc_fail("never finishes");
    }
    free(ib); free(ob);
    return r;
}
typedef struct { int kind; size_t bl, sl; uint32_t magic; const uint8_t *in; size_t n; rs_signature_t *sig; } jobspec;
static rs_signature_t *LS;
static rs_job_t *mk(jobspec *j)
{
    switch (j->kind) { case 0: return rs_sig_begin(j->bl, j->sl, (rs_magic_number)j->magic); case 1: return rs_loadsig_begin(&LS); case 2: return rs_delta_begin(j->sig); default: return rs_patch_begin(cp, NULL); }
}
static void one(jobspec *j, cyc s, const vec *exp, rs_result er)
{
    vec o = {0}; rs_job_t *job = mk(j);
    rs_result r = run_cyc(job, j->in, j->n, s, &o, j->kind == 2 && !j->sig ? NULL : exp);
    rs_job_free(job);
    M->w->evals++; M->w->states++; mc_distinct(mc_hash(j->in, j->n, mc_hash(&s, sizeof s, (uint64_t)j->kind + j->bl * 7 + j->magic)));
    if (!W3) {
        MC_CHECK(r == er, "result %d, in one call %d", RES(r), RES(er));
        if (j->kind == 2 && !j->sig) {
            uint8_t *t = malloc(j->n + 1); ref_dres d = ref_patch(o.p, o.n, NULL, 0, t, j->n + 1);
            MC_CHECK(d.result == REF_OK && d.outlen == j->n && d.used == o.n && !memcmp(t, j->in, j->n), "slack delta does not describe the new file"); free(t);
        } else MC_CHECK(o.n == exp->n, "output %zu bytes, in one call %zu", o.n, exp->n);
    } else MC_CHECK(r == er, "finished with %d, one call with everything with %d", RES(r), RES(er));
    if (j->kind == 1) {
        if (r == RS_DONE && !W3) {      /* loaded signatures equal: delta of the basis */
            vec d = {0}; runinfo ri; rs_build_hash_table(LS);
            rs_job_t *k = rs_delta_begin(LS); run_job(k, BASIS, BN, ONESHOT, &d, &ri); rs_job_free(k);
            vec d2 = {0}; k = rs_delta_begin(j->sig); run_job(k, BASIS, BN, ONESHOT, &d2, &ri); rs_job_free(k);
            MC_CHECK(vec_eq(&d, d2.p, d2.n), "signature loaded in pieces behaves differently from one loaded in one call"); free(d.p); free(d2.p);
        }
        rs_free_sumset(LS);
    }
    free(o.p);
}
static void oneshot(jobspec *j, vec *o, rs_result *r)
{
    runinfo ri; rs_job_t *job = mk(j); o->n = 0;
    *r = run_job(job, j->in, j->n, ONESHOT, o, &ri); rs_job_free(job);
    if (W3) MC_CHECK(!ri.bad, "one call: %s", ri.bad);
    if (j->kind == 1) rs_free_sumset(LS);
}
/* small data: every pair of steps */
static void small_cases(int th, int san)
{
    for (int kind = 0; kind < 4; kind++) for (int v = 0; v < 12; v++) for (int mi = 0; mi < 4; mi++) {
        static const size_t bls[] = {1, 2, 3, 8, 16, 64, 65, 100, 7, 31, 128, 200};
        size_t bl = bls[v]; uint32_t magic = ref_magics[mi]; rs_result r, er;
        if (!mc_case()) continue;
        BN = 210; BASIS = malloc(BN); mc_fill(BASIS, BN, bl); CBM = mi & 1 ? 2 : mi & 2 ? 4 : 0;
        vec sg = {0}, nw = {0}, dl = {0}, e = {0}; size_t sl = v & 1 ? 5 : (size_t)ref_maxstrong(magic);
        vec_need(&sg, ref_siglen(BN, bl, sl)); sg.n = ref_sig(sg.p, magic, bl, sl, BASIS, BN);
        vec_add(&nw, "0123456", 7); vec_add(&nw, BASIS + BN / 2, BN - BN / 2); vec_add(&nw, "xy", 2); vec_add(&nw, BASIS, BN / 3);
        rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load %d", RES(r));
        jobspec j = {kind, bl, sl, magic, 0, 0, ss};
        if (kind == 0) { j.in = BASIS; j.n = BN; } else if (kind == 1) { j.in = sg.p; j.n = sg.n; } else { j.in = nw.p; j.n = nw.n; }
        if (kind == 2 && v == 11) j.sig = NULL;
        if (kind == 3) { jobspec dj = {2, bl, sl, magic, nw.p, nw.n, ss}; oneshot(&dj, &dl, &r); j.in = dl.p; j.n = dl.n; }
        mc_desc("kind %d (0 signature,1 load,2 delta,3 patch), block_len %zu, magic %#x, %zu input bytes: all input step x output step pairs", kind, bl, magic, j.n);
        oneshot(&j, &e, &er);
        MC_CHECK(er == RS_DONE, "one call fails with %d", RES(er));
        size_t st = san ? 2 : 1;
        for (size_t a = 1; a <= j.n + 1 && a <= (th ? 300u : 80u); a += st + a / (th ? 60 : 12)) for (size_t o = 1; o <= e.n + 1 && o <= (th ? 300u : 80u); o += st + o / (th ? 60 : 12)) for (int late = 0; late < 2; late++) {
            cyc c = {{a, a}, {o, o}, late}; one(&j, c, &e, er);
        }
        static const size_t cs[][4] = {{0,1,0,1},{1,0,1,0},{0,5,7,0},{3,1,0,2},{64,1,1,100},{1000,0,0,1},{2,9,1,30},{0,1000,1,1000},{17,64,13,0}};
        for (int q = 0; q < 9; q++) for (int late = 0; late < 2; late++) { cyc c = {{cs[q][0], cs[q][1]}, {cs[q][2], cs[q][3]}, late}; one(&j, c, &e, er); }
        rs_free_sumset(ss); free(sg.p); free(nw.p); free(dl.p); free(e.p); free(BASIS);
    }
}
/* large data around the 64 KiB limits and buffer sizes */
static void large_cases(int th, int san)
{
    static const size_t steps[] = {1, 2, 7, 100, 1000, 4095, 4096, 4097, 16384, 32767, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65539, 67583, 67584, 67585, 70000, 100000, 131070, 131072, 135168, 200000, 270336, 1000000};
    static const size_t outs[] = {1, 3, 50, 1000, 4096, 65532, 65536, 65537, 100000, 262144, 2000000};
    enum { NS = sizeof steps / sizeof *steps, NO = sizeof outs / sizeof *outs };
    static const size_t lits[] = {0, 10, 65532, 65533, 65534, 65536, 70000, 131066, 131067, 140000};
    for (int kind = 0; kind < 4; kind++) for (int bi = 0; bi < 3; bi++) for (int li = 0; li < 10; li++) for (size_t a = 0; a < NS; a++) {
        static const size_t bls[] = {64, 2048, 70000};
        if (kind < 2 && li > 1) continue;
        if (!th && (li + (int)a + bi) % 3) continue;
        if ((san || !th) && steps[a] < (san ? 1000 : 7)) continue;
        if (san && (li % 3 || a % 2)) continue;
        if (!mc_case()) continue;
        size_t bl = bls[bi]; uint32_t magic = ref_magics[(bi + li) % 4]; rs_result r, er; size_t sl = 8;
        BN = bl * 3 + bl / 2; BASIS = malloc(BN); mc_fill(BASIS, BN, bl + 1); CBM = li & 1 ? 2 : 0;
        vec sg = {0}, nw = {0}, dl = {0}, e = {0};
        vec_need(&sg, ref_siglen(BN, bl, sl)); sg.n = ref_sig(sg.p, magic, bl, sl, BASIS, BN);
        vec_need(&nw, lits[li] + 3 * BN); mc_fill(nw.p, lits[li], 3); nw.n = lits[li]; vec_add(&nw, BASIS + bl, 2 * bl); vec_add(&nw, "abc", 3); vec_add(&nw, BASIS, BN);
        rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load %d", RES(r));
        jobspec j = {kind, bl, sl, magic, 0, 0, ss};
        if (kind == 0) { j.in = li ? nw.p : BASIS; j.n = li ? nw.n : BN; } else if (kind == 1) { j.in = sg.p; j.n = sg.n; } else { j.in = nw.p; j.n = nw.n; }
        if (kind == 3) { jobspec dj = {2, bl, sl, magic, nw.p, nw.n, ss}; oneshot(&dj, &dl, &r); j.in = dl.p; j.n = dl.n; }
        mc_desc("kind %d, block_len %zu, %zu new bytes then matches, input step %zu, all output steps", kind, bl, lits[li], steps[a]);
        oneshot(&j, &e, &er);
        MC_CHECK(er == RS_DONE, "one call fails with %d", RES(er));
        for (size_t o = 0; o < NO; o++) for (int late = 0; late < 2; late++) {
            if (late && !th && (o + a) % 2) continue;
            if (outs[o] < (san ? 4096 : 50) && (san || !th || steps[a] < 1000)) continue;
            if (!th && outs[o] < 1000 && (li || steps[a] < 1000)) continue;
            cyc c = {{steps[a], steps[a]}, {outs[o], outs[o]}, late}; one(&j, c, &e, er);
            if (th || (o % 3 == 0 && !san && outs[o] > 1000 && steps[a] > 1000)) { cyc c2 = {{steps[a], 1}, {outs[o], 0}, late}; if (steps[a] > 50 && outs[o] > 40) one(&j, c2, &e, er); }
        }
        rs_free_sumset(ss); free(sg.p); free(nw.p); free(dl.p); free(e.p); free(BASIS);
    }
}
static void run(void)
{
    W3 = !strncmp(M->mode, "C03", 3);
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    int san = strstr(M->mode, "san") != NULL;
    small_cases(M->thorough && !san, san);
    large_cases(M->thorough && !san, san);
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
