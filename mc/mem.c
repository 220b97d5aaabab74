/* C25: memory of every kind of job under every schedule family for streams of growing length; bytes read, written and asked for. */
#include "api.h"
#include <malloc.h>
extern int rs_inbuflen, rs_outbuflen;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int on_; static int64_t live, peak; static long nalloc;
static void acc(void *p, int sign) { if (on_ && p) { live += sign * (int64_t)malloc_usable_size(p); nalloc += sign > 0; if (live > peak) peak = live; } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); acc(p, 1); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); acc(p, 1); return p; }
void *__wrap_realloc(void *o, size_t n) { int64_t k = on_ && o ? (int64_t)malloc_usable_size(o) : 0; void *p = __real_realloc(o, n); if (on_ && p) { live -= k; acc(p, 1); } return p; }
void __wrap_free(void *p) { acc(p, -1); __real_free(p); }
time_t __wrap_time(time_t *t) { if (t) *t = 1000000; return 1000000; }

enum { J_SIG, J_DELTA, J_DELTA0, J_PATCH, NJ };
static const char *jn[] = {"signature", "delta", "delta without signature", "patch"};
typedef struct { int64_t peak, left; size_t asked, given; long calls; rs_result r; } meas;
typedef struct { const uint8_t *p; size_t n; int mode; meas *m; } cbs;
static rs_result cb(void *a, rs_long_t pos, size_t *len, void **buf)
{
    cbs *c = a; size_t k = *len; int s = on_; on_ = 0;
    c->m->calls++; c->m->asked += k;
    if (pos < 0 || (size_t)pos >= c->n) { on_ = s; return RS_INPUT_ENDED; }
    if (k > c->n - (size_t)pos) k = c->n - (size_t)pos;
    if (c->mode == 1 && k > 3) k = 3;
    if (c->mode == 2) *buf = (void *)(uintptr_t)(c->p + pos); else memcpy(*buf, c->p + pos, k);
    *len = k; c->m->given += k; on_ = s; return RS_DONE;
}
/* schedules: fixed amounts of input and output per call, or patterns */
typedef struct { size_t first, in[3], out[3], window; } pat;     /* window: the most input presented at once */
static long extra_calls;        /* for output that the input's length does not bound */
static meas run1(rs_job_t *j, const uint8_t *in, size_t n, pat s, vec *o, meas m)
{
    static uint8_t *ob; static size_t obc; size_t c = 0, p = 0; rs_buffers_t b; rs_result r = RS_BLOCKED; long k = 0, lim = (long)(2000 * n + 100000) + extra_calls;
    for (; k < lim; k++) {
        size_t st = !k && s.first ? s.first : s.in[k % 3], os = s.out[k % 3], q = st == SIZE_MAX || p + st > n ? n : p + st;
        if (q - c > s.window) q = c + s.window > p ? c + s.window : p;
        p = q;
        if (os == SIZE_MAX) os = 1 << 20;
        if (os > obc) { obc = os + 100; ob = realloc(ob, obc); }
        b.next_in = (char *)(uintptr_t)(in + c); b.avail_in = p - c; b.eof_in = p == n; b.next_out = (char *)ob; b.avail_out = os;
        mc_tick(); on_ = 1; r = rs_job_iter(j, &b); on_ = 0;
        c = p - b.avail_in; if (o) vec_add(o, ob, os - b.avail_out); m.left += (int64_t)(os - b.avail_out);
        if (r != RS_BLOCKED) break;
    }
    m.r = r; return m;
}
/* data of a stream: shapes */
static void mkdata(int shape, uint8_t *old, size_t on, uint8_t *nw, size_t n, size_t bl)
{
    uint64_t s = 99; mc_fill(old, on, 3);
    if (shape == 0) mc_fill(nw, n, 1234);                                   /* nothing shared */
    else if (shape == 1) for (size_t i = 0; i < n; i++) nw[i] = old[i % on];       /* all shared */
    else if (shape == 2) { memset(old, 0, on); memset(nw, 0, n); }           /* one block everywhere */
    else if (shape == 3) { for (size_t i = 0; i < n; ) { size_t k = mc_rnd(&s) % (2 * bl + 7) + 1, at = on > bl ? (mc_rnd(&s) % (on / bl)) * bl : 0; for (size_t q = 0; q < k && i < n; q++) nw[i++] = (uint8_t)mc_rnd(&s); for (size_t q = 0; q < bl && i < n; q++) nw[i++] = old[(at + q) % on]; } }   /* blocks between new data */
    else { for (size_t i = 0; i < n; ) { size_t at = (mc_rnd(&s) % (on / bl + 1)) * bl % on; for (size_t q = 0; q + 1 < bl && i < n; q++) nw[i++] = old[(at + q) % on]; if (i < n) nw[i++] = (uint8_t)(mc_rnd(&s) | 1); } }   /* blocks with the last byte changed */
}
static size_t mkdelta(uint8_t *d, size_t n, int shape, size_t on)
{
    size_t k = 4; uint64_t s = 5; ref_put4(d, REF_DELTA);
    if (shape == 4) { d[k++] = 0x43; ref_put4(d + k, (uint32_t)(n - 70000)); k += 4; mc_fill(d + k, n - 70000, 1); k += n - 70000; }
    if (shape >= 4) { for (int i = 0; i < (shape == 4 ? 1 : 3); i++) { d[k++] = 0x4f; ref_put4(d + k, (uint32_t)i); ref_put4(d + k + 4, (uint32_t)(on - 5)); k += 8; } d[k++] = 0; return k; }
    while (k + 70000 < n) {
        size_t l = shape == 0 ? 65000 : shape == 1 ? 1 + mc_rnd(&s) % 64 : shape == 2 ? 0 : 1 + mc_rnd(&s) % 900;
        if (l) { if (l <= 64) d[k++] = (uint8_t)l; else { d[k++] = 0x42; d[k++] = (uint8_t)(l >> 8); d[k++] = (uint8_t)l; } mc_fill(d + k, l, k); k += l; }
        if (shape) { size_t a = mc_rnd(&s) % on, q = 1 + mc_rnd(&s) % (on - a); d[k++] = 0x4f; for (int i = 3; i >= 0; i--) d[k++] = (uint8_t)(a >> 8 * i); d[k++] = 0; d[k++] = 0; d[k++] = 0; d[k++] = 0; d[k - 4] = (uint8_t)(q >> 24); d[k - 3] = (uint8_t)(q >> 16); d[k - 2] = (uint8_t)(q >> 8); d[k - 1] = (uint8_t)q; }
        d[k++] = 0x4f; memset(d + k, 0, 8); d[k + 7] = 1; k += 8;
    }
    d[k++] = 0; return k;
}
#ifndef RS_VERIF_MAX_DELTA_CMD
#  define LIT 65536u
#else
#  define LIT RS_VERIF_MAX_DELTA_CMD
#endif
static void run(void)
{
    int sc = strstr(M->mode, "scaled") != NULL, th = M->thorough; size_t lit = LIT;
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    static const size_t bl1[] = {1, 2, 3, 7, 16, 31, 64}, bl2[] = {16, 700, 65536, 70000};
    static const size_t st1[] = {1, 2, 3, 5, 15, 16, 17, 31, 33, 64, 100, SIZE_MAX}, st2[] = {97, 1000, 4096, 65537, 65539, 140000, SIZE_MAX};
    const size_t *bls = sc ? bl1 : bl2, *sts = sc ? st1 : st2; int nbl = sc ? 7 : 4, nst = sc ? 12 : 7;
    if (sc) lit = 16;
    for (int jk = 0; jk < NJ; jk++) for (int bi = 0; bi < nbl; bi++) for (int shape = 0; shape < 6; shape++) for (int mg = 0; mg < 4; mg += th ? 1 : 3) for (int i = 0; i < nst; i++) {
        if ((jk == J_DELTA0 || jk == J_PATCH) && (bi || mg)) continue;
        if (jk != J_PATCH && shape > 4) continue;
        if (jk == J_SIG && shape) continue;
        if (!sc && !th && jk == J_DELTA && ((mg == 0 && shape) || (bi > 1 && shape > 1 && shape != 3))) continue;
        if (!mc_case()) continue;
        size_t bl = bls[bi], on = sc ? 4 * bl + 3 : 3 * bl + 11; if (on < 40) on = 40;
        if (jk == J_PATCH) on = 3000;
        /* base length: beyond every internal buffer; then 2 and 4 times as much */
        size_t n0 = 8 * (lit + bl) + 600 + (sts[i] == SIZE_MAX ? 0 : 8 * sts[i]); uint8_t *old = malloc(on), *nw = malloc(4 * n0 + 70100 * 4); rs_result r; vec sg = {0}; runinfo ri;
        mc_desc("%s job, block_len %zu, magic %#x, data shape %d, %zu bytes of input per call, every amount of output space; streams of %zu bytes and 4 times as much", jn[jk], bl, ref_magics[mg], shape, sts[i], n0);
        mkdata(shape, old, on, nw, 4 * n0, bl);
        rs_signature_t *ss = NULL;
        if (jk == J_DELTA) { rs_job_t *j = rs_sig_begin(bl, 8, (rs_magic_number)ref_magics[mg]); r = run_job(j, old, on, ONESHOT, &sg, &ri); rs_job_free(j); ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load: %d", RES(r)); }
        for (int o = 0; o < nst; o++) for (int pt = 0; pt < 5; pt++) {
            if (!sc && !th && (o == 1 || o == 3 || o == 5)) continue;
            size_t a = sts[i], b = sts[o]; pat s = {0, {a, a, a}, {b, b, b}, a};
            if (a == SIZE_MAX && pt > 1) continue;      /* the library may keep what it is given at once, and here that is all */
            if (pt == 1) { s.in[1] = 0; s.out[2] = 0; } else if (pt == 2) { s.first = a / 7 + 1; s.out[1] = 1; } else if (pt == 3) { s.in[0] = s.in[1] = 1; s.out[0] = 0; s.window = 2 * a; } else if (pt == 4) { s.first = 10; s.window = 2 * a; }
            if (!sc && pt == 3 && a < 60000 && !th) continue;
            int64_t pk[3] = {0}; 
            for (int z = 0; z < 3; z += 2) {
                size_t n = n0 << z; meas m = {0}; cbs c = {old, on, pt % 3, &m}; const uint8_t *in = nw; uint8_t *d = NULL;
                if (jk == J_PATCH) { d = malloc(n + 150000); if (shape == 5) { c.p = nw; c.n = n; } n = mkdelta(d, n + 70000, shape, c.n); in = d; }
                extra_calls = jk == J_PATCH && shape == 5 ? 20 * (long)c.n : 0;
                live = peak = 0; nalloc = 0; on_ = 1;
                rs_job_t *j = jk == J_SIG ? rs_sig_begin(bl, 8, (rs_magic_number)ref_magics[mg]) : jk == J_PATCH ? rs_patch_begin(cb, &c) : rs_delta_begin(ss); on_ = 0;
                m.r = run1(j, in, n, s, NULL, m).r; extra_calls = 0; on_ = 1; rs_job_free(j); on_ = 0;
                MC_CHECK(m.r == RS_DONE, "result %d", RES(m.r));
                pk[z] = peak; M->w->evals++; M->w->transitions += (uint64_t)nalloc;
                MC_CHECK(live == 0, "%" PRId64 " bytes in use after the job", live);
                if (jk == J_PATCH) { ref_dres rr = ref_patch(in, n, c.p, c.n, NULL, 0); MC_CHECK(m.given == rr.copy_bytes, "the basis reader delivered %zu bytes for %" PRIu64 " bytes of copies", m.given, rr.copy_bytes); }
                free(d);
            }
            mc_distinct(mc_mix((uint64_t)pk[2] * 31 + (uint64_t)((((jk * 8 + bi) * 6 + shape) * 12 + i) * 12 + o) * 5 + (uint64_t)pt));
            /* while the scoop grows: one of twice what a block, a command and the input presented at once need, and the one before */
            int64_t bd = (int64_t)(4 * ((jk == J_PATCH ? 0 : jk == J_SIG ? bl : lit + bl) + (a == SIZE_MAX ? 0 : s.window)) + 4096);
            for (int z = 0; z < 3; z++) MC_CHECK(pk[z] <= bd, "input %zu and output %zu bytes per call, pattern %d: %" PRId64 " bytes of memory for a stream of %zu bytes; %" PRId64 " are enough for block length %zu, literal limit %zu and %zu bytes presented at once", a, b, pt, pk[z], n0 << z, bd, bl, lit, s.window);
        }
        if (ss) rs_free_sumset(ss);
        free(sg.p); free(old); free(nw);
    }
    /* loaded signatures: memory in proportion to the blocks, at any speed of loading, known size or not; also with the index */
    for (int k = 0; k < 9; k++) for (int l = 0; l < 5; l++) for (int how = 0; how < 7; how++) {
        static const size_t nbs[] = {0, 1, 2, 17, 100, 1000, 5000, 20000, 131073}, sls[] = {1, 3, 8, 16, 32};
        if (!mc_case()) continue;
        size_t nb = nbs[k], sl = sls[l], n = 12 + nb * (4 + sl); uint8_t *d = malloc(n); rs_result r = RS_DONE; rs_signature_t *ss = NULL;
        mc_desc("memory of a signature of %zu blocks with strong sums of %zu bytes, loading style %d", nb, sl, how);
        ref_put4(d, RS_RK_BLAKE2_SIG_MAGIC); ref_put4(d + 4, 700); ref_put4(d + 8, (uint32_t)sl); mc_fill(d + 12, n - 12, k * 7 + l);
        live = peak = 0;
        if (how < 4) { static const size_t stp[] = {SIZE_MAX, 1, 13, 1000}; pat s = {0, {stp[how], stp[how], stp[how]}, {1, 1, 1}, SIZE_MAX / 2}; meas m = {0}; on_ = 1; rs_job_t *j = rs_loadsig_begin(&ss); on_ = 0; m = run1(j, d, n, s, NULL, m); r = m.r; on_ = 1; rs_job_free(j); on_ = 0; }
        else { FILE *f = how == 4 ? tmpfile() : how == 5 ? fmemopen(d, n, "rb") : NULL; if (how == 4) { fwrite(d, 1, n, f); rewind(f); }
            if (how == 6) { f = tmpfile(); fwrite("0123456789", 1, 10, f); fwrite(d, 1, n, f); fseek(f, 10, SEEK_SET); }
            rs_inbuflen = 4096; on_ = 1; r = rs_loadsig_file(f, &ss, NULL); on_ = 0; fclose(f); rs_inbuflen = 0; }
        MC_CHECK(r == RS_DONE, "result %d", RES(r)); M->w->evals++;
        int64_t ent = (int64_t)nb * (int64_t)((4 + sl + 3) & ~(size_t)3);
        MC_CHECK(live <= 2 * ent + ent / 8 + 4096, "a loaded signature of %zu blocks holds %" PRId64 " bytes; its sums take %" PRId64, nb, live, ent);
        MC_CHECK(peak <= 4 * ent + 20000, "loading a signature of %zu blocks took %" PRId64 " bytes; its sums take %" PRId64, nb, peak, ent);
        int64_t l0 = live;
        for (int again = 0; again < 3; again++) { on_ = 1; r = rs_build_hash_table(ss); on_ = 0; MC_CHECK(r == RS_DONE, "index: %d", RES(r)); MC_CHECK(live - l0 <= (int64_t)nb * 64 + 4096, "the index of %zu blocks takes %" PRId64 " bytes", nb, live - l0); }
        /* lookups take nothing */
        int64_t l1 = live; uint8_t *nw = malloc(30000); mc_fill(nw, 30000, 8); meas m = {0}; pat s = {0, {1000, 1, 500}, {SIZE_MAX, 100, 7}, 1000};
        for (int rep = 0; rep < 3; rep++) { on_ = 1; rs_job_t *j = rs_delta_begin(ss); on_ = 0; m = run1(j, nw, 30000, s, NULL, m); on_ = 1; rs_job_free(j); on_ = 0; MC_CHECK(m.r == RS_DONE && live == l1, "delta %d: result %d, memory grew by %" PRId64, rep, RES(m.r), live - l1); M->w->evals++; }
        on_ = 1; rs_free_sumset(ss); on_ = 0; MC_CHECK(live == 0, "%" PRId64 " bytes left", live);
        mc_distinct(mc_mix((uint64_t)((k * 5 + l) * 7 + how) + 1234567)); free(nw); free(d);
    }
    /* whole-file calls: memory fixed by the buffers and the block length; every byte read and written once */
    for (int op = 0; op < 3; op++) for (int ib = 0; ib < 4; ib++) for (int ob = 0; ob < 3; ob++) for (int kind = 0; kind < 2; kind++) for (int bi = 0; bi < nbl; bi++) {
        static const int ibs[] = {0, 16, 1000, 100000}, obs[] = {0, 16, 5000};
        if (!th && kind && (ib || ob || sc)) continue;
        if (!mc_case()) continue;
        size_t bl = bls[bi], n0 = 16 * (lit + bl) + 6 * (size_t)ibs[ib] + 300000, on = 3 * bl + 50; uint8_t *old = malloc(on), *nw = malloc(4 * n0); rs_result r; vec sg = {0}; runinfo ri; int64_t pk[3];
        mc_desc("whole-file %s, block_len %zu, buffers %d/%d, %s: memory for %zu bytes and 4 times as much", op == 0 ? "signature" : op == 1 ? "delta" : "patch", bl, ibs[ib], obs[ob], kind ? "memory stream" : "regular file", n0);
        mkdata(3, old, on, nw, 4 * n0, bl); rs_signature_t *ss = NULL;
        rs_job_t *j = rs_sig_begin(bl, 8, RS_RK_BLAKE2_SIG_MAGIC); r = run_job(j, old, on, ONESHOT, &sg, &ri); rs_job_free(j); ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load: %d", RES(r));
        for (int z = 0; z < 3; z += 2) {
            size_t n = n0 << z; const uint8_t *in = nw; uint8_t *d = NULL;
            if (op == 2) { d = malloc(n + 150000); n = mkdelta(d, n + 70000, 3, on); in = d; }
            FILE *f = kind ? fmemopen((void *)(uintptr_t)in, n, "rb") : tmpfile(), *fo = fopen("/dev/null", "wb"), *fb = fmemopen(old, on, "rb"); if (!f || !fo || !fb) _exit(99);
            if (!kind) { if (fwrite(in, 1, n, f) != n) _exit(99); rewind(f); }
            rs_inbuflen = ibs[ib]; rs_outbuflen = obs[ob]; live = peak = 0; mc_tick(); on_ = 1;
            r = op == 0 ? rs_sig_file(f, fo, bl, 8, RS_RK_BLAKE2_SIG_MAGIC, NULL) : op == 1 ? rs_delta_file(ss, f, fo, NULL) : rs_patch_file(fb, f, fo, NULL);
            on_ = 0; rs_inbuflen = rs_outbuflen = 0; fclose(f); fclose(fo); fclose(fb); free(d); pk[z] = peak; M->w->evals++;
            MC_CHECK(r == RS_DONE && live == 0, "result %d, %" PRId64 " bytes in use after the call", RES(r), live);
        }
        int64_t bd = (int64_t)(16 * (lit + bl) + 6 * (size_t)ibs[ib] + 2 * (size_t)obs[ob] + 16384);
        for (int z = 0; z < 3; z++) MC_CHECK(pk[z] <= bd, "%" PRId64 " bytes of memory for a stream of %zu bytes; %" PRId64 " are enough", pk[z], n0 << z, bd);
        mc_distinct(mc_mix((uint64_t)((((op * 4 + ib) * 3 + ob) * 2 + kind) * 8 + bi) + 7654321));
        rs_free_sumset(ss); free(sg.p); free(old); free(nw);
    }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
