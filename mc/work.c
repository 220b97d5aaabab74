/* C26: the work (basic blocks executed, bytes moved) of every kind of job, of loading, indexing and looking up,
 * for growing streams and signatures under every schedule family.
 * The library is compiled with -fsanitize-coverage=trace-pc; counting is exact and the same in every run. */
#include "api.h"
static uint64_t work; static int on_;
void __sanitizer_cov_trace_pc(void) { work++; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
/* copying is much faster than the loops it stands beside: 16 bytes count as one step */
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on_) work += 1 + n / 16; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on_) work += 1 + n / 16; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on_) work += 1 + n / 16; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (on_) work += 1 + n / 16; return __real_memcmp(a, b, n); }
void *__wrap_calloc(size_t a, size_t b) { if (on_) work += 1 + a * b / 64; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (on_ && p) work += 1 + n / 64; return __real_realloc(p, n); }
time_t __wrap_time(time_t *t) { if (t) *t = 1000000; return 1000000; }
#define W(stmt) do { on_ = 1; uint64_t w0_ = work; stmt; w_ += work - w0_; on_ = 0; } while (0)
static uint64_t w_, fops;
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fseek(FILE *, long, int); int __real_fseeko(FILE *, off_t, int);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { fops += on_; return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { fops += on_; return __real_fwrite(p, s, n, f); }
int __wrap_fseek(FILE *f, long o, int w) { fops += on_; return __real_fseek(f, o, w); }
int __wrap_fseeko(FILE *f, off_t o, int w) { fops += on_; return __real_fseeko(f, o, w); }

enum { J_SIG, J_LOAD, J_DELTA, J_DELTA0, J_PATCH, NJ };
static const char *jn[] = {"signature", "load", "delta", "delta without signature", "patch"};
typedef struct { const uint8_t *p; size_t n; int mode; } cbs;
static rs_result cb(void *a, rs_long_t pos, size_t *len, void **buf)
{
    cbs *c = a; size_t k = *len; int s = on_; on_ = 0;
    if (pos < 0 || (size_t)pos >= c->n) { on_ = s; return RS_INPUT_ENDED; }
    if (k > c->n - (size_t)pos) k = c->n - (size_t)pos;
    if (c->mode) *buf = (void *)(uintptr_t)(c->p + pos); else __real_memcpy(*buf, c->p + pos, k);
    *len = k; on_ = s; return RS_DONE;
}
typedef struct { size_t in[3], out[3]; } pat;
typedef struct { uint64_t w; long calls; size_t out; rs_result r; } res;
static res run1(rs_job_t *j, const uint8_t *in, size_t n, pat s, size_t outmax)
{
    static uint8_t *ob; static size_t obc; size_t c = 0, p = 0; rs_buffers_t b; res m = {0, 0, 0, RS_BLOCKED}; long lim = (long)(6 * (n + outmax) + 100000);
    w_ = 0;
    for (; m.calls < lim; ) {
        size_t st = s.in[m.calls % 3], os = s.out[m.calls % 3], q = st == SIZE_MAX || p + st > n ? n : p + st;
        m.calls++;
        if (q - c > st && st) q = c + st > p ? c + st : p;
        p = q; if (os == SIZE_MAX) os = 1 << 20;
        if (os > obc) { obc = os + 100; ob = realloc(ob, obc); }
        b.next_in = (char *)(uintptr_t)(in + c); b.avail_in = p - c; b.eof_in = p == n; b.next_out = (char *)ob; b.avail_out = os;
        mc_tick(); W(m.r = rs_job_iter(j, &b));
        c = p - b.avail_in; m.out += os - b.avail_out;
        if (m.r != RS_BLOCKED) break;
    }
    m.w = w_; return m;
}
static void mkdata(int shape, uint8_t *old, size_t on, uint8_t *nw, size_t n, size_t bl)
{
    uint64_t s = 99; mc_fill(old, on, 3);
    if (shape == 0) mc_fill(nw, n, 1234);                                   /* nothing shared */
    else if (shape == 1) for (size_t i = 0; i < n; i++) nw[i] = old[i % on];       /* all shared */
    else if (shape == 2) { memset(old, 0, on); memset(nw, 0, n); }           /* one block everywhere */
    else if (shape == 3) { for (size_t i = 0; i < n; ) { size_t k = mc_rnd(&s) % (2 * bl + 7) + 1, at = on > bl ? (mc_rnd(&s) % (on / bl)) * bl : 0; for (size_t q = 0; q < k && i < n; q++) nw[i++] = (uint8_t)mc_rnd(&s); for (size_t q = 0; q < bl && i < n; q++) nw[i++] = old[(at + q) % on]; } }
    else if (shape == 4) { for (size_t i = 0; i < n; ) { size_t at = (mc_rnd(&s) % (on / bl + 1)) * bl % on; for (size_t q = 0; q + 1 < bl && i < n; q++) nw[i++] = old[(at + q) % on]; if (i < n) nw[i++] = (uint8_t)(mc_rnd(&s) | 1); } }
    else { memset(old, 0, on); for (size_t i = 0; i < n; i++) nw[i] = 1; }       /* constant data that does not match */
}
/* a delta of about n bytes; *outp: how much it makes */
static size_t mkdelta(uint8_t *d, size_t n, int shape, size_t on, size_t *outp)
{
    size_t k = 4, o = 0; uint64_t s = 5; ref_put4(d, REF_DELTA);
    if (shape == 4) { d[k++] = 0x43; ref_put4(d + k, (uint32_t)(n - 70000)); k += 4; mc_fill(d + k, n - 70000, 1); k += n - 70000; *outp = n - 70000; d[k++] = 0; return k; }
    if (shape == 5) { for (int i = 0; i < 3; i++) { d[k++] = 0x4f; ref_put4(d + k, (uint32_t)i); ref_put4(d + k + 4, (uint32_t)(on - 5)); k += 8; } *outp = 3 * (on - 5); d[k++] = 0; return k; }
    while (k + 70000 < n) {
        size_t l = shape == 0 ? 65000 : shape == 1 ? 1 + mc_rnd(&s) % 64 : shape == 2 ? 0 : 1 + mc_rnd(&s) % 900;
        if (l) { if (l <= 64) d[k++] = (uint8_t)l; else { d[k++] = 0x42; d[k++] = (uint8_t)(l >> 8); d[k++] = (uint8_t)l; } mc_fill(d + k, l, k); k += l; o += l; }
        if (shape) { size_t q = 1 + mc_rnd(&s) % 60, a = mc_rnd(&s) % (on - q); d[k++] = 0x4f; ref_put4(d + k, (uint32_t)a); ref_put4(d + k + 4, (uint32_t)q); k += 8; o += q; }
    }
    d[k++] = 0; *outp = o; return k;
}
static int show;
static void jobs(int sc, int th)
{
    static const size_t bl1[] = {1, 3, 16, 31, 64}, bl2[] = {16, 700, 2048, 65536, 70000};
    static const size_t st1[] = {1, 2, 5, 16, 33, 100, SIZE_MAX}, st2[] = {97, 1000, 65537, SIZE_MAX};
    const size_t *bls = sc ? bl1 : bl2, *sts = sc ? st1 : st2; int nst = sc ? 7 : 4;
    for (int jk = 0; jk < NJ; jk++) for (int bi = 0; bi < 5; bi++) for (int shape = 0; shape < 6; shape++) for (int mg = 0; mg < 4; mg++) {
        if ((jk == J_DELTA0 || jk == J_PATCH || jk == J_LOAD) && (bi || mg)) continue;
        if (jk == J_LOAD && shape > 2) continue;
        if (jk == J_SIG && shape > 0) continue;
        if (!th && !sc && mg % 3 && jk == J_DELTA) continue;
        if (!mc_case()) continue;
        size_t bl = bls[bi], on = sc ? 4 * bl + 3 : 3 * bl + 11; if (on < 100) on = 100;
        size_t n0 = sc ? 6 * (16 + bl) + 600 : 4 * (65536 + bl); if (jk == J_LOAD) n0 = sc ? 3000 : 60000;
        uint8_t *old = malloc(on), *nw = malloc(8 * n0 + 70000); rs_result r; vec sg = {0}; runinfo ri; rs_signature_t *ss = NULL;
        mc_desc("%s job, block_len %zu, magic %#x, shape %d: work for %zu bytes and 2, 4 and 8 times as much in every schedule", jn[jk], bl, ref_magics[mg], shape, n0);
        mkdata(shape, old, on, nw, 8 * n0, bl);
        if (jk == J_DELTA) { rs_job_t *j = rs_sig_begin(bl, 8, (rs_magic_number)ref_magics[mg]); r = run_job(j, old, on, ONESHOT, &sg, &ri); rs_job_free(j); ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load: %d", RES(r)); }
        double one = 0;     /* work per byte in the base run */
        for (int i = nst - 1; i >= 0; i--) for (int o = nst - 1; o >= 0; o--) for (int pt = 0; pt < 3; pt++) {
            size_t a = sts[i], b = sts[o]; pat s = {{a, a, a}, {b, b, b}};
            if (pt == 1) { s.in[1] = 0; s.out[2] = 0; } else if (pt == 2) { s.in[0] = 1; s.out[1] = 1; }
            if (pt && (a == SIZE_MAX || b == SIZE_MAX) && !sc) continue;
            int base = a == SIZE_MAX && b == SIZE_MAX && !pt; double prev = 0;
            for (int z = 0; z < (base ? 4 : th ? 4 : 3); z += base ? 1 : 2) {
                size_t n = n0 << z, om = 0; const uint8_t *in = nw; uint8_t *d = NULL; cbs c = {old, on, pt % 2}; rs_signature_t *ls = NULL;
                if (jk == J_PATCH) { if (!sc && shape == 2) n /= 4; d = malloc(n + 150000); if (shape == 5) { c.p = nw; c.n = n; } n = mkdelta(d, n + 70000, shape, c.n, &om); in = d; }
                else if (jk == J_LOAD) { size_t sl = shape == 0 ? 32 : shape == 1 ? 8 : 1, nb = n / (4 + sl); n = 12 + nb * (4 + sl); d = malloc(n); ref_put4(d, RS_RK_BLAKE2_SIG_MAGIC); ref_put4(d + 4, 700); ref_put4(d + 8, (uint32_t)sl); mc_fill(d + 12, n - 12, 7); in = d; }
                else om = jk == J_SIG ? n / bl * 12 + 100 : 2 * n + 100;
                rs_job_t *j = jk == J_SIG ? rs_sig_begin(bl, 8, (rs_magic_number)ref_magics[mg]) : jk == J_LOAD ? rs_loadsig_begin(&ls) : jk == J_PATCH ? rs_patch_begin(cb, &c) : rs_delta_begin(ss);
                res m = run1(j, in, n, s, om); uint64_t wf = work; on_ = 1; rs_job_free(j); on_ = 0; wf = work - wf;
                if (ls) rs_free_sumset(ls);
                free(d);
                MC_CHECK(m.r == RS_DONE, "result %d", RES(m.r));
                MC_CHECK(wf < 2000, "freeing the job took %" PRIu64 " steps", wf);
                M->w->evals++; M->w->transitions += (uint64_t)m.calls;
                /* in the base run the work is one call's; elsewhere the calls cost something too */
                double per = (double)m.w / (double)(n + m.out);
                if (base) {
                    if (!z) one = per; else MC_CHECK(per < 1.6 * prev + 1, "%zu bytes in, %zu out in one call: %.1f steps per byte, and %.1f for half as much", n, m.out, per, prev);
                    if (!sc) MC_CHECK(per < 64, "%.1f steps per byte with block length %zu", per, bl);
                    prev = per; if (per > one) one = per;
                    if (show) fprintf(stderr, "BASE %s bl %zu mg %d shape %d n %zu: %.2f/byte\n", jn[jk], bl, mg, shape, n, per);
                } else {
                    double pb = ((double)m.w - 400.0 * (double)m.calls) / (double)(n + m.out);
                    if (show > 1 || (show && pb > 2 * one + 2)) fprintf(stderr, "  in %zu out %zu pt %d n %zu calls %ld: %.2f/byte, beyond calls %.2f, base %.2f\n", a, b, pt, n, m.calls, per, pb, one);
                    MC_CHECK(pb < 4 * one + 4, "input %zu and output %zu bytes per call, pattern %d: %.1f steps per byte in %ld calls for %zu bytes in and %zu out; in one call %.1f", a, b, pt, per, m.calls, n, m.out, one);
                }
                mc_distinct(mc_mix(m.w * 31 + (uint64_t)((((jk * 8 + bi) * 6 + shape) * 4 + mg) * 64 + i * 8 + o)));
            }
        }
        if (ss) rs_free_sumset(ss);
        free(sg.p); free(old); free(nw);
    }
}
static uint32_t weakof(int kind, size_t i) { switch (kind) { case 0: return (uint32_t)mc_mix(i); case 1: return (uint32_t)i; case 2: return (uint32_t)i << 12; case 3: return (uint32_t)i << 8 | 3; case 4: return 0x12345678; case 5: return (uint32_t)(i % 1000) * 65537u; default: return (uint32_t)i * 0x10001u; } }
static void lookups(int th)
{
    /* signatures of more and more blocks: work to load and index per block, and to look data up */
    for (int mg = 0; mg < 4; mg++) for (int kind = 0; kind < 7; kind++) {
        if (mg > 1 && kind != 0 && kind != 1 && kind != 4) continue;      /* RabinKarp sums are used as they are, and these are none of real data */
        if (!mc_case()) continue;
        double per0 = 0, lk0 = 0; size_t nmax = th ? 1 << 20 : 1 << 17;
        mc_desc("signatures of 1 to %zu blocks, magic %#x, weak sums of kind %d: work per block and per byte looked up", nmax, ref_magics[mg], kind);
        uint8_t *nw = malloc(20000); mc_fill(nw, 20000, 77);
        for (size_t nb = 1; nb <= nmax; nb = nb < 32 ? nb * 2 : nb * 4) for (int off = -1; off <= 1; off++) {
            size_t N = nb + (size_t)off, n = 12 + N * 12; if (off && (nb < 64 || nb > 70000)) continue;
            uint8_t *d = malloc(n); ref_put4(d, ref_magics[mg]); ref_put4(d + 4, 16); ref_put4(d + 8, 8);
            /* kinds 4 and 5: few different blocks, each many times */
            for (size_t i = 0; i < N; i++) { ref_put4(d + 12 + 12 * i, weakof(kind, i)); mc_fill(d + 16 + 12 * i, 8, kind == 4 ? 1 : kind == 5 ? (int)(i % 1000) : (int)i); }
            rs_result r; rs_signature_t *ss = NULL; rs_job_t *j = rs_loadsig_begin(&ss); pat s = {{4096, 4096, 4096}, {100, 100, 100}};
            res m = run1(j, d, n, s, 0); rs_job_free(j); MC_CHECK(m.r == RS_DONE, "load: %d", RES(m.r));
            w_ = 0; W(r = rs_build_hash_table(ss)); MC_CHECK(r == RS_DONE, "index: %d", RES(r)); uint64_t wi = w_;
            w_ = 0; W(r = rs_build_hash_table(ss)); MC_CHECK(r == RS_DONE && w_ < wi + wi / 2 + 1000, "index again: %d, %" PRIu64 " steps, first %" PRIu64, RES(r), w_, wi);
            double per = (double)(wi + m.w) / (double)(N + 64);
            if (show) fprintf(stderr, "INDEX mg %d kind %d N %zu load %.1f index %.1f per block", mg, kind, N, (double)m.w / (double)(N), (double)wi / (double)N);
            if (nb == 512 && !off) per0 = per;
            if (nb > 512) MC_CHECK(per < 3 * per0 + 10, "loading and indexing %zu blocks takes %.1f steps per block, and %.1f for 512", N, per, per0);
            j = rs_delta_begin(ss); res q = run1(j, nw, 20000, (pat){{SIZE_MAX, SIZE_MAX, SIZE_MAX}, {SIZE_MAX, SIZE_MAX, SIZE_MAX}}, 30000); rs_job_free(j); MC_CHECK(q.r == RS_DONE, "delta: %d", RES(q.r));
            double lk = (double)q.w / 20000.0;
            if (show) fprintf(stderr, "  lookup %.2f per byte\n", lk);
            if (nb == 1) lk0 = lk; else MC_CHECK(lk < 4 * lk0 + 8, "scanning new data takes %.1f steps per byte with %zu blocks and %.1f with one", lk, N, lk0);
            w_ = 0; W(rs_free_sumset(ss)); MC_CHECK(w_ < 2000 + N / 2, "freeing a signature of %zu blocks takes %" PRIu64 " steps", N, w_);
            M->w->evals += 3; M->w->transitions += (uint64_t)m.calls; mc_distinct(mc_mix(wi * 7 + q.w + (uint64_t)(mg * 7 + kind) * 1000003 + N)); free(d);
        }
        free(nw);
    }
    /* real files of many blocks: matching, almost matching, repeated */
    for (int mg = 0; mg < 4; mg++) for (int kind = 0; kind < 8; kind++) {
        if (!mc_case()) continue;
        double p0 = 0, ip0 = 0; mc_desc("real old files, magic %#x, kind %d: work per byte of the delta with more and more blocks", ref_magics[mg], kind);
        for (size_t nb = 64; nb <= (th ? 65536 : 16384); nb *= 4) {
            size_t bl = 32, on = nb * bl, nn = 40000; uint8_t *old = malloc(on), *nw = malloc(nn); vec sg = {0}; rs_result r; runinfo ri;
            if (kind == 0 || kind > 4) mc_fill(old, on, 5);
            else if (kind == 1) for (size_t i = 0; i < on; i++) old[i] = (uint8_t)"the quick brown fox jumps over a lazy dog 0123456789\n"[i % 53];
            else if (kind == 2) for (size_t i = 0; i < on; i++) old[i] = i % bl < bl - 4 ? 0 : (uint8_t)(i / bl >> 8 * (i % 4));   /* records: zeros and a number */
            else if (kind == 3) for (size_t i = 0; i < on; i++) { char t[40]; snprintf(t, sizeof t, "%031zu\n", i / bl); old[i] = (uint8_t)t[i % bl]; }    /* lines of digits */
            else for (size_t i = 0; i < on; i++) old[i] = (uint8_t)(i / bl % 7);
            if (kind == 5) { mc_fill(nw, nn, 6); } else if (kind == 6) for (size_t i = 0; i < nn; i++) nw[i] = old[(i + i / 50) % on]; else if (kind == 7) for (size_t i = 0; i < nn; i++) nw[i] = old[on - 1 - i % on]; else for (size_t i = 0; i < nn; i++) nw[i] = old[(i * (i % 3 ? 1 : 7)) % on];
            rs_job_t *j = rs_sig_begin(bl, 8, (rs_magic_number)ref_magics[mg]); r = run_job(j, old, on, ONESHOT, &sg, &ri); rs_job_free(j);
            rs_signature_t *ss = NULL; j = rs_loadsig_begin(&ss); res m = run1(j, sg.p, sg.n, (pat){{SIZE_MAX, SIZE_MAX, SIZE_MAX}, {1, 1, 1}}, 0); rs_job_free(j); MC_CHECK(m.r == RS_DONE, "load: %d", RES(m.r));
            w_ = 0; W(r = rs_build_hash_table(ss)); uint64_t wi = w_; MC_CHECK(r == RS_DONE, "index: %d", RES(r));
            j = rs_delta_begin(ss); res q = run1(j, nw, nn, (pat){{SIZE_MAX, SIZE_MAX, SIZE_MAX}, {SIZE_MAX, SIZE_MAX, SIZE_MAX}}, 3 * nn); rs_job_free(j); MC_CHECK(q.r == RS_DONE, "delta: %d", RES(q.r));
            double p = (double)q.w / (double)nn, ip = (double)wi / (double)nb;
            if (show) fprintf(stderr, "REAL mg %d kind %d nb %zu: index %.1f per block, delta %.2f per byte\n", mg, kind, nb, ip, p);
            if (nb == 64) { p0 = p; ip0 = ip; }
            MC_CHECK(p < 4 * p0 + 8, "scanning new data takes %.1f steps per byte with %zu blocks and %.1f with 64", p, nb, p0);
            /* lines of digits have few different rollsums: that is what rollsum is */
            if (mg > 1 || kind != 3) MC_CHECK(ip < 3 * ip0 + 10, "indexing %zu blocks takes %.1f steps per block, and %.1f for 64", nb, ip, ip0);
            rs_free_sumset(ss); free(sg.p); free(old); free(nw); M->w->evals += 3; mc_distinct(mc_mix(q.w * 31 + nb + (uint64_t)(mg * 8 + kind) * 7919));
        }
    }
}
/* whole-file calls: how often the streams are read, written and positioned */
extern int rs_inbuflen, rs_outbuflen;
typedef struct { const uint8_t *p; size_t n, at; uint64_t reads, seeks, writes, bytes; } ck;
static ssize_t ckr(void *v, char *b, size_t n) { ck *c = v; size_t k = c->at < c->n ? c->n - c->at : 0; if (k > n) k = n; __real_memcpy(b, c->p + c->at, k); c->at += k; c->reads++; c->bytes += k; return (ssize_t)k; }
static ssize_t ckw(void *v, const char *b, size_t n) { ck *c = v; c->writes++; c->bytes += n; return (ssize_t)n; }
static int cks(void *v, off64_t *o, int wh) { ck *c = v; int64_t q = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (int64_t)c->at + *o : (int64_t)c->n + *o; if (q < 0) return -1; c->seeks++; c->at = (size_t)q; *o = q; return 0; }
static char b64[4][64]; static int nb64;
static FILE *ckopen(ck *c, int wr, int unb) { cookie_io_functions_t f = {ckr, ckw, cks, NULL}; FILE *h = fopencookie(c, wr ? "wb" : "rb", f); if (!h) _exit(99); if (unb) setvbuf(h, b64[nb64++ % 4], _IOFBF, 64); return h; }
static void files(int th)
{
    for (int op = 0; op < 4; op++) for (int ib = 0; ib < 5; ib++) for (int ob = 0; ob < 4; ob++) for (int unb = 0; unb < 2; unb++) for (int shape = 0; shape < 6; shape++) {
        static const int ibs[] = {0, 16, 100, 1000, 100000}, obs[] = {0, 16, 100, 5000};
        if (op < 2 && shape) continue;
        if (!mc_case()) continue;
        size_t bl = 700, on = 3 * bl + 50, n0 = 150000; uint8_t *old = malloc(on), *nw = malloc(4 * n0 + 200000); double prev = 0;
        mc_desc("whole-file %s, shape %d, buffers %d/%d, %s stream buffers: reads, writes and seeks for %zu bytes and 4 times as much", jn[op == 2 ? J_DELTA : op == 3 ? J_PATCH : op], shape, ibs[ib], obs[ob], unb ? "64 byte" : "default", n0);
        mkdata(shape, old, on, nw, 4 * n0, bl); rs_signature_t *ss = NULL; vec sg = {0}; rs_result r; runinfo ri;
        rs_job_t *j = rs_sig_begin(bl, 8, RS_RK_BLAKE2_SIG_MAGIC); r = run_job(j, old, on, ONESHOT, &sg, &ri); rs_job_free(j); ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load: %d", RES(r));
        for (int z = 0; z < 3; z += 2) {
            size_t n = n0 << z, om = 0, cmds = 0; const uint8_t *in = nw; uint8_t *d = NULL; size_t bn = on; const uint8_t *bp = old;
            if (op == 3) { d = malloc(n + 150000); if (shape == 5) { bp = nw; bn = n; } n = mkdelta(d, n + 70000, shape, bn, &om); in = d; ref_dres rr = ref_patch(in, n, bp, bn, NULL, 0); cmds = rr.copy_cmds; }
            else if (op == 1) { size_t nb = n / 12; n = 12 + nb * 12; d = malloc(n); ref_put4(d, RS_RK_BLAKE2_SIG_MAGIC); ref_put4(d + 4, 700); ref_put4(d + 8, 8); mc_fill(d + 12, n - 12, 7); in = d; }
            ck ci = {in, n}, co = {0}, cb_ = {bp, bn}; FILE *fi = ckopen(&ci, 0, unb), *fo = ckopen(&co, 1, unb), *fb = ckopen(&cb_, 0, unb); rs_signature_t *ls = NULL;
            rs_inbuflen = ibs[ib]; rs_outbuflen = obs[ob]; w_ = fops = 0; mc_tick();
            W(r = op == 0 ? rs_sig_file(fi, fo, bl, 8, RS_RK_BLAKE2_SIG_MAGIC, NULL) : op == 1 ? rs_loadsig_file(fi, &ls, NULL) : op == 2 ? rs_delta_file(ss, fi, fo, NULL) : rs_patch_file(fb, fi, fo, NULL));
            rs_inbuflen = rs_outbuflen = 0; fclose(fi); fclose(fo); fclose(fb); if (ls) rs_free_sumset(ls); free(d);
            MC_CHECK(r == RS_DONE, "result %d", RES(r));
            /* every byte is read and written once, and in pieces of at least a buffer: the caller's, or where smaller the stream's */
            double bi = unb ? 64 : 1024, bo = bi, li = ibs[ib] ? ibs[ib] : 2048, lo = obs[ob] ? obs[ob] : op == 0 ? 40 : 4096;     /* about the smallest defaults of the library */
            double need = (double)n / bi + (double)co.bytes / bo + (double)cmds + (double)cb_.bytes / bo + 10, did = (double)(ci.reads + co.writes + cb_.reads + ci.seeks + cb_.seeks + co.seeks);
            double lneed = (double)n / li + 3 * (double)co.bytes / lo + 2 * (double)cmds + 10, ldid = (double)fops;
            if (show) fprintf(stderr, "FILES op %d shape %d ib %d ob %d unb %d n %zu: %.0f operations, need %.0f, ratio %.2f; calls ratio %.2f basis %.2f; steps %.2f\n", op, shape, ibs[ib], obs[ob], unb, n, did, need, did / need, ldid / lneed, om ? (double)cb_.bytes / (double)om : 0, (double)w_ / (double)(n + co.bytes));
            MC_CHECK(ci.bytes <= n + 4096, "%" PRIu64 " bytes read from a stream of %zu", ci.bytes, n);
            MC_CHECK(did <= 4 * need + 40, "%.0f reads, writes and seeks; %.0f are enough", did, need);
            MC_CHECK(ldid <= 4 * lneed + 40, "%.0f calls of fread, fwrite and fseek; %.0f are enough", ldid, lneed);
            double per = (double)w_ / (double)(n + co.bytes); if (z) MC_CHECK(per < 1.6 * prev + 1, "%.2f steps per byte, and %.2f for a quarter of the data", per, prev); prev = per;
            M->w->evals++; mc_distinct(mc_mix((uint64_t)did * 31 + w_));
        }
        rs_free_sumset(ss); free(sg.p); free(old); free(nw);
    }
}
static void run(void)
{
    int sc = strstr(M->mode, "scaled") != NULL, th = M->thorough;
    show = getenv("MC_SHOW") ? atoi(getenv("MC_SHOW")) : 0;
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    jobs(sc, th);
    if (!sc) { lookups(th); files(th); }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
