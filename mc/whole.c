/* Whole-file calls: C11 I/O faults at every operation, C12 equality with streaming for all buffer sizes and stream
 * kinds, C18 statistics of whole-file and streaming runs. */
#include "api.h"
#include <pthread.h>
#include <sys/socket.h>
extern int rs_inbuflen, rs_outbuflen;

/* ---- cookie streams over memory, with faults ---- */
enum { F_NONE, R_ERR1, R_ERRS, R_SHORT, R_HALFERR, R_ERREND, W_ERR1, W_ERRS, W_SHORT, W_HALFERR, S_ERR1, S_ERRS, NF };
static const char *fname[] = {"none", "read error once", "read error from here on", "short read", "short read then error", "read error, then end of file", "write error once", "write error from here on", "short write", "short write then error", "seek error once", "seek error from here on"};
typedef struct {
    vec v; size_t pos; long nr, nw, ns; int fault; long at; int hit; int pend, ended; size_t chunk;
    int fault2; long at2;
} cs;
static int fires(cs *c, int f, long at, long idx, int k1, int ks, int kk, int kh)
{
    if (f == ks) return idx >= at;
    return (f == k1 || f == kk || f == kh) && idx == at;
}
static ssize_t c_read(void *ck, char *b, size_t n)
{
    cs *c = ck; long i = c->nr++; size_t k = c->v.n > c->pos ? c->v.n - c->pos : 0;
    if (k > n) k = n;
    if (c->chunk && k > c->chunk) k = c->chunk;
    if (c->ended) return 0;
    if (c->pend) { c->pend = 0; c->hit = 1; errno = EIO; return -1; }
    for (int q = 0; q < 2; q++) { int f = q ? c->fault2 : c->fault; long at = q ? c->at2 : c->at;
        if (f == R_ERREND && i == at) { c->ended = c->hit = 1; errno = EIO; return -1; }
        if (fires(c, f, at, i, R_ERR1, R_ERRS, R_SHORT, R_HALFERR)) {
            if (f == R_ERR1 || f == R_ERRS) { c->hit = 1; errno = EIO; return -1; }
            if (k > 1) k = f == R_SHORT ? 1 : k / 2;
            if (f == R_HALFERR) c->pend = 1;
        } }
    memcpy(b, c->v.p + c->pos, k); c->pos += k;
    return (ssize_t)k;
}
static ssize_t c_write(void *ck, const char *b, size_t n)
{
    cs *c = ck; long i = c->nw++; size_t k = n;
    if (c->chunk && k > c->chunk) k = c->chunk;
    if (c->pend) { c->pend = 0; c->hit = 1; errno = ENOSPC; return 0; }
    for (int q = 0; q < 2; q++) { int f = q ? c->fault2 : c->fault; long at = q ? c->at2 : c->at;
        if (fires(c, f, at, i, W_ERR1, W_ERRS, W_SHORT, W_HALFERR)) {
            if (f == W_ERR1 || f == W_ERRS) { c->hit = 1; errno = ENOSPC; return 0; }
            if (k > 1) k = f == W_SHORT ? 1 : k / 2;
            if (f == W_HALFERR) c->pend = 1;
        } }
    if (k < n) c->hit = 1;      /* stdio takes a short write of a custom stream as an error */
    vec_need(&c->v, c->pos + k); memcpy(c->v.p + c->pos, b, k); c->pos += k; if (c->pos > c->v.n) c->v.n = c->pos;
    return (ssize_t)k;
}
static int c_seek(void *ck, off64_t *o, int wh)
{
    cs *c = ck; long i = c->ns++;
    for (int q = 0; q < 2; q++) { int f = q ? c->fault2 : c->fault; long at = q ? c->at2 : c->at;
        if (fires(c, f, at, i, S_ERR1, S_ERRS, -1, -1)) { c->hit = 1; errno = EIO; return -1; } }
    off64_t np = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (off64_t)c->pos + *o : (off64_t)c->v.n + *o;
    if (np < 0) { errno = EINVAL; return -1; }
    c->pos = (size_t)np; *o = np; return 0;
}
static int c_close(void *ck) { (void)ck; return 0; }
static FILE *c_open(cs *c, const char *mode, int seekable, int vbuf)
{
    cookie_io_functions_t io = { c_read, c_write, seekable ? c_seek : NULL, c_close };
    FILE *f = fopencookie(c, mode, io);
    if (!f) _exit(99);
    if (vbuf == 0) setvbuf(f, NULL, _IONBF, 0); else if (vbuf > 1) setvbuf(f, NULL, _IOFBF, (size_t)vbuf);
    return f;
}
static void c_reset(cs *c) { c->pos = 0; c->nr = c->nw = c->ns = 0; c->fault = c->fault2 = F_NONE; c->hit = c->pend = c->ended = 0; c->at = c->at2 = -1; c->chunk = 0; }

/* ---- scenarios ---- */
typedef struct { size_t bl, sl; uint32_t magic; vec old, nw, sig, delta; rs_signature_t *ss; } scen;
enum { NSCEN = 7 };
static void mkscen(scen *s, int i)
{
    static const size_t on[] = {0, 5, 60, 64, 1000, 200000, 3000}, bls[] = {4, 4, 8, 16, 100, 2048, 33};
    runinfo ri; rs_result r;
    memset(s, 0, sizeof *s);
    s->bl = bls[i]; s->sl = i & 1 ? 8 : 12; s->magic = ref_magics[i % 4];
    vec_need(&s->old, on[i] + 1); s->old.n = on[i]; mc_fill(s->old.p, on[i], (uint64_t)i + 40);
    vec_add(&s->nw, "header", 6); vec_add(&s->nw, s->old.p + on[i] / 2, on[i] - on[i] / 2);
    if (i == 5) { vec_need(&s->nw, s->nw.n + 150000); mc_fill(s->nw.p + s->nw.n, 150000, 1); s->nw.n += 150000; }
    vec_add(&s->nw, "middle part", 11); vec_add(&s->nw, s->old.p, on[i] / 2);
    vec_need(&s->sig, ref_siglen(s->old.n, s->bl, s->sl) + 1); s->sig.n = ref_sig(s->sig.p, s->magic, s->bl, s->sl, s->old.p, s->old.n);
    s->ss = load_sig(s->sig.p, s->sig.n, ONESHOT, &r);
    if (!s->ss) mc_fail("signature does not load: %d", RES(r));
    rs_job_t *j = rs_delta_begin(s->ss); r = run_job(j, s->nw.p, s->nw.n, ONESHOT, &s->delta, &ri); rs_job_free(j);
    if (r != RS_DONE) mc_fail("delta failed: %d", RES(r));
}
static void freescen(scen *s) { free(s->old.p); free(s->nw.p); free(s->sig.p); free(s->delta.p); rs_free_sumset(s->ss); }
static const char *opn[] = {"rs_sig_file", "rs_loadsig_file", "rs_delta_file", "rs_patch_file"};
static rs_result do_op(int op, scen *s, FILE *in, FILE *basis, FILE *out, rs_signature_t **ls, rs_stats_t *st)
{
    switch (op) {
    case 0: return rs_sig_file(in, out, s->bl, s->sl, (rs_magic_number)s->magic, st);
    case 1: return rs_loadsig_file(in, ls, st);
    case 2: return rs_delta_file(s->ss, in, out, st);
    default: return rs_patch_file(basis, in, out, st);
    }
}
static vec *op_in(int op, scen *s) { return op == 0 ? &s->old : op == 1 ? &s->sig : op == 2 ? &s->nw : &s->delta; }
static vec *op_exp(int op, scen *s) { return op == 0 ? &s->sig : op == 2 ? &s->delta : &s->nw; }
static int slackdelta(scen *s) { return s->old.n == 0; }
/* output right? */
static int out_ok(int op, scen *s, const uint8_t *p, size_t n)
{
    if (op == 2 && slackdelta(s)) { uint8_t *t = malloc(s->nw.n + 1); ref_dres d = ref_patch(p, n, NULL, 0, t, s->nw.n + 1); int ok = d.result == REF_OK && d.used == n && d.outlen == s->nw.n && !memcmp(t, s->nw.p, s->nw.n); free(t); return ok; }
    vec *e = op_exp(op, s);
    return n == e->n && (!n || !memcmp(p, e->p, n));
}
static int sig_ok(scen *s, rs_signature_t *ls)
{
    vec d = {0}; runinfo ri; rs_result r = rs_build_hash_table(ls);
    if (r != RS_DONE) return 0;
    rs_job_t *j = rs_delta_begin(ls); r = run_job(j, s->nw.p, s->nw.n, ONESHOT, &d, &ri); rs_job_free(j);
    int ok = r == RS_DONE && vec_eq(&d, s->delta.p, s->delta.n);
    free(d.p); return ok;
}
static void c11(int th)
{
    static const int vb[] = {1, 0, 5, 64};          /* stdio buffering: default, none, 5, 64 */
    static const int ib[] = {0, 1, 7, 64}, ob[] = {0, 1, 9, 50};
    for (int si = 0; si < NSCEN; si++) for (int op = 0; op < 4; op++) for (int v = 0; v < 4; v++) for (int b = 0; b < 4; b++) {
        if (si == 5 && (v || b)) continue;
        if ((si == 4 || si == 6) && !th && (v + b) % 2) continue;
        if (!mc_case()) continue;
        scen s; mkscen(&s, si); cs ci = {0}, cb = {0}, co = {0};
        mc_desc("%s, old %zu new %zu bytes, stdio buffer %d, library buffers %d/%d: every I/O operation x every fault", opn[op], s.old.n, s.nw.n, vb[v], ib[b], ob[b]);
        vec_set(&ci.v, op_in(op, &s)->p, op_in(op, &s)->n); vec_set(&cb.v, s.old.p, s.old.n);
        long cnt[3][3] = {{0}}; int nrun = 0;
        for (int stream = -1; stream < 3; stream++) for (int f = stream < 0 ? F_NONE : 1; f < (stream < 0 ? 1 : NF); f++) {
            long lim = 1;
            if (stream >= 0) {
                int isr = f >= R_ERR1 && f <= R_ERREND, isw = f >= W_ERR1 && f <= W_HALFERR;
                if ((stream == 2) != isw && !(stream == 1 && f >= S_ERR1)) continue;
                if (stream == 1 && op != 3) continue;
                if (stream == 2 && op == 1) continue;
                lim = cnt[stream][isr ? 0 : isw ? 1 : 2];
            }
            long maxat = si == 5 ? 4000 : 1000000;
            for (long a = 0; a < lim; a++) {
                if (lim > maxat && a > maxat / 2 && a < lim - maxat / 2) { a = lim - maxat / 2; M->w->trunc++; }
                for (int second = 0; second < (th && stream >= 0 && (f == R_SHORT || f == W_SHORT || f == R_ERR1) && lim < 30 ? 3 : 1); second++) {
                c_reset(&ci); c_reset(&cb); c_reset(&co); co.v.n = 0;
                cs *t = stream == 0 ? &ci : stream == 1 ? &cb : &co;
                if (stream >= 0) { t->fault = f; t->at = a; if (second) { t->fault2 = stream == 2 ? (second == 1 ? W_ERR1 : W_SHORT) : second == 1 ? R_ERR1 : R_SHORT; t->at2 = a + 2; } }
                FILE *fi = c_open(&ci, "r", 0, vb[v]), *fb = op == 3 ? c_open(&cb, "r", 1, vb[v]) : NULL, *fo = op != 1 ? c_open(&co, "w", 0, vb[v]) : NULL; rs_signature_t *ls = NULL;
                rs_inbuflen = ib[b]; rs_outbuflen = ob[b];
                mc_tick();
                rs_result r = do_op(op, &s, fi, fb, fo, &ls, NULL);
                rs_inbuflen = rs_outbuflen = 0;
                int ce = fo ? fclose(fo) : 0; fclose(fi); if (fb) fclose(fb);
                int lost = ci.hit || cb.hit || co.hit; nrun++;
                M->w->evals++; mc_distinct(mc_mix((uint64_t)si * 7 + (uint64_t)op * 1001 + (uint64_t)v * 99991 + (uint64_t)b * 1234577 + (uint64_t)(stream + 1) * 76543211 + (uint64_t)f * 5647382911 + (uint64_t)a * 918273645546 + (uint64_t)second * 3));
                if (r == RS_DONE && ce == 0) {
                    if (op == 1) MC_CHECK(sig_ok(&s, ls), "rs_loadsig_file succeeded but the signature is incomplete (%s at operation %ld of stream %d)", fname[f], a, stream);
                    else MC_CHECK(out_ok(op, &s, co.v.p, co.v.n), "%s succeeded and the output closed cleanly, but the output (%zu bytes) is wrong or incomplete (%s at operation %ld of the %s stream)", opn[op], co.v.n, fname[f], a, stream == 0 ? "input" : stream == 1 ? "basis" : "output");
                } else MC_CHECK(lost, "%s failed (result %d, close %d) although no data was lost (%s at operation %ld of stream %d)", opn[op], RES(r), ce, fname[f], a, stream);
                if (r == RS_DONE && (f == W_ERRS || f == W_HALFERR) && co.hit) MC_CHECK(ce != 0, "%s reported success although its output was lost", opn[op]);
                MC_CHECK(r != RS_BLOCKED && r != RS_RUNNING && r != RS_INTERNAL_ERROR, "%s returned %d", opn[op], RES(r));
                if (op == 1) rs_free_sumset(ls);
                if (stream < 0) { cnt[0][0] = ci.nr; cnt[1][0] = cb.nr; cnt[1][2] = cb.ns; cnt[2][1] = co.nw; }
                }
            }
        }
        free(ci.v.p); free(cb.v.p); free(co.v.p); freescen(&s);
    }
    /* operations that must fail: write-only input stream, read-only output stream, unseekable basis */
    for (int op = 0; op < 4; op++) for (int k = 0; k < 3; k++) {
        if ((k == 1 && op == 1) || (k == 2 && op != 3)) continue;
        if (!mc_case()) continue;
        mc_desc("%s with %s", opn[op], k == 0 ? "an input stream not open for reading" : k == 1 ? "an output stream not open for writing" : "a basis that cannot seek");
        scen s; mkscen(&s, 2); cs ci = {0}, cb = {0}, co = {0}; vec_set(&ci.v, op_in(op, &s)->p, op_in(op, &s)->n); vec_set(&cb.v, s.old.p, s.old.n); c_reset(&ci); c_reset(&cb); c_reset(&co);
        FILE *fi = c_open(&ci, k == 0 ? "w" : "r", 0, 1), *fb = c_open(&cb, "r", k != 2, 1), *fo = c_open(&co, k == 1 ? "r" : "w", 0, 1); rs_signature_t *ls = NULL;
        rs_result r = do_op(op, &s, fi, fb, fo, &ls, NULL); M->w->evals++;
        MC_CHECK(r != RS_DONE, "%s succeeded", opn[op]);
        fclose(fi); fclose(fb); fclose(fo); if (op == 1) rs_free_sumset(ls); freescen(&s);
    }
}
/* ---- C12 ---- */
enum { K_REG, K_REGPOS, K_MEM, K_COOKIE, K_PIPE, NK };
static const char *kn[] = {"regular file", "regular file at an offset", "memory stream", "unbuffered stream giving few bytes at a time", "pipe"};
static FILE *open_in(int kind, const vec *v, cs *c, size_t chunk)
{
    FILE *f;
    if (kind == K_REG || kind == K_REGPOS) { f = tmpfile(); if (!f) _exit(99); if (kind == K_REGPOS) fwrite("some bytes before", 1, 17, f); if (v->n) fwrite(v->p, 1, v->n, f); fflush(f); fseek(f, kind == K_REGPOS ? 17 : 0, SEEK_SET); }
    else if (kind == K_MEM && v->n) f = fmemopen(v->p, v->n, "rb");
    else if (kind == K_PIPE && v->n <= 60000) { int p[2]; if (pipe(p)) _exit(99); if (v->n && write(p[1], v->p, v->n) != (ssize_t)v->n) _exit(99); close(p[1]); f = fdopen(p[0], "rb"); }
    else { c_reset(c); vec_set(&c->v, v->p, v->n); c->chunk = chunk; f = c_open(c, "r", 0, 0); }
    if (!f) _exit(99);
    return f;
}
static void c12(int th)
{
    static const int ib[] = {0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 1000, 4096, 65535, 65536, 65537, 300000};
    static const int ob[] = {0, 1, 2, 3, 5, 8, 12, 16, 17, 64, 1000, 65536, 262144, 1000000};
    for (int si = 0; si < NSCEN; si++) for (int op = 0; op < 4; op++) for (int kind = 0; kind < NK; kind++) for (int i = 0; i < 28; i++) {
        if (!mc_case()) continue;
        scen s; mkscen(&s, si); cs ci = {0}, cb = {0};
        mc_desc("%s, old %zu new %zu bytes, input is a %s, input buffer %d, all output buffers", opn[op], s.old.n, s.nw.n, kn[kind], ib[i]);
        for (int o = 0; o < 14; o++) {
            if (si == 5 && !th && ((ib[i] && ib[i] < 64 && ob[o] && ob[o] < 64) || (i + o) % 3)) continue;
            if (op == 1 && o) continue;
            FILE *fi = open_in(kind, op_in(op, &s), &ci, (size_t)(o % 4) + 1), *fb = op == 3 ? open_in(kind == K_MEM && s.old.n ? K_MEM : K_REG, &s.old, &cb, 0) : NULL, *fo; rs_signature_t *ls = NULL;
            char *obuf = NULL; size_t on = 0; fo = open_memstream(&obuf, &on);
            rs_inbuflen = ib[i]; rs_outbuflen = ob[o]; mc_tick();
            rs_result r = do_op(op, &s, fi, fb, op == 1 ? NULL : fo, &ls, NULL);
            rs_inbuflen = rs_outbuflen = 0;
            fclose(fo); fclose(fi); if (fb) fclose(fb);
            M->w->evals++; mc_distinct((uint64_t)(((si * 4 + op) * NK + kind) * 28 + i) * 14 + (uint64_t)o + 1);
            MC_CHECK(r == RS_DONE, "%s with buffers %d/%d on a %s: result %d, streaming succeeds", opn[op], ib[i], ob[o], kn[kind], RES(r));
            if (op == 1) { MC_CHECK(sig_ok(&s, ls), "signature loaded with input buffer %d from a %s differs from the streamed one", ib[i], kn[kind]); rs_free_sumset(ls); }
            else MC_CHECK(out_ok(op, &s, (uint8_t *)obuf, on), "%s with buffers %d/%d on a %s gives different output (%zu bytes) from streaming", opn[op], ib[i], ob[o], kn[kind], on);
            free(obuf);
        }
        free(ci.v.p); free(cb.v.p); freescen(&s);
    }
    /* default parameters: whole-file with known and unknown size equals streaming with the resolved parameters */
    static const size_t szs[] = {0, 1, 255, 256, 257, 1000, 65535, 65536, 65537, 70000, 66049, 147456, 200000, 1000000};
    for (int i = 0; i < 14; i++) for (int mi = 0; mi < 5; mi++) for (int kind = 0; kind < 4; kind++) for (int sv = 0; sv < 3; sv++) for (int bv = 0; bv < 2; bv++) {
        if (!mc_case()) continue;
        vec o = {0}, e = {0}; runinfo ri; cs ci = {0}; vec_need(&o, szs[i] + 1); o.n = szs[i]; mc_fill(o.p, o.n, 6);
        rs_magic_number m = mi == 4 ? 0 : (rs_magic_number)ref_magics[mi]; size_t bl = bv ? 300 : 0, sl = sv == 0 ? 0 : sv == 1 ? (size_t)-1 : 9, b2 = bl, s2 = sl; rs_magic_number m2 = m;
        mc_desc("rs_sig_file with block_len %zu strong_len %zd magic %#x on a %s of %zu bytes equals streaming with rs_sig_args", bl, (ssize_t)sl, m, kn[kind], szs[i]);
        rs_result r = rs_sig_args(kind == K_REG ? (rs_long_t)o.n : kind == K_REGPOS ? (rs_long_t)o.n + 17 : -1, &m2, &b2, &s2);
        MC_CHECK(r == RS_DONE, "rs_sig_args: %d", RES(r));
        rs_job_t *j = rs_sig_begin(b2, s2, m2); r = run_job(j, o.p, o.n, ONESHOT, &e, &ri); rs_job_free(j);
        MC_CHECK(r == RS_DONE, "streaming signature: %d", RES(r));
        FILE *fi = open_in(kind, &o, &ci, 100); char *ob2 = NULL; size_t on = 0; FILE *fo = open_memstream(&ob2, &on);
        r = rs_sig_file(fi, fo, bl, sl, m, NULL); fclose(fo); fclose(fi); M->w->evals++;
        mc_distinct((uint64_t)((((i * 5 + mi) * 4 + kind) * 3 + sv) * 2 + bv) + 900000);
        MC_CHECK(r == RS_DONE && vec_eq(&e, ob2, on), "rs_sig_file with default parameters differs from streaming with the parameters of rs_sig_args (result %d)", RES(r));
        free(ob2); free(o.p); free(e.p); free(ci.v.p);
    }
    /* no signature at all */
    for (int si = 0; si < NSCEN; si++) for (int k = 0; k < 2; k++) for (int i = 0; i < 28; i++) {
        if (!mc_case()) continue;
        scen s; mkscen(&s, si); cs ci = {0};
        mc_desc("rs_delta_file without signature, new %zu bytes, input buffer %d", s.nw.n, ib[i]);
        FILE *fi = open_in(k ? K_COOKIE : K_REG, &s.nw, &ci, 5); char *ob2 = NULL; size_t on = 0; FILE *fo = open_memstream(&ob2, &on);
        rs_inbuflen = ib[i]; rs_result r = rs_delta_file(NULL, fi, fo, NULL); rs_inbuflen = 0; fclose(fo); fclose(fi); M->w->evals++;
        uint8_t *t = malloc(s.nw.n + 1); ref_dres d = ref_patch((uint8_t *)ob2, on, NULL, 0, t, s.nw.n + 1);
        MC_CHECK(r == RS_DONE && d.result == REF_OK && d.outlen == s.nw.n && !memcmp(t, s.nw.p, s.nw.n), "delta without signature is wrong (result %d)", RES(r));
        free(t); free(ob2); free(ci.v.p); freescen(&s);
    }
}
/* rs_job_drive against streaming */
typedef struct { const uint8_t *in; size_t n, at, step; uint8_t *buf; size_t cap; } inst;
typedef struct { vec *out; uint8_t *buf; size_t cap; } outst;
static rs_result in_cb(rs_job_t *job, rs_buffers_t *b, void *op)
{
    inst *s = op; (void)job;
    if (b->avail_in >= s->cap) return RS_DONE;
    if (b->avail_in) memmove(s->buf, b->next_in, b->avail_in);
    b->next_in = (char *)s->buf;
    size_t k = s->n - s->at; if (k > s->step) k = s->step; if (k > s->cap - b->avail_in) k = s->cap - b->avail_in;
    if (!k && s->at == s->n) b->eof_in = 1;
    memcpy(s->buf + b->avail_in, s->in + s->at, k); s->at += k; b->avail_in += k;
    return RS_DONE;
}
static rs_result out_cb(rs_job_t *job, rs_buffers_t *b, void *op)
{
    outst *s = op; (void)job; size_t k = b->next_out ? (size_t)((uint8_t *)b->next_out - s->buf) : 0;
    vec_add(s->out, s->buf, k); b->next_out = (char *)s->buf; b->avail_out = s->cap; return RS_DONE;
}
static void c12_drive(int th)
{
    static const size_t sz[] = {1, 2, 3, 5, 8, 13, 40, 100, 1000, 65536, 300000};
    (void)th;
    for (int si = 0; si < NSCEN; si++) for (int op = 0; op < 4; op++) for (int i = 0; i < 11; i++) for (int c = 0; c < 3; c++) {
        if (!mc_case()) continue;
        scen s; mkscen(&s, si);
        mc_desc("rs_job_drive job kind %d, old %zu new %zu, input buffer %zu filled %s, all output sizes", op, s.old.n, s.nw.n, sz[i], c == 0 ? "fully" : c == 1 ? "1 byte at a time" : "by halves");
        for (int o = 0; o < 11; o++) {
            if (si == 5 && (sz[i] < 40 || sz[o] < 40)) continue;
            vec out = {0}; uint8_t *b1 = malloc(sz[i]), *b2 = malloc(sz[o]); rs_buffers_t bf; rs_signature_t *ls = NULL; mbasis mb = {s.old.p, s.old.n, 0, 0, NULL, 0};
            inst is = {op_in(op, &s)->p, op_in(op, &s)->n, 0, c == 0 ? sz[i] : c == 1 ? (si == 5 ? 100 : 1) : (sz[i] + 1) / 2, b1, sz[i]}; outst os = {&out, b2, sz[o]};
            rs_job_t *j = op == 0 ? rs_sig_begin(s.bl, s.sl, (rs_magic_number)s.magic) : op == 1 ? rs_loadsig_begin(&ls) : op == 2 ? rs_delta_begin(s.ss) : rs_patch_begin(mem_copy, &mb);
            mc_tick();
            rs_result r = rs_job_drive(j, &bf, in_cb, &is, op == 1 ? NULL : out_cb, &os); rs_job_free(j); M->w->evals++;
            mc_distinct((uint64_t)((((si * 4 + op) * 11 + i) * 3 + c) * 11 + o) + 5000000);
            MC_CHECK(r == RS_DONE, "rs_job_drive: result %d", RES(r));
            if (op == 1) { MC_CHECK(sig_ok(&s, ls), "signature loaded by rs_job_drive differs"); rs_free_sumset(ls); }
            else MC_CHECK(out_ok(op, &s, out.p, out.n), "rs_job_drive output (%zu bytes) differs from streaming", out.n);
            free(out.p); free(b1); free(b2);
        }
        freescen(&s);
    }
}
/* ---- C18 ---- */
static void c18_check(const char *how, int op, scen *s, const rs_stats_t *st, const uint8_t *out, size_t on, int file)
{
    if (op == 2 || op == 3) {
        const uint8_t *d = op == 2 ? out : s->delta.p; size_t dn = op == 2 ? on : s->delta.n;
        ref_dres r = ref_patch(d, dn, s->old.p, s->old.n, NULL, 0);
        MC_CHECK((uint64_t)st->lit_cmds == r.lit_cmds && (uint64_t)st->lit_bytes == r.lit_bytes && (uint64_t)st->lit_cmdbytes == r.lit_cmdbytes && (uint64_t)st->copy_cmds == r.copy_cmds && (uint64_t)st->copy_bytes == r.copy_bytes && (uint64_t)st->copy_cmdbytes == r.copy_cmdbytes,
                 "%s %s: statistics literal %d/%jd/%jd copy %jd/%jd/%jd, the delta has %" PRIu64 "/%" PRIu64 "/%" PRIu64 " and %" PRIu64 "/%" PRIu64 "/%" PRIu64, how, opn[op], st->lit_cmds, st->lit_bytes, st->lit_cmdbytes, st->copy_cmds, st->copy_bytes, st->copy_cmdbytes, r.lit_cmds, r.lit_bytes, r.lit_cmdbytes, r.copy_cmds, r.copy_bytes, r.copy_cmdbytes);
        MC_CHECK(st->sig_blocks == 0, "%s %s: sig_blocks %jd", how, opn[op], st->sig_blocks);
    } else {
        size_t nb = (s->old.n + s->bl - 1) / s->bl;
        MC_CHECK((uint64_t)st->sig_blocks == nb, "%s %s: %jd signature blocks reported, %zu exist", how, opn[op], st->sig_blocks, nb);
        MC_CHECK(st->block_len == s->bl, "%s %s: block length %zu reported, %zu used", how, opn[op], st->block_len, s->bl);
        MC_CHECK(st->lit_cmds == 0 && st->copy_cmds == 0 && st->lit_bytes == 0 && st->copy_bytes == 0, "%s %s: delta statistics not zero", how, opn[op]);
    }
    if (file) {
        MC_CHECK((uint64_t)st->in_bytes == op_in(op, s)->n, "%s %s: in_bytes %jd, read %zu", how, opn[op], st->in_bytes, op_in(op, s)->n);
        MC_CHECK((uint64_t)st->out_bytes == (op == 1 ? 0 : on), "%s %s: out_bytes %jd, written %zu", how, opn[op], st->out_bytes, op == 1 ? 0 : on);
    }
}
static void c18(int th)
{
    static const int ib[] = {0, 1, 2, 7, 8, 12, 13, 64, 100, 1000, 65536, 300000}, ob[] = {0, 1, 3, 12, 17, 100, 65536};
    (void)th;
    for (int si = 0; si < NSCEN; si++) for (int op = 0; op < 4; op++) for (int kind = 0; kind < NK; kind++) for (int i = 0; i < 12; i++) {
        if (!mc_case()) continue;
        scen s; mkscen(&s, si); cs ci = {0}, cb = {0};
        mc_desc("statistics of %s and of streaming, old %zu new %zu bytes, input is a %s, input buffer %d", opn[op], s.old.n, s.nw.n, kn[kind], ib[i]);
        for (int o = 0; o < 7; o++) {
            if (si == 5 && ((ib[i] && ib[i] < 64) || (ob[o] && ob[o] < 17))) continue;
            FILE *fi = open_in(kind, op_in(op, &s), &ci, (size_t)(o % 4) + 1), *fb = op == 3 ? open_in(K_REG, &s.old, &cb, 0) : NULL, *fo; rs_signature_t *ls = NULL; rs_stats_t st;
            char *obuf = NULL; size_t on = 0; fo = open_memstream(&obuf, &on);
            memset(&st, 0x5a, sizeof st);
            rs_inbuflen = ib[i]; rs_outbuflen = ob[o]; mc_tick();
            rs_result r = do_op(op, &s, fi, fb, op == 1 ? NULL : fo, &ls, &st);
            rs_inbuflen = rs_outbuflen = 0;
            fclose(fo); fclose(fi); if (fb) fclose(fb);
            M->w->evals++; mc_distinct((uint64_t)((((si * 4 + op) * NK + kind) * 12 + i) * 7 + o) + 7000000);
            if (r == RS_DONE) c18_check("whole-file", op, &s, &st, (uint8_t *)obuf, on, 1);
            if (op == 1) rs_free_sumset(ls);
            free(obuf);
            /* streaming with the same sizes as steps */
            vec out = {0}; runinfo ri; mbasis mb = {s.old.p, s.old.n, 0, o & 1 ? 4 : 0, NULL, 0}; ls = NULL;
            rs_job_t *j = op == 0 ? rs_sig_begin(s.bl, s.sl, (rs_magic_number)s.magic) : op == 1 ? rs_loadsig_begin(&ls) : op == 2 ? rs_delta_begin(s.ss) : rs_patch_begin(mem_copy, &mb);
            r = run_job(j, op_in(op, &s)->p, op_in(op, &s)->n, (sched){(size_t)ib[i], (size_t)ob[o], kind & 1, 0}, &out, &ri);
            st = *rs_job_statistics(j); rs_job_free(j);
            if (r == RS_DONE && !ri.bad) c18_check("streaming", op, &s, &st, out.p, out.n, 0);
            if (op == 1) rs_free_sumset(ls);
            free(out.p); M->w->evals++;
        }
        free(ci.v.p); free(cb.v.p); freescen(&s);
    }
}
/* deltas without a signature: literals of any length, given in two or three pieces */
static void c18_pieces(int th)
{
    static const size_t sz[] = {0, 1, 64, 65, 255, 256, 257, 32768, 65532, 65533, 65535, 65536, 65537, (1 << 20) + 7, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 3}; enum { N = sizeof sz / sizeof *sz };
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
        if (!mc_case()) continue;
        mc_desc("delta without signature: pieces of %zu and %zu bytes and a third", sz[a], sz[b]);
        for (int c = 0; c < (a > 12 && b > 12 && !th ? 3 : N); c++) for (int o = 0; o < 2; o++) {
            size_t n = sz[a] + sz[b] + sz[c], at[3] = {sz[a], sz[b], sz[c]}, cap = n + 4096; if (o && n > 3000000) continue;
            uint8_t *p = calloc(1, n + 1), *q = malloc(cap); if (!p || !q) _exit(99);
            rs_job_t *j = rs_delta_begin(NULL); rs_buffers_t bf = {(char *)p, 0, 0, (char *)q, 0}; rs_result r = RS_BLOCKED; mc_tick();
            for (int i = 0; i < 3; i++) { bf.avail_in += at[i]; bf.eof_in = i == 2; do { size_t room = (size_t)((char *)q + cap - bf.next_out); bf.avail_out = o ? room < 70001 ? room : 70001 : room; r = rs_job_iter(j, &bf); mc_tick(); } while (o && r == RS_BLOCKED && !bf.avail_out); }
            size_t on = (size_t)(bf.next_out - (char *)q); rs_stats_t st = *rs_job_statistics(j); rs_job_free(j);
            scen s; memset(&s, 0, sizeof s); M->w->evals++; mc_distinct((uint64_t)(((a * N + b) * N + c) * 2 + o) + 31000000);
            if (r == RS_DONE) { MC_CHECK((uint64_t)st.lit_bytes == n, "%jd literal bytes reported of %zu", st.lit_bytes, n); c18_check("streaming", 2, &s, &st, q, on, 0); }
            free(p); free(q);
        }
    }
}
/* ---- sequences of whole-file patches: stream objects closed and reopened at the same address, reused, repositioned, alternating ---- */
static size_t hist_delta(uint8_t *d, int code)
{
    static const int seg[9][2] = { {0, 64}, {64, 64}, {128, 64}, {192, 108}, {0, 128}, {64, 128}, {128, 172}, {0, 300}, {299, 1} }; size_t n = 0;
    ref_put4(d, REF_DELTA); n = 4;
    if (code == 9) { d[n++] = 3; memcpy(d + n, "abc", 3); n += 3; }      /* no copy at all */
    else if (code == 10) { d[n++] = 0x45; d[n++] = 200; d[n++] = 10; d[n++] = 0x45; d[n++] = 10; d[n++] = 20; d[n++] = 2; d[n++] = 'x'; d[n++] = 'y'; d[n++] = 0x45; d[n++] = 30; d[n++] = 34; }
    else if (code == 11) { d[n++] = 0x4a; d[n++] = 1; d[n++] = 0x20; d[n++] = 0; d[n++] = 40; }             /* runs past the end: fails */
    else { d[n++] = 0x4a; d[n++] = (uint8_t)(seg[code][0] >> 8); d[n++] = (uint8_t)seg[code][0]; d[n++] = (uint8_t)(seg[code][1] >> 8); d[n++] = (uint8_t)seg[code][1]; }
    d[n++] = 0;
    return n;
}
static void hist_files(int th)
{
    enum { ND = 12 }; static const char *hm[] = {"stream closed and reopened", "same stream", "same stream repositioned between", "two old files open, alternating", "two streams on one file, alternating", "another call (signature) of the same stream between"};
    uint8_t old[2][300]; mc_fill(old[0], 300, 4711); mc_fill(old[1], 300, 4712);
    for (int kind = 0; kind < 3; kind++) for (int mode = 0; mode < 6; mode++) for (int a = 0; a < ND; a++) for (int b = 0; b < ND; b++) {
        if (!mc_case()) continue;
        mc_desc("whole-file patches in a row (deltas %d, %d, then each of %d), %s, %s", a, b, ND, hm[mode], kind == 0 ? "regular file" : kind == 1 ? "memory stream" : "unbuffered file");
        for (int c = 0; c < (th || (a + b) % 3 == 0 ? ND : 4); c++) {
            int seq[3] = {a, b, c}; FILE *f[2] = {NULL, NULL}; char nm[2][32];
            for (int k = 0; k < 2; k++) { sprintf(nm[k], "hist-%d-%d", (int)getpid(), k); if (kind != 1) { FILE *w = fopen(nm[k], "wb"); if (!w || fwrite(old[mode == 4 ? 0 : k], 1, 300, w) != 300 || fclose(w)) _exit(99); } }
            for (int i = 0; i < 3; i++) {
                int k = mode == 3 || mode == 4 ? i & 1 : 0, content = mode == 4 ? 0 : k; uint8_t d[64], want[700]; size_t dn = hist_delta(d, seq[i]); ref_dres rr = ref_patch(d, dn, old[content], 300, want, sizeof want);
                if (!f[k]) { f[k] = kind == 1 ? fmemopen(old[content], 300, "rb") : fopen(nm[k], "rb"); if (!f[k]) _exit(99); if (kind == 2) setvbuf(f[k], NULL, _IONBF, 0); }
                if (mode == 2) fseek(f[k], 17 * i, SEEK_SET);
                if (mode == 5 && i) { FILE *so = fopen("/dev/null", "wb"); rewind(f[k]); rs_result r = rs_sig_file(f[k], so, 32, 8, RS_MD4_SIG_MAGIC, NULL); fclose(so); MC_CHECK(r == RS_DONE, "signature between patches: result %d", RES(r)); }
                FILE *df = fmemopen(d, dn, "rb"); char *ob = NULL; size_t on = 0; FILE *nf = open_memstream(&ob, &on); rs_stats_t st;
                rs_result r = rs_patch_file(f[k], df, nf, &st); fclose(df); fclose(nf); M->w->evals++;
                if (seq[i] == 11) MC_CHECK(r != RS_DONE, "patch %d: copy beyond the end gives success", i + 1);
                else MC_CHECK(r == RS_DONE && on == rr.outlen && !memcmp(ob, want, on), "patch number %d of the sequence %d, %d, %d: result %d, %zu bytes of %zu, %s", i + 1, a, b, c, RES(r), on, rr.outlen, on == rr.outlen && !memcmp(ob, want, on) ? "right" : "wrong");
                free(ob); clearerr(f[k]);
                if (mode == 0) { fclose(f[k]); f[k] = NULL; }
            }
            for (int k = 0; k < 2; k++) { if (f[k]) fclose(f[k]); if (kind != 1) unlink(nm[k]); }
            mc_tick(); mc_distinct((uint64_t)((((kind * 6 + mode) * ND + a) * ND + b) * ND + c) + 99000000);
        }
    }
}
/* signature statistics with every combination of defaulted arguments, against the signature itself */
static void c18_defaults(void)
{
    static const size_t szs[] = {0, 1, 15, 255, 256, 2047, 2048, 2049, 4096, 10000, 65536, 65537, 300000}, bls[] = {0, 1, 7, 256, 2048, 5000, 100000};
    static const size_t sls[] = {0, (size_t)-1, 1, 8, 16}; static const uint32_t mgs[] = {0, RS_MD4_SIG_MAGIC, RS_BLAKE2_SIG_MAGIC, RS_RK_MD4_SIG_MAGIC, RS_RK_BLAKE2_SIG_MAGIC};
    static const size_t is[] = {300001, 2048, 700}, os[] = {4000000, 100, 13};
    for (int i = 0; i < 13; i++) for (int b = 0; b < 7; b++) for (int l = 0; l < 5; l++) for (int m = 0; m < 5; m++) {
        if (!mc_case()) continue;
        mc_desc("statistics of a signature of %zu bytes asked for with block_len %zu strong_len %zd magic %#x", szs[i], bls[b], (ssize_t)sls[l], mgs[m]);
        vec f = {0}; vec_need(&f, szs[i] + 1); f.n = szs[i]; mc_fill(f.p, f.n, 900 + (uint64_t)i);
        for (int v = 0; v < 5; v++) {
            vec o = {0}; rs_stats_t st; rs_result r; runinfo ri = {0};
            if (v && bls[b] == 1 && szs[i] > 70000) continue;
            if (v < 3) {        /* streaming, which takes 0 for the default of each */
                if (sls[l] == (size_t)-1) continue;
                rs_job_t *j = rs_sig_begin(bls[b], sls[l], (rs_magic_number)mgs[m]); mc_tick();
                r = run_job(j, f.p, f.n, (sched){is[v], os[v], 0, 0}, &o, &ri); st = *rs_job_statistics(j); rs_job_free(j);
            } else {
                char *ob = NULL; size_t on = 0; FILE *fo = open_memstream(&ob, &on), *fi = f.n ? fmemopen(f.p, f.n, "rb") : fopen("/dev/null", "rb"); memset(&st, 0x5a, sizeof st);
                rs_inbuflen = v == 4 ? 3000 : 0; r = rs_sig_file(fi, fo, bls[b], sls[l], (rs_magic_number)mgs[m], &st); rs_inbuflen = 0; mc_tick();
                fclose(fo); fclose(fi); vec_add(&o, ob, on); free(ob);
            }
            M->w->evals++;
            if (r == RS_DONE && !ri.bad) {
                MC_CHECK(o.n >= 12, "signature of %zu bytes", o.n);
                size_t hb = (size_t)ref_get(o.p + 4, 4), hl = (size_t)ref_get(o.p + 8, 4), nb = (o.n - 12) / (4 + hl);
                mc_distinct(mc_hash(&st.block_len, sizeof st.block_len, (uint64_t)((((i * 7 + b) * 5 + l) * 5 + m) * 5 + v)));
                MC_CHECK(st.block_len == hb, "%s: block length %zu reported, the signature says %zu", v < 3 ? "streaming" : "whole-file", (size_t)st.block_len, hb);
                MC_CHECK((uint64_t)st.sig_blocks == nb, "%s: %jd blocks reported, the signature has %zu", v < 3 ? "streaming" : "whole-file", (intmax_t)st.sig_blocks, nb);
                rs_signature_t *ls = NULL; rs_stats_t s2; FILE *fi = fmemopen(o.p, o.n, "rb"); memset(&s2, 0x5a, sizeof s2); r = rs_loadsig_file(fi, &ls, &s2); fclose(fi);
                if (r == RS_DONE) {
                    MC_CHECK(s2.block_len == hb && (uint64_t)s2.sig_blocks == nb, "load: block length %zu and %jd blocks reported, the signature has %zu and %zu", (size_t)s2.block_len, (intmax_t)s2.sig_blocks, hb, nb);
                    rs_free_sumset(ls);
                }
            }
            free(o.p);
        }
        free(f.p);
    }
}
/* deltas without matches of lengths around every change of encoding, in one piece and in several */
static void c18_slack(void)
{
    static const size_t szs[] = {0, 1, 63, 64, 65, 66, 128, 255, 256, 257, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 200000, 300001}, st_[] = {0, 1 << 20, 65536, 65535, 40000, 300, 256, 255, 64};
    for (int i = 0; i < 20; i++) for (int e = 0; e < 3; e++) for (int k = 0; k < 9; k++) {
        if (!mc_case()) continue;
        mc_desc("statistics of a delta of %zu new bytes %s, input pieces of %zu", szs[i], e == 0 ? "without signature" : e == 1 ? "with an empty signature" : "with a signature that matches nothing", st_[k]);
        vec f = {0}; vec_need(&f, szs[i] + 1); f.n = szs[i]; mc_fill(f.p, f.n, 800 + (uint64_t)i);
        uint8_t sg[64]; size_t sn = 12; ref_put4(sg, RS_RK_MD4_SIG_MAGIC); ref_put4(sg + 4, 50); ref_put4(sg + 8, 16); if (e == 2) { memset(sg + 12, 0x77, 20); sn = 32; }
        rs_result r; rs_signature_t *ss = e ? load_sig(sg, sn, ONESHOT, &r) : NULL; MC_CHECK(!e || ss, "load: %d", RES(r));
        for (int v = 0; v < 3; v++) {
            vec o = {0}; rs_stats_t st; runinfo ri = {0}; memset(&st, 0x5a, sizeof st);
            if (v < 2) { rs_job_t *j = rs_delta_begin(ss); r = run_job(j, f.p, f.n, (sched){st_[k], v ? 1000 : 4000000, 0, 0}, &o, &ri); st = *rs_job_statistics(j); rs_job_free(j); }
            else { char *ob = NULL; size_t on = 0; FILE *fo = open_memstream(&ob, &on), *fi = f.n ? fmemopen(f.p, f.n, "rb") : fopen("/dev/null", "rb"); rs_inbuflen = (int)st_[k]; r = rs_delta_file(ss, fi, fo, &st); rs_inbuflen = 0; fclose(fo); fclose(fi); vec_add(&o, ob, on); free(ob); }
            MC_CHECK(r == RS_DONE && !ri.bad, "delta: result %d", RES(r));
            ref_dres d = ref_patch(o.p, o.n, (uint8_t *)"", 0, NULL, 0);
            MC_CHECK((uint64_t)st.lit_cmds == d.lit_cmds && (uint64_t)st.lit_bytes == d.lit_bytes && (uint64_t)st.lit_cmdbytes == d.lit_cmdbytes && !st.copy_cmds && !st.copy_bytes && !st.copy_cmdbytes,
                     "%s: statistics literal %d/%jd/%jd, the delta has %" PRIu64 "/%" PRIu64 "/%" PRIu64, v < 2 ? "streaming" : "whole-file", st.lit_cmds, (intmax_t)st.lit_bytes, (intmax_t)st.lit_cmdbytes, d.lit_cmds, d.lit_bytes, d.lit_cmdbytes);
            if (v == 2) MC_CHECK((size_t)st.in_bytes == f.n && (size_t)st.out_bytes == o.n, "whole-file: in_bytes %jd out_bytes %jd of %zu and %zu", (intmax_t)st.in_bytes, (intmax_t)st.out_bytes, f.n, o.n);
            /* the patch of it must report the same */
            mbasis mb = {(uint8_t *)"", 0, 0, 0, NULL, 0}; vec n2 = {0}; rs_job_t *j = rs_patch_begin(mem_copy, &mb); r = run_job(j, o.p, o.n, (sched){st_[k], v ? 1000 : 4000000, 0, 0}, &n2, &ri); st = *rs_job_statistics(j); rs_job_free(j);
            MC_CHECK(r == RS_DONE && vec_eq(&n2, f.p, f.n), "patch of it: result %d", RES(r));
            MC_CHECK((uint64_t)st.lit_cmds == d.lit_cmds && (uint64_t)st.lit_bytes == d.lit_bytes && (uint64_t)st.lit_cmdbytes == d.lit_cmdbytes, "patch: statistics literal %d/%jd/%jd, the delta has %" PRIu64 "/%" PRIu64 "/%" PRIu64, st.lit_cmds, (intmax_t)st.lit_bytes, (intmax_t)st.lit_cmdbytes, d.lit_cmds, d.lit_bytes, d.lit_cmdbytes);
            M->w->evals += 2; mc_tick(); mc_distinct((uint64_t)(((i * 3 + e) * 9 + k) * 3 + v) + 55000000); free(o.p); free(n2.p);
        }
        if (ss) rs_free_sumset(ss);
        free(f.p);
    }
}
/* large blocks with buffer sizes around one and two blocks, with and without the literal limit on top */
static void c12_wide(int th)
{
    static const size_t bls[] = {700, 30000, 65530, 65536, 65537, 70000, 131072};
    for (int bi = 0; bi < 7; bi++) for (int shape = 0; shape < 4; shape++) for (int mi = 0; mi < 4; mi += th ? 1 : 3) {
        if (!mc_case()) continue;
        size_t bl = bls[bi]; uint32_t magic = ref_magics[mi];
        mc_desc("whole-file calls, block_len %zu, magic %#x, new file shape %d, all buffer sizes around multiples of the block length and the literal limit", bl, magic, shape);
        vec old = {0}, nw = {0}, sg = {0}, de = {0}; runinfo ri; rs_result r;
        vec_need(&old, 2 * bl + 333); old.n = 2 * bl + 333; mc_fill(old.p, old.n, bl);
        uint8_t *lit = malloc(200000); mc_fill(lit, 200000, 5);
        size_t a = shape == 0 ? 1000 : shape == 1 ? 0 : shape == 2 ? 66000 : 3;
        vec_add(&nw, lit, a); vec_add(&nw, old.p, bl); if (shape & 1) vec_add(&nw, old.p + bl, bl); vec_add(&nw, lit + 9, shape == 2 ? 10 : 70000); vec_add(&nw, old.p + bl, bl); vec_add(&nw, lit, 11); vec_add(&nw, old.p + 2 * bl, 333);
        rs_job_t *j = rs_sig_begin(bl, 8, (rs_magic_number)magic); r = run_job(j, old.p, old.n, ONESHOT, &sg, &ri); rs_job_free(j); MC_CHECK(r == RS_DONE, "signature: %d", RES(r));
        rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "load: %d", RES(r));
        j = rs_delta_begin(ss); r = run_job(j, nw.p, nw.n, ONESHOT, &de, &ri); rs_job_free(j); MC_CHECK(r == RS_DONE, "delta: %d", RES(r));
        size_t ins[] = {0, 100, bl - 1, bl, bl + 1, 65536, bl + 65535, bl + 65536, bl + 65537, bl + 66536, 2 * bl - 1, 2 * bl, 2 * bl + 1, 3 * bl};
        static const int outs[] = {0, 1, 100, 1001, 1006, 66000};
        for (int ii = 0; ii < 14; ii++) for (int oi = 0; oi < 6; oi++) for (int op = 0; op < 3; op++) {
            if (outs[oi] == 1 && !th && ii % 3) continue;
            const vec *in = op == 0 ? &old : op == 1 ? &nw : &de, *ex = op == 0 ? &sg : op == 1 ? &de : &nw;
            char *ob = NULL; size_t on = 0; FILE *fo = open_memstream(&ob, &on), *fi = fmemopen(in->p, in->n, "rb"), *fb = fmemopen(old.p, old.n, "rb");
            rs_inbuflen = (int)ins[ii]; rs_outbuflen = outs[oi]; mc_tick();
            r = op == 0 ? rs_sig_file(fi, fo, bl, 8, (rs_magic_number)magic, NULL) : op == 1 ? rs_delta_file(ss, fi, fo, NULL) : rs_patch_file(fb, fi, fo, NULL);
            rs_inbuflen = rs_outbuflen = 0; fclose(fo); fclose(fi); fclose(fb); M->w->evals++;
            MC_CHECK(r == RS_DONE, "%s with input buffer %zu and output buffer %d: result %d", opn[op + (op > 0)], ins[ii], outs[oi], RES(r));
            MC_CHECK(vec_eq(ex, (uint8_t *)ob, on), "%s with input buffer %zu and output buffer %d gives other output (%zu bytes) than one streaming call (%zu bytes)", opn[op + (op > 0)], ins[ii], outs[oi], on, ex->n);
            mc_distinct((uint64_t)((((bi * 4 + shape) * 4 + mi) * 14 + ii) * 6 + oi) * 3 + (uint64_t)op + 77000000); free(ob);
        }
        rs_free_sumset(ss); free(old.p); free(nw.p); free(sg.p); free(de.p); free(lit);
    }
}
typedef struct { int fd; vec got; } drain;
static void *drainer(void *a) { drain *d = a; char t[4096]; ssize_t k; while ((k = read(d->fd, t, sizeof t)) > 0) vec_add(&d->got, t, (size_t)k); return NULL; }
/* output streams that hold bytes already, stand in the middle, append, are pipes or sockets; several results on one stream */
static void c12_outs(int th)
{
    enum { Q_PREFIX, Q_MIDDLE, Q_APPEND, Q_UPDATE, Q_PIPE, Q_SOCK, Q_TWICE, NO };
    static const char *on_[] = {"a regular file that holds bytes already", "a regular file positioned before the end of its contents", "a file open for appending", "a file open for update, positioned after reading", "a pipe", "a socket", "a stream that takes another result first"};
    static const int ib[] = {0, 1, 7, 64}, ob[] = {0, 1, 5, 50, 1000}, vb[] = {1, 0, 5};
    for (int si = 0; si < NSCEN; si++) for (int op = 0; op < 4; op++) for (int ok = 0; ok < NO; ok++) for (int pre = 0; pre < 3; pre++) {
        if (op == 1 || (si == 5 && (ok == Q_PIPE || ok == Q_SOCK))) continue;
        if (!mc_case()) continue;
        scen s; mkscen(&s, si); size_t pn = pre == 0 ? 0 : pre == 1 ? 4 : 5000; uint8_t *pb = malloc(pn + 400001); mc_fill(pb, pn + 400000, 77);
        mc_desc("%s, old %zu new %zu bytes, output is %s, %zu bytes before", opn[op], s.old.n, s.nw.n, on_[ok], pn);
        for (int i = 0; i < 4; i++) for (int o = 0; o < 5; o++) for (int v = 0; v < 3; v++) {
            if (si == 5 && !th && (i || o % 4 || v)) continue;
            char nm[40]; sprintf(nm, "outs-%d", (int)getpid()); FILE *fo; int p[2] = {-1, -1}; size_t tail = ok == Q_MIDDLE || ok == Q_UPDATE ? 400000 : 0; vec got = {0}; drain dr; pthread_t dt;
            if (ok == Q_PIPE || ok == Q_SOCK) {
                if (ok == Q_PIPE ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(99);
                if (ok == Q_PIPE) { int t = p[0]; p[0] = p[1]; p[1] = t; }
                fo = fdopen(p[0], "wb"); dr = (drain){p[1], {0}}; if (pthread_create(&dt, NULL, drainer, &dr)) _exit(99);
            } else {
                FILE *w = fopen(nm, "wb"); if (!w || fwrite(pb, 1, pn + tail, w) != pn + tail || fclose(w)) _exit(99);
                fo = fopen(nm, ok == Q_APPEND ? "ab" : ok == Q_PREFIX || ok == Q_TWICE ? "wb" : "r+b");
            }
            if (!fo) _exit(99);
            if (vb[v] == 0) setvbuf(fo, NULL, _IONBF, 0); else if (vb[v] > 1) setvbuf(fo, NULL, _IOFBF, (size_t)vb[v]);
            if (ok == Q_PREFIX || ok == Q_TWICE || ok == Q_PIPE || ok == Q_SOCK) fwrite(pb, 1, pn, fo);
            else if (ok == Q_MIDDLE) fseek(fo, (long)pn, SEEK_SET);
            else if (ok == Q_UPDATE) { uint8_t *t = malloc(pn + 1); if (fread(t, 1, pn, fo) != pn) _exit(99); free(t); fseek(fo, 0, SEEK_CUR); }
            rs_inbuflen = ib[i]; rs_outbuflen = ob[o]; mc_tick();
            for (int rep = 0; rep < (ok == Q_TWICE ? 2 : 1); rep++) {
                FILE *fi = op_in(op, &s)->n ? fmemopen(op_in(op, &s)->p, op_in(op, &s)->n, "rb") : fopen("/dev/null", "rb"), *fb = op != 3 ? NULL : s.old.n ? fmemopen(s.old.p, s.old.n, "rb") : fopen("/dev/null", "rb");
                rs_result r = do_op(op, &s, fi, fb, fo, NULL, NULL); fclose(fi); if (fb) fclose(fb); M->w->evals++;
                MC_CHECK(r == RS_DONE, "result %d with buffers %d/%d", RES(r), ib[i], ob[o]);
            }
            rs_inbuflen = rs_outbuflen = 0;
            MC_CHECK(fwrite("trailer", 1, 7, fo) == 7, "the output stream cannot be written any more");
            MC_CHECK(fclose(fo) == 0, "the output stream does not close cleanly");
            if (ok == Q_PIPE || ok == Q_SOCK) { pthread_join(dt, NULL); got = dr.got; close(p[1]); }
            else { FILE *r = fopen(nm, "rb"); char t[4096]; size_t k; while ((k = fread(t, 1, sizeof t, r)) > 0) vec_add(&got, t, k); fclose(r); unlink(nm); }
            size_t reps = ok == Q_TWICE ? 2 : 1, l = (got.n - pn - 7) / reps;
            if (tail) { MC_CHECK(got.n == pn + tail, "the file is %zu bytes long, was %zu", got.n, pn + tail); l = 0; while (l < tail - 7 && memcmp(got.p + pn + l, "trailer", 7)) l++; MC_CHECK(l < tail - 7, "what the caller wrote after the call is not in the file"); MC_CHECK(!memcmp(got.p + pn + l + 7, pb + pn + l + 7, tail - l - 7), "bytes of the output file behind the result changed"); }
            else MC_CHECK(got.n >= pn + 7 && !memcmp(got.p + got.n - 7, "trailer", 7), "what the caller wrote after the call does not follow the result");
            MC_CHECK(!memcmp(got.p, pb, pn), "bytes before the position of the output stream changed");
            for (size_t rep = 0; rep < reps; rep++) MC_CHECK(out_ok(op, &s, got.p + pn + rep * l, l), "%s on %s with buffers %d/%d, stdio buffer %d: different output (%zu bytes) from streaming", opn[op], on_[ok], ib[i], ob[o], vb[v], l);
            mc_distinct((uint64_t)((((((si * 4 + op) * NO + ok) * 3 + pre) * 4 + i) * 5 + o) * 3 + v) + 66000000); free(got.p);
        }
        free(pb); freescen(&s);
    }
}
static void run(void)
{
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    if (!strncmp(M->mode, "C11", 3)) c11(M->thorough);
    else if (!strncmp(M->mode, "C12", 3)) { c12(M->thorough); c12_drive(M->thorough); c12_wide(M->thorough); c12_outs(M->thorough); hist_files(M->thorough); }
    else if (!strncmp(M->mode, "C20", 3)) hist_files(M->thorough);
    else { c18(M->thorough); c18_defaults(); c18_slack(); c18_pieces(M->thorough); }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
