/* Helpers driving the public streaming API of the library under test. */
#ifndef API_H
#define API_H
#include "mc.h"
#include "ref.h"
#include "librsync.h"

#define RES(x) ((int)(x))
typedef struct { uint8_t *p; size_t n, cap; } vec;
static inline void vec_need(vec *v, size_t n) { if (n > v->cap) { size_t c = n * 2 + 256; v->p = realloc(v->p, c); if (!v->p) _exit(99); v->cap = c; } }
static inline void vec_add(vec *v, const void *p, size_t n) { vec_need(v, v->n + n); if (n) memcpy(v->p + v->n, p, n); v->n += n; }
static inline void vec_b(vec *v, int b) { uint8_t c = (uint8_t)b; vec_add(v, &c, 1); }
static inline void vec_set(vec *v, const void *p, size_t n) { v->n = 0; vec_add(v, p, n); }
static inline int vec_eq(const vec *a, const void *p, size_t n) { return a->n == n && (!n || !memcmp(a->p, p, n)); }

/* Schedule: bytes presented per call, output space per call; 0 means "everything". */
typedef struct { size_t istep, ostep; int late_eof, exact; } sched;
static const sched ONESHOT = {0, 0, 0, 0};

typedef struct { long calls; size_t consumed; const char *bad; } runinfo;

/* Runs a job to its end under a schedule, checking the buffer contract at each call.
 * Returns the final result; output appended to out. */
static rs_result run_job(rs_job_t *job, const uint8_t *in, size_t n, sched s, vec *out, runinfo *ri)
{
    size_t c = 0, p = 0, ostep = s.ostep ? s.ostep : 1; rs_buffers_t b; rs_result r; int eof = 0; long calls = 0;
    size_t istep = s.istep ? s.istep : (n ? n : 1);
    vec_need(out, out->n + 64);
    ri->bad = NULL;
    for (;;) {
        int was_eof = eof, allp = calls > 0 && p == n;
        if (p < n) { p += istep; if (p > n || p < istep) p = n; }
        if (p == n && (!s.late_eof || allp)) eof = 1;
        if (!s.ostep) { ostep = n * 2 + 65536; if (ostep > (64 << 20)) ostep = 64 << 20; }
        uint8_t *ibuf = NULL, *obuf;
        if (s.exact) { ibuf = malloc(p - c ? p - c : 1); if (p - c) memcpy(ibuf, in + c, p - c); b.next_in = p - c ? (char *)ibuf : NULL; }
        else b.next_in = (char *)(uintptr_t)(in + c);
        b.avail_in = p - c; b.eof_in = eof;
        if (s.exact) obuf = malloc(ostep);
        else { vec_need(out, out->n + ostep); obuf = out->p + out->n; }
        memset(obuf, 0x5c, ostep < 1 << 20 ? ostep : 1 << 20);     /* no stale results of earlier runs */
        b.next_out = (char *)obuf; b.avail_out = ostep;
        char *ni = b.next_in, *no = b.next_out; size_t ai = b.avail_in, ao = b.avail_out;
        mc_tick();
        r = rs_job_iter(job, &b);
        calls++;
        if (b.avail_in > ai || b.avail_out > ao) { ri->bad = "avail grew"; break; }
        if (ni && b.next_in != ni + (ai - b.avail_in)) { ri->bad = "next_in inconsistent with avail_in"; break; }
        if (b.next_out != no + (ao - b.avail_out)) { ri->bad = "next_out inconsistent with avail_out"; break; }
        if (b.eof_in != eof) { ri->bad = "eof_in changed"; break; }
        size_t got = ao - b.avail_out, used = ai - b.avail_in;
        if (s.exact) { if (used <= ai && memcmp(ibuf ? ibuf : (uint8_t *)"", in + c, ai)) ri->bad = "input modified"; vec_add(out, obuf, got); free(obuf); free(ibuf); if (ri->bad) break; }
        else out->n += got;
        c += used;
        if (r != RS_BLOCKED) break;
        if (was_eof && p == n && got == 0) { ri->bad = "blocked with all input, eof and output space but nothing produced"; break; }
        if (calls > (long)(20 * (n + 64) + out->n * 2 + 1000)) { ri->bad = "too many calls"; break; }
    }
    ri->calls = calls; ri->consumed = c;
    return r;
}
typedef struct { const uint8_t *p; size_t n; long calls; int mode; uint8_t *own; size_t owncap; } mbasis;
/* mode bits: 1 = one byte at a time, 2 = own buffer, 4 = at most half */
static rs_result mem_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    mbasis *m = arg; size_t k = *len, av;
    m->calls++;
    if (pos < 0 || (uint64_t)pos >= m->n) return RS_INPUT_ENDED;
    av = m->n - (size_t)pos;
    if (k > av) k = av;
    if ((m->mode & 1) && k > 1) k = 1;
    if ((m->mode & 4) && k > 1) k = (k + 1) / 2;
    if (m->mode & 2) {          /* alternately its own static buffer (low addresses) and the data itself */
        static uint8_t low[5000]; uint8_t *own = m->own ? m->own : low; size_t cap = m->own ? m->owncap : sizeof low;
        if ((m->calls & 1) && k <= cap) { memset(own, 0xee, cap); memcpy(own, m->p + pos, k); *buf = own; }
        else *buf = (void *)(uintptr_t)(m->p + pos);
    }
    else memcpy(*buf, m->p + pos, k);
    *len = k;
    return RS_DONE;
}
/* Load a signature from memory and index it.  NULL on failure (result in *r). */
static rs_signature_t *load_sig(const uint8_t *sig, size_t n, sched s, rs_result *r)
{
    rs_signature_t *ss = NULL; runinfo ri; vec o = {0};
    rs_job_t *j = rs_loadsig_begin(&ss);
    *r = run_job(j, sig, n, s, &o, &ri);
    rs_job_free(j); free(o.p);
    if (ri.bad) mc_fail("loadsig: %s", ri.bad);
    if (*r != RS_DONE) { rs_free_sumset(ss); return NULL; }
    *r = rs_build_hash_table(ss);
    if (*r != RS_DONE) { rs_free_sumset(ss); return NULL; }
    return ss;
}
static inline void quiet_sink(rs_loglevel l, char const *m) { (void)l; (void)m; }
#endif
