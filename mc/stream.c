/* Explicit-state exploration of the streaming API: from every reachable state of a job, every environment choice
 * (new input presented, end-of-input flag, output space, basis-callback behaviour) is applied to the real
 * rs_job_iter().  Modes: C02 slicing independence, C03 buffer contract, C21 free at every state. */
#include "arena.h"
#include "api.h"

enum { W2 = 1, W3 = 2, W21 = 4 };
enum { K_SIG, K_LOAD, K_DELTA, K_PATCH };
#define INCAP 4096
#define OUTBIG 1024
#define OUTWIN 4096

typedef struct {            /* environment state, part of the explored state */
    uint32_t c, p, o; uint8_t eof, done, ncalls_zero; uint8_t pad[1]; 
} env;
typedef struct { uint8_t k; int8_t eof; uint8_t os, cb; } choice;

typedef struct {
    int what, kind;
    rs_job_t *job; rs_signature_t *sig; rs_signature_t *loaded;
    uint8_t in[INCAP]; size_t n;
    uint8_t exp[INCAP * 4]; size_t expn; rs_result expr;    /* expected output and result */
    uint8_t basis[INCAP]; size_t bn;
    uint8_t probe[INCAP]; size_t pn; uint8_t pexp[INCAP * 4]; size_t pexpn;
    int slack;
    int cbmode; int cb_bad; 
    rs_buffers_t bufs;
    mc_win iw, ow, bw;
    unsigned char *d0; size_t dn;     /* data segment */
    uint8_t *stk; size_t stkcap;      /* DFS stack */
    uint64_t *vis; uint64_t vmask, nvis;
    uint64_t maxstates;
    int nk, nos, ncb; uint32_t ks[8], oss[8]; int cbs[8];
    char path[1200];
    vec t1, t2;
} G;
static G *S;
extern char __data_start[], _end[], __bss_start[];

/* basis callback under environment control */
static rs_result ex_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    (void)arg; size_t k = *len;
    if (pos < 0 || (uint64_t)pos >= S->bn) return RS_INPUT_ENDED;
    if ((S->what & W3) && (*len == 0 || (uint8_t *)*buf != S->ow.end - S->bufs.avail_out || *len > S->bufs.avail_out)) S->cb_bad = 1;
    if (k > S->bn - (size_t)pos) k = S->bn - (size_t)pos;
    if ((S->cbmode & 1) && k > 1) k = 1;
    if (S->cbmode & 4) k = (k + 1) / 2;
    if ((S->cbmode & 2) && (pos & 1)) { static uint8_t low[INCAP]; memset(low, 0x77, sizeof low); memcpy(low, S->basis + pos, k); *buf = low; }
    else if (S->cbmode & 2) { memset(S->bw.base, 0x77, S->bw.cap); memcpy(S->bw.end - k, S->basis + pos, k); *buf = S->bw.end - k; }
    else memcpy(*buf, S->basis + pos, k);
    *len = k;
    return RS_DONE;
}
/* ---- snapshots ---- */
typedef struct { env e; ar_ctl ac; uint32_t ci; uint32_t len; choice ch; } frame;   /* followed by arena and data */
static size_t snap_size(void) { return sizeof(frame) + AC->top + S->dn; }
static void snap_save(uint8_t *at, const env *e)
{
    frame *f = (frame *)at; f->e = *e; f->ac = *AC; f->ci = 0; f->len = (uint32_t)snap_size();
    memcpy(at + sizeof *f, AR, AC->top); memcpy(at + sizeof *f + AC->top, S->d0, S->dn);
}
static void snap_load(uint8_t *at)
{
    frame *f = (frame *)at; size_t old = AC->top;
    *AC = f->ac;
    memcpy(AR, at + sizeof *f, AC->top);
    if (old > AC->top) memset(AR + AC->top, 0, old - AC->top);
    memcpy(S->d0, at + sizeof *f + AC->top, S->dn);
}
static int visit(const env *e)      /* 1 if new */
{
    uint64_t h1 = mc_hash(e, sizeof *e, 11), h2;
    h1 = mc_hash(AR, AC->top, h1); h1 = mc_hash(S->d0, S->dn, h1);
    h2 = mc_mix(h1 ^ mc_hash(AR, AC->top, 0x1234567 + h1));
    if (!h1) h1 = 1;
    uint64_t i = h1 & S->vmask;
    while (S->vis[2 * i]) { if (S->vis[2 * i] == h1 && S->vis[2 * i + 1] == h2) return 0; i = (i + 1) & S->vmask; }
    S->vis[2 * i] = h1; S->vis[2 * i + 1] = h2; S->nvis++;
    return 1;
}
static const char *rn(int r) { static char b[16]; if (r == 0) return "DONE"; if (r == 1) return "BLOCKED"; if (r == 2) return "RUNNING"; if (r == 103) return "INPUT_ENDED"; if (r == 107) return "INTERNAL_ERROR"; sprintf(b, "%d", r); return b; }
static void describe_path(uint8_t *base, uint8_t *top)
{
    size_t l = 0; S->path[0] = 0;
    for (uint8_t *p = base; p < top && l + 60 < sizeof S->path; p += ((frame *)p)->len) {
        frame *f = (frame *)p;
        l += (size_t)snprintf(S->path + l, sizeof S->path - l, " [+%d%s out%u%s]", S->ks[f->ch.k] == 9999 ? -1 : (int)S->ks[f->ch.k], f->ch.eof ? " eof" : "", S->oss[f->ch.os], S->cbs[f->ch.cb] ? (S->cbs[f->ch.cb] & 2 ? " own" : " short") : "");
    }
}
#define XFAIL(...) do { char b_[900]; snprintf(b_, sizeof b_, __VA_ARGS__); describe_path(S->stk, top); mc_fail("%s; calls (input added, eof, output space):%s", b_, S->path); } while (0)

/* literal-run-insensitive comparison for deltas without signature: the delta decodes to the new file */
static void check_slack(uint8_t *top, size_t outn, const uint8_t *out)
{
    ref_dres d = ref_patch(out, outn, S->basis, 0, S->t1.p, S->n + 1);
    if (d.result != REF_OK || d.used != outn || d.outlen != S->n || memcmp(S->t1.p, S->in, S->n)) XFAIL("delta without signature does not describe the new file");
}
static void probe_loaded(uint8_t *top)
{
    /* the loaded signature must work and be complete: delta of the probe against it */
    S->t2.n = 0; runinfo ri; rs_result r;
    r = rs_build_hash_table(S->loaded);
    if (r != RS_DONE) XFAIL("rs_build_hash_table on the loaded signature gives %d", RES(r));
    rs_job_t *j = rs_delta_begin(S->loaded);
    AC->on = 0; vec_need(&S->t2, 200000); AC->on = 1;
    r = run_job(j, S->probe, S->pn, ONESHOT, &S->t2, &ri);
    rs_job_free(j);
    if (r != RS_DONE || !vec_eq(&S->t2, S->pexp, S->pexpn)) XFAIL("signature loaded under this schedule differs: delta of a probe file has %zu bytes, expected %zu (result %d)", S->t2.n, S->pexpn, RES(r));
}
static void free_check(uint8_t *top, int delta_sig)
{
    uint8_t *snap = top; env dummy = {0};
    snap_save(snap, &dummy);
    rs_job_free(S->job);
    if (S->loaded || S->kind == K_LOAD) {
        if (AC->live < 1 ) XFAIL("the signature being loaded was freed with the job");
        rs_free_sumset(S->loaded);
    }
    if (delta_sig && S->sig) {
        /* still usable by the caller */
        S->t2.n = 0; runinfo ri; rs_job_t *j = rs_delta_begin(S->sig);
        AC->on = 0; vec_need(&S->t2, 200000); AC->on = 1;
        rs_result r = run_job(j, S->in, S->n, ONESHOT, &S->t2, &ri);
        rs_job_free(j);
        if (r != RS_DONE || !vec_eq(&S->t2, S->exp, S->expn)) XFAIL("signature no longer works after a delta job using it was freed");
        rs_free_sumset(S->sig);
    }
    const char *b = ar_check();
    if (b) XFAIL("freeing: %s", b);
    if (AC->live) XFAIL("leak: %ld allocations (%zu bytes) left after freeing everything", AC->live, AC->live_bytes);
    snap_load(snap);
}
static void explore(void)
{
    uint8_t *top = S->stk; env e; memset(&e, 0, sizeof e);
    S->nvis = 0; memset(S->vis, 0, (S->vmask + 1) * 16);
    AC->on = 1;
    visit(&e); M->w->states++;
    uint8_t *ob = S->t1.p + 100000;     /* reassembled output of the current path for slack deltas */
    snap_save(top, &e);
    if (S->what & W21) free_check(top + ((frame *)top)->len, S->kind == K_DELTA);
    int nchoice = S->nk * 2 * S->nos * S->ncb;
    for (;;) {
        frame *f = (frame *)top;
        if ((int)f->ci >= nchoice) {
            if (top == S->stk) break;
            /* pop: find previous frame */
            uint8_t *q = S->stk, *prev = q;
            while (q < top) { prev = q; q += ((frame *)q)->len; }
            top = prev; continue;
        }
        int ci = (int)f->ci++;
        choice ch; ch.k = (uint8_t)(ci % S->nk); ci /= S->nk; ch.eof = (int8_t)(ci % 2); ci /= 2; ch.os = (uint8_t)(ci % S->nos); ci /= S->nos; ch.cb = (uint8_t)ci;
        e = f->e;
        uint32_t add = S->ks[ch.k], rest = (uint32_t)S->n - e.p;
        if (add > rest) { if (add != 9999) continue; add = rest; }
        else if (ch.k && add == rest) continue;        /* same as "rest" (last entry) */
        if (ch.k && add == 0) continue;
        if (e.eof && (!ch.eof || add)) continue;
        if (ch.eof && e.p + add != S->n) continue;
        f->ch = ch;
        snap_load(top);
        S->cbmode = S->cbs[ch.cb]; S->cb_bad = 0;
        e.p += add; e.eof = (uint8_t)(e.eof || ch.eof);
        uint32_t ai = e.p - e.c, ao = S->oss[ch.os];
        memset(S->iw.w + S->iw.cap - ai - 64, 0x5C, 64);
        memcpy(S->iw.w + S->iw.cap - ai, S->in + e.c, ai);
        uint8_t *ib = S->iw.end - ai, *out = S->ow.end - ao;
        memset(out - 64, 0x3E, 64 + ao);
        rs_buffers_t *b = &S->bufs;
        b->next_in = (char *)ib; b->avail_in = ai; b->eof_in = e.eof; b->next_out = (char *)out; b->avail_out = ao;
        mc_tick();
        rs_result r = rs_job_iter(S->job, b);
        M->w->transitions++;
        size_t used = ai - b->avail_in, got = ao - b->avail_out;
        uint8_t *ntop = top + f->len;
        { uint8_t *sv = top; top = ntop;         /* so that messages include this call */
        if (b->avail_in > ai || b->avail_out > ao) { if (S->what & W3) XFAIL("remaining counts grew"); top = sv; continue; }
        if (S->what & W3) {
            if (b->next_in != (char *)ib + used) XFAIL("next_in moved by %ld, avail_in by %zu", (long)(b->next_in - (char *)ib), used);
            if (b->next_out != (char *)out + got) XFAIL("next_out moved by %ld, avail_out by %zu", (long)(b->next_out - (char *)out), got);
            if (b->eof_in != e.eof) XFAIL("eof_in was changed");
            for (int i = 1; i <= 64; i++) if (out[-i] != 0x3E) XFAIL("wrote before the output space");
            if (S->kind != K_PATCH) for (size_t i = got; i < ao; i++) if (out[i] != 0x3E) XFAIL("wrote output space that is not counted as used (%zu of %u used, byte %zu)", got, ao, i);
            if (S->cb_bad) XFAIL("basis callback asked for a wrong amount or given a wrong buffer");
            const char *bad = ar_check(); if (bad) XFAIL("%s", bad);
            if (r == RS_RUNNING || r == RS_INTERNAL_ERROR) XFAIL("rs_job_iter returned %s", rn(RES(r)));
            if (r == RS_BLOCKED && e.eof && ao && !got && e.p == S->n) XFAIL("blocked with all input, end-of-input and %u bytes of output space, but produced nothing", ao);
            if (r == RS_BLOCKED && e.eof && ao == OUTBIG) XFAIL("did not finish with all input, end-of-input and ample output space (took %zu of %u, gave %zu)", used, ai, got);
            if (r == RS_BLOCKED && ai && ao && !used && !got) XFAIL("blocked without progress although input and output space were available");
        } else if (r == RS_BLOCKED && e.eof && ao == OUTBIG) XFAIL("did not finish with all input, end-of-input and ample output space");
        if (S->slack) {
            memcpy(ob + e.o, out, got);         /* output differs by path: part of the state */
        } else if (S->what & W2) {
            if (e.o + got > S->expn || memcmp(out, S->exp + e.o, got)) XFAIL("output differs at offset %u (this call gave %zu bytes)", e.o, got);
        }
        e.c += (uint32_t)used; e.o += (uint32_t)got;
        if (r != RS_BLOCKED) {
            e.done = 1;
            if (S->what & W2) {
                if (r != S->expr) XFAIL("final result %s, but %s when run in one call", rn(RES(r)), S->expr == RS_DONE ? "DONE" : "an error");
                if (S->slack) { if (r == RS_DONE) check_slack(top, e.o, ob); }
                else if (e.o != S->expn) XFAIL("finished after %u of %zu output bytes", e.o, S->expn);
                if (S->kind == K_LOAD && r == RS_DONE) probe_loaded(top);
            }
            if ((S->what & W3) && r == RS_DONE && !S->slack && e.o != S->expn) XFAIL("reported DONE with %u of %zu bytes delivered", e.o, S->expn);
            M->w->evals++; 
            if (S->what & W21) { free_check(top, S->kind == K_DELTA && r == RS_DONE && S->expr == RS_DONE); }
            mc_distinct(mc_hash(S->in, S->n, (uint64_t)e.c * 1000003 + e.o * 131 + (uint64_t)ch.os * 7 + ch.k + (uint64_t)S->kind * 77 + mc_hash(AR, AC->top, 5)));
            top = sv; continue;
        }
        top = sv; }
        if (S->slack) { /* state includes output so far */
            env e2 = e; uint64_t h = mc_hash(ob, e.o, 3); memcpy(&e2.c, &e.c, 4); e2.pad[0] = (uint8_t)h;
            if (!visit(&e2)) continue;
            e = e2; e.pad[0] = 0;
        } else if (!visit(&e)) continue;
        M->w->states++;
        if (S->what & W21) free_check(ntop, S->kind == K_DELTA && S->expr == RS_DONE);
        if (S->nvis > S->maxstates || S->nvis > S->vmask / 2) { M->w->trunc++; goto out; }
        if ((size_t)(ntop - S->stk) + 2 * (snap_size() + 65536) > S->stkcap) { M->w->trunc++; goto out; }
        snap_save(ntop, &e);
        top = ntop;
    }
out:
    AC->on = 0;
}
/* one-call run gives the reference for error results; well-formed cases are compared with the independent reference */
static void reference(void)
{
    runinfo ri; S->t2.n = 0; AC->on = 0;
    vec_need(&S->t2, 200000);
    S->bufs = (rs_buffers_t){0};
    uint8_t *o = malloc(OUTBIG * 8); rs_buffers_t *b = &S->bufs;
    b->next_in = (char *)S->in; b->avail_in = S->n; b->eof_in = 1; b->next_out = (char *)S->ow.end - OUTBIG; b->avail_out = OUTBIG; (void)o; free(o);
    S->cbmode = 0;
    AC->on = 1;
    rs_result r = rs_job_iter(S->job, b);
    AC->on = 0;
    S->expr = r; S->expn = OUTBIG - b->avail_out;
    memcpy(S->exp, S->ow.end - OUTBIG, S->expn);
}
static void start_job(size_t bl, size_t sl, uint32_t magic)
{
    AC->on = 1;
    if (S->kind == K_SIG) S->job = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    else if (S->kind == K_LOAD) S->job = rs_loadsig_begin(&S->loaded);
    else if (S->kind == K_DELTA) S->job = rs_delta_begin(S->sig);
    else S->job = rs_patch_begin(ex_copy, S);
    AC->on = 0;
}
static void make_sig_obj(size_t bl, size_t sl, uint32_t magic)
{
    static uint8_t tmp_unused; (void)tmp_unused;
    rs_result r; S->t1.n = 0; vec_need(&S->t1, 400000);
    size_t n = ref_sig(S->t1.p, magic, bl, sl, S->basis, S->bn);
    uint8_t *cp = mc_mapp(65536); memcpy(cp, S->t1.p, n);
    rs_buffers_t b = {0}; b.next_in = (char *)cp; b.avail_in = n; b.eof_in = 1;
    AC->on = 1;
    rs_job_t *j = rs_loadsig_begin(&S->sig);
    r = rs_job_iter(j, &b);
    rs_job_free(j);
    if (r == RS_DONE) r = rs_build_hash_table(S->sig);
    AC->on = 0;
    munmap(cp, 65536);
    if (r != RS_DONE) mc_fail("cannot load own signature: %d", RES(r));
}
static void set_choices(int kind, int rich)
{
    static const uint32_t k1[] = {0, 1, 2, 9999}, k2[] = {0, 1, 2, 3, 7, 9999};
    static const uint32_t o1[] = {0, 1, 5, OUTBIG}, o2[] = {0, 1, 2, 5, 11, OUTBIG};
    S->nk = rich ? 6 : 4; memcpy(S->ks, rich ? k2 : k1, sizeof(uint32_t) * (size_t)S->nk);
    if (kind == K_LOAD) { S->nos = 2; S->oss[0] = 0; S->oss[1] = OUTBIG; }
    else { S->nos = rich ? 6 : 4; memcpy(S->oss, rich ? o2 : o1, sizeof(uint32_t) * (size_t)S->nos); }
    S->ncb = 1; S->cbs[0] = 0;
    if (kind == K_PATCH) { S->ncb = rich ? 4 : 3; S->cbs[1] = 2; S->cbs[2] = 1; S->cbs[3] = 6; }
}
static void go(size_t bl, size_t sl, uint32_t magic)
{
    start_job(bl, sl, magic);
    /* reference from a first run on a copy of the state */
    env e0 = {0}; S->stk[0] = 0;
    snap_save(S->stk, &e0);
    reference();
    snap_load(S->stk);
    explore();
}
static void begin_case(int kind) { AC->on = 0; ar_reset(); S->kind = kind; S->sig = S->loaded = NULL; S->job = NULL; S->slack = 0; S->n = S->bn = 0; S->pn = 0; vec_need(&S->t1, 400000); vec_need(&S->t2, 200000); }

/* ---- cases ---- */
static void sig_cases(int th)
{
    static const size_t sls[] = {1, 4, 7, 16};
    for (int mi = 0; mi < 4; mi++) for (size_t bl = 1; bl <= (th ? 7u : 5u); bl++) for (size_t n = 0; n <= (th ? 16u : 11u); n++) for (int si = 0; si < 4; si++) {
        if (!th && (mi + (int)bl + (int)n + si) % 2) continue;
        if (n / bl > 8 ) continue;
        if (!mc_case()) continue;
        begin_case(K_SIG); set_choices(K_SIG, th && n < 10);
        S->n = n; mc_fill(S->in, n, n * 10 + bl);
        mc_desc("signature job: %zu bytes, block_len %zu, strong_len %zu, magic %#x: all call sequences", n, bl, sls[si], ref_magics[mi]);
        go(bl, sls[si], ref_magics[mi]);
        if (S->what & W2) { uint8_t *t = S->t1.p; size_t k = ref_sig(t, ref_magics[mi], bl, sls[si], S->in, n); MC_CHECK(S->expr == RS_DONE && k == S->expn && !memcmp(t, S->exp, k), "signature made in one call is wrong"); }
    }
    /* bad parameters: the error must be the same under any schedule */
    for (int v = 0; v < 3; v++) { if (!mc_case()) continue; begin_case(K_SIG); set_choices(K_SIG, 0); S->n = 3; mc_desc("signature job with bad parameters %d", v);
        go(4, v == 0 ? 17 : v == 1 ? 33 : 8, v == 2 ? 0x72730199 : v == 1 ? REF_B2 : REF_MD4); }
}
/* blocks that make the internal buffer grow and move: pieces around its sizes (64, 128 bytes) */
static void set_wide(int rich)
{
    static const uint32_t k[] = {0, 1, 30, 63, 9999, 65}, o[] = {0, 7, OUTBIG, 40, 1};
    S->nk = 5; memcpy(S->ks, k, sizeof(uint32_t) * 5); S->nos = rich ? 5 : 3; memcpy(S->oss, o, sizeof(uint32_t) * (size_t)S->nos);
    if (rich) { S->nk = 6; S->ks[4] = 65; S->ks[5] = 9999; }
}
static void sig_wide(int th)
{
    static const size_t bls[] = {33, 64, 65, 70, 128, 129};
    for (int mi = 0; mi < 4; mi++) for (int bi = 0; bi < 6; bi++) for (int d = 0; d < 3; d++) {
        size_t bl = bls[bi], n = d == 0 ? 2 * bl : d == 1 ? 2 * bl + 1 : bl + bl / 2;
        if (!th && (mi + bi + d) % 2) continue;
        if (!mc_case()) continue;
        begin_case(K_SIG); set_choices(K_SIG, 0); set_wide(th);
        S->n = n; mc_fill(S->in, n, n * 10 + bl); size_t sl = (ref_magics[mi] & 0xf) == 6 ? 16 : 32;
        mc_desc("signature job: %zu bytes, block_len %zu, strong_len %zu, magic %#x: all call sequences with pieces of 1, 30, 63 bytes or the rest", n, bl, sl, ref_magics[mi]);
        go(bl, sl, ref_magics[mi]);
        if (S->what & W2) { uint8_t *t = S->t1.p; size_t k = ref_sig(t, ref_magics[mi], bl, sl, S->in, n); MC_CHECK(S->expr == RS_DONE && k == S->expn && !memcmp(t, S->exp, k), "signature made in one call is wrong"); }
    }
}
static void load_cases(int th)
{
    for (int mi = 0; mi < 4; mi++) for (int si = 0; si < 3; si++) for (size_t nb = 0; nb <= 3; nb++) for (int cut = -1; cut < 60; cut++) {
        static const size_t sls[] = {1, 3, 8};
        size_t bl = 3, sl = sls[si]; size_t n = 12 + nb * (4 + sl);
        if (cut >= 0 && ((size_t)cut >= n || (nb > 0 && (size_t)cut < 12 + (nb - 1) * (4 + sl)))) continue;
        if (cut >= 0 && mi != 1 && !th) continue;
        if (!mc_case()) continue;
        begin_case(K_LOAD); set_choices(K_LOAD, th);
        S->bn = nb * bl; mc_fill(S->basis, S->bn, nb + 3);
        ref_sig(S->in, ref_magics[mi], bl, sl, S->basis, S->bn);
        S->n = cut >= 0 ? (size_t)cut : n;
        mc_desc("load signature job: %zu blocks, strong_len %zu, magic %#x, cut at %d: all call sequences", nb, sl, ref_magics[mi], cut);
        /* probe: all blocks interleaved with a literal; expected delta from an independently loaded signature */
        S->pn = 0; for (size_t i = 0; i < nb; i++) { memcpy(S->probe + S->pn, S->basis + (nb - 1 - i) * bl, bl); S->pn += bl; }
        if (cut < 0 || (cut >= 12 && (cut - 12) % (int)(4 + sl) == 0)) {
            rs_result r; vec d = {0}; runinfo ri;
            rs_signature_t *ss = load_sig(S->in, S->n, ONESHOT, &r);
            MC_CHECK(ss, "valid signature does not load: %d", RES(r));
            rs_job_t *j = rs_delta_begin(ss); run_job(j, S->probe, S->pn, ONESHOT, &d, &ri); rs_job_free(j); rs_free_sumset(ss);
            memcpy(S->pexp, d.p, d.n); S->pexpn = d.n; free(d.p);
        }
        go(0, 0, 0);
    }
    for (int v = 0; v < 5; v++) { if (!mc_case()) continue; begin_case(K_LOAD); set_choices(K_LOAD, 0); S->n = 20; memset(S->in, 0, 20);
        ref_put4(S->in, v == 0 ? 0x12345678 : v == 1 ? 0 : REF_B2); ref_put4(S->in + 4, v == 2 ? 0 : 5); ref_put4(S->in + 8, v == 3 ? 33 : v == 4 ? 0 : 4);
        mc_desc("load signature job, bad header %d", v); go(0, 0, 0); }
}
static void delta_case(size_t bl, size_t sl, uint32_t magic, int rich)
{
    set_choices(K_DELTA, rich);
    make_sig_obj(bl, sl, magic);
    if (S->bn == 0) S->slack = 1;
    go(0, 0, 0);
    if ((S->what & W2) && !S->slack) {
        ref_dres d = ref_patch(S->exp, S->expn, S->basis, S->bn, S->t1.p, S->n + 1);
        MC_CHECK(S->expr == RS_DONE && d.result == REF_OK && d.outlen == S->n && !memcmp(S->t1.p, S->in, S->n), "delta made in one call does not describe the new file");
    }
}
static void delta_cases(int th, int scaled)
{
    /* all short new files over two letters */
    for (int oi = 0; oi < 5; oi++) for (size_t bl = 1; bl <= 3; bl++) for (int mi = 0; mi < 4; mi += th ? 1 : 3) for (size_t n = 0; n <= (th ? 5u : 4u); n++) for (unsigned bits = 0; bits < 1u << n; bits++) {
        static const char *olds[] = {"", "a", "ab", "aabb", "abaab"};
        if (!mc_case()) continue;
        begin_case(K_DELTA);
        S->bn = strlen(olds[oi]); memcpy(S->basis, olds[oi], S->bn); S->n = n; for (size_t i = 0; i < n; i++) S->in[i] = bits >> i & 1 ? 'b' : 'a';
        mc_desc("delta job%s: old \"%s\", block_len %zu, magic %#x, new of %zu letters %#x: all call sequences", scaled ? " (literal limit 13)" : "", olds[oi], bl, ref_magics[mi], n, bits);
        delta_case(bl, 8, ref_magics[mi], th);
    }
    /* segment sequences around the literal limit (13 in the scaled build) */
    static const int lits[] = {0, 1, 5, 12, 13, 14, 26, 27};
    int NL = th ? 8 : 7;
    for (int a = 0; a < NL; a++) for (int m = 0; m < 4; m++) for (int b = 0; b < NL; b++) for (int v = 0; v < 2; v++) {
        if (!th && (lits[a] + lits[b] > 27 || (m == 3 && v))) continue;
        if (!mc_case()) continue;
        begin_case(K_DELTA);
        size_t bl = v ? 5 : 2; S->bn = 2 * bl + 1; mc_fill(S->basis, S->bn, 9);
        uint8_t *p = S->in; for (int i = 0; i < lits[a]; i++) *p++ = (uint8_t)(0x80 + i);
        if (m & 1) { memcpy(p, S->basis + bl, bl); p += bl; } if (m & 2) { memcpy(p, S->basis, bl); p += bl; }
        for (int i = 0; i < lits[b]; i++) *p++ = (uint8_t)(0xc0 + i);
        if (v && m == 1) *p++ = S->basis[2 * bl];
        S->n = (size_t)(p - S->in);
        mc_desc("delta job%s: block_len %zu, new = %d new bytes, %s%s, %d new bytes: all call sequences", scaled ? " (literal limit 13)" : "", bl, lits[a], m & 1 ? "block1 " : "", m & 2 ? "block0" : "", lits[b]);
        delta_case(bl, 8, v ? REF_RK_B2 : REF_MD4, 0);
    }
}
static void delta_wide(int th, int scaled)
{
    static const size_t bls[] = {40, 64, 70, 130};
    for (int bi = 0; bi < 4; bi++) for (int a = 0; a < 4; a++) for (int m = 0; m < 4; m++) for (int b = 0; b < 3; b++) for (int mi = 0; mi < 4; mi += 3) {
        static const int lits[] = {0, 3, 20, 45};
        if (!th && (bi + a + m + b + mi) % 3) continue;
        if (!mc_case()) continue;
        begin_case(K_DELTA);
        size_t bl = bls[bi]; S->bn = 2 * bl + 5; mc_fill(S->basis, S->bn, 9);
        uint8_t *p = S->in; mc_fill(p, (size_t)lits[a], 77); p += lits[a];
        if (m & 1) { memcpy(p, S->basis + bl, bl); p += bl; } if (m & 2) { memcpy(p, S->basis, bl); p += bl; }
        mc_fill(p, (size_t)lits[b], 78); p += lits[b];
        if (a == b) { memcpy(p, S->basis + 2 * bl, 5); p += 5; }
        S->n = (size_t)(p - S->in);
        mc_desc("delta job%s: block_len %zu, new = %d new bytes, %s%s, %d new bytes, %s: all call sequences with pieces of 9, 63 (thorough: 1, 30, 63) bytes or the rest", scaled ? " (literal limit 13)" : "", bl, lits[a], m & 1 ? "block1 " : "", m & 2 ? "block0" : "", lits[b], a == b ? "short last block" : "");
        set_choices(K_DELTA, 0); set_wide(0); if (!th) { S->nk = 4; S->ks[1] = 9; S->ks[2] = 63; S->ks[3] = 9999; }
        make_sig_obj(bl, 8, ref_magics[mi]);
        go(0, 0, 0);
        if (S->what & W2) {
            ref_dres d = ref_patch(S->exp, S->expn, S->basis, S->bn, S->t1.p, S->n + 1);
            MC_CHECK(S->expr == RS_DONE && d.result == REF_OK && d.outlen == S->n && !memcmp(S->t1.p, S->in, S->n), "delta made in one call does not describe the new file");
        }
    }
}
static size_t put_cmd(uint8_t *p, int kind, int w1, int w2, uint64_t a, uint64_t b)
{
    static const int lg[9] = {0, 0, 1, 0, 2, 0, 0, 0, 3};
    if (kind == 'E') { p[0] = 0; return 1; }
    if (kind == 'L') { if (!w1) { p[0] = (uint8_t)a; return 1; } p[0] = (uint8_t)(0x41 + lg[w1]); ref_putn(p + 1, a, w1); return 1 + (size_t)w1; }
    p[0] = (uint8_t)(0x45 + 4 * lg[w1] + lg[w2]); ref_putn(p + 1, a, w1); ref_putn(p + 1 + w1, b, w2); return 1 + (size_t)(w1 + w2);
}
static void patch_cases(int th)
{
    enum { NC = 8 };
    for (int len = 0; len <= (th ? 3 : 2); len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= NC;
      for (int q = 0; q < tot; q++) for (int tail = 0; tail < 5; tail++) {
        if (len == 3 && tail > 1) continue;
        if (!mc_case()) continue;
        begin_case(K_PATCH); set_choices(K_PATCH, th && len < 2);
        S->bn = 9; mc_fill(S->basis, 9, 4);
        uint8_t *p = S->in; ref_put4(p, REF_DELTA); p += 4; int z = q;
        for (int i = 0; i < len; i++) { int c = z % NC; z /= NC;
            switch (c) {
            case 0: p += put_cmd(p, 'L', 0, 0, 1, 0); *p++ = (uint8_t)(0xa0 + i); break;
            case 1: p += put_cmd(p, 'L', 0, 0, 4, 0); for (int k = 0; k < 4; k++) *p++ = (uint8_t)(0xb0 + 4 * i + k); break;
            case 2: p += put_cmd(p, 'L', 2, 0, 3, 0); for (int k = 0; k < 3; k++) *p++ = (uint8_t)(0xc0 + 4 * i + k); break;
            case 3: p += put_cmd(p, 'C', 1, 1, 2, 5); break;
            case 4: p += put_cmd(p, 'C', 2, 1, 0, 9); break;
            case 5: p += put_cmd(p, 'C', 1, 4, 8, 1); break;
            case 6: p += put_cmd(p, 'C', 8, 2, 1, 1); break;
            case 7: p += put_cmd(p, 'C', 1, 1, 7, 4); break;       /* past the end of the basis */
            } }
        if (tail == 0) *p++ = 0; else if (tail == 1) ; else if (tail == 2) *p++ = 0x55; else if (tail == 3) { *p++ = 0x45; *p++ = 1; } else { *p++ = 3; *p++ = 'x'; }
        S->n = (size_t)(p - S->in);
        mc_desc("patch job: %d commands (code %d), ending %d: all call sequences and callback behaviours", len, q, tail);
        go(0, 0, 0);
        if (S->what & W2) {
            ref_dres d = ref_patch(S->in, S->n, S->basis, S->bn, S->t1.p, 10000);
            if (d.result == REF_OK) MC_CHECK(S->expr == RS_DONE && d.outlen == S->expn && !memcmp(S->exp, S->t1.p, S->expn), "patch in one call gives wrong output");
            else MC_CHECK(RES(S->expr) == d.result && d.outlen == S->expn && !memcmp(S->exp, S->t1.p, S->expn), "patch in one call gives wrong error or output");
        }
    } }
}
/* every encoding of every command, whole and cut at every byte, alone and between literals */
static void patch_widths(int th)
{
    static const int w[] = {1, 2, 4, 8};
    for (int e = 0; e < 20; e++) for (int ctx = 0; ctx < 2; ctx++) for (int cut = -1; cut < 40; cut++) {
        if (cut >= 0 && ctx) break;
        uint8_t d[64], *p = d; ref_put4(p, REF_DELTA); p += 4;
        if (ctx) { p += put_cmd(p, 'L', 0, 0, 2, 0); *p++ = 'x'; *p++ = 'y'; }
        if (e < 4) { p += put_cmd(p, 'L', w[e], 0, 3, 0); memcpy(p, "abc", 3); p += 3; }
        else p += put_cmd(p, 'C', w[(e - 4) / 4], w[(e - 4) % 4], 2, 6);
        if (ctx) { p += put_cmd(p, 'C', 1, 1, 0, 1); }
        *p++ = 0;
        if (cut >= (int)(p - d)) break;
        if (!mc_case()) continue;
        begin_case(K_PATCH); set_choices(K_PATCH, th && cut < 0);
        S->bn = 9; mc_fill(S->basis, 9, 4);
        S->n = cut >= 0 ? (size_t)cut : (size_t)(p - d); memcpy(S->in, d, S->n);
        mc_desc("patch job: encoding %d (literal lengths 1,2,4,8 bytes; copies 1..8 x 1..8)%s, cut at %d: all call sequences and callback behaviours", e, ctx ? " between other commands" : "", cut);
        go(0, 0, 0);
        if (S->what & W2) {
            ref_dres q = ref_patch(S->in, S->n, S->basis, S->bn, S->t1.p, 10000);
            MC_CHECK(RES(S->expr) == (q.result == REF_OK ? RS_DONE : q.result) && q.outlen == S->expn && !memcmp(S->exp, S->t1.p, S->expn), "patch in one call gives wrong result or output");
        }
    }
}
static void run(void)
{
    int th = M->thorough, scaled = strstr(M->mode, "scaled") != NULL;
    S = mc_mapp(sizeof *S);
    S->what = !strncmp(M->mode, "C02", 3) ? W2 : !strncmp(M->mode, "C03", 3) ? W3 : W21;
    S->d0 = (unsigned char *)__data_start; S->dn = (size_t)(_end - __data_start);
    S->stkcap = 2ULL << 30; S->stk = mc_mapp(S->stkcap);
    S->vmask = (1ULL << (th ? 22 : 20)) - 1; S->vis = mc_mapp((S->vmask + 1) * 16); S->maxstates = th ? 1500000 : 400000;
    S->iw = mc_win_ro(INCAP); S->ow = mc_win_new(OUTWIN); S->bw = mc_win_new(4096);
    ar_init();
    rs_trace_to(quiet_sink); rs_trace_set_level(RS_LOG_EMERG);
    if (!strstr(M->mode, "delta")) { sig_cases(th); load_cases(th); patch_cases(th); sig_wide(th); patch_widths(th); }
    if (!strstr(M->mode, "nodelta")) { delta_cases(th, scaled); delta_wide(th, scaled); }
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
