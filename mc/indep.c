/* C20: jobs are independent.  Tasks (sequences of API calls on private objects) are explored under all interleavings of their
 * calls, nested in basis callbacks, after every short history, with different contents of fresh memory, and (mode C20-threads)
 * as threads preempted at every access to memory that another thread also uses. */
#define AR_CAP (8u << 20)
#include "arena.h"
#include "api.h"
#include "mdfour.h"
#include <ucontext.h>
enum { T_SIG, T_LOAD, T_DELTA, T_PATCH, T_BADPATCH, T_BADLOAD, T_ABANDON, T_SLACK, T_MD4, T_TEXT, T_FILE, T_SHARED, T_NK };
static const char *TN[] = {"signature", "load+delta", "delta", "patch", "corrupt patch", "truncated load", "abandoned delta", "delta without signature", "md4", "text helpers", "whole-file", "delta on a shared signature"};
typedef struct task task;
struct task {
    int kind, v, st, done; size_t istep, ostep;
    const uint8_t *in; size_t n, c, p; int eof;
    uint8_t out[6000], own_[1024]; size_t on;
    rs_job_t *job; rs_signature_t *sig, *own;
    mbasis mb; rs_mdfour_t md;
    uint64_t h; long steps, cbs;
    struct task *nest; long nest_at; int nest_one;
};
typedef struct {
    uint8_t old[2][701], nw[2][901]; size_t on[2], nn[2]; uint8_t sg[2][4][4001]; size_t sn[2][4]; uint8_t dl[2][4][700]; size_t dn[2][4];
    uint64_t want[T_NK][8]; long steps[T_NK][8]; long cbs[T_NK][8];
    rs_signature_t *shared[8];
    uint8_t area[2][4][1024];
    task t[4];
} WORLD;
static WORLD *W;
static size_t ISTEP = 190, OSTEP = 260;
static const size_t BLK[4] = {8, 16, 72, 133};
static uint64_t hs(const rs_stats_t *s, uint64_t h) { uint64_t v[] = {(uint64_t)s->lit_cmds, (uint64_t)s->lit_bytes, (uint64_t)s->lit_cmdbytes, (uint64_t)s->copy_cmds, (uint64_t)s->copy_bytes, (uint64_t)s->copy_cmdbytes, (uint64_t)s->sig_blocks, s->block_len, (uint64_t)s->in_bytes, (uint64_t)s->out_bytes}; return mc_hash(v, sizeof v, h); }
static void obs(task *t, uint64_t x) { t->h = mc_mix(t->h * 31 + x); }
static void obsb(task *t, const void *p, size_t n) { t->h = mc_hash(p, n, t->h * 31 + 5); }
static void task_step(task *t);
static rs_result nest_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    task *t = arg; long k = t->cbs++;
    if (t->nest && k >= t->nest_at) { if (t->nest_one) { if (!t->nest->done) task_step(t->nest); } else if (k == t->nest_at) while (!t->nest->done) task_step(t->nest); }
    return mem_copy(&t->mb, pos, len, buf);
}
/* one rs_job_iter under the task's schedule; 1 when the job ended */
static int it(task *t)
{
    rs_buffers_t b; size_t os = t->ostep;
    if (t->p < t->n) { t->p += t->istep; if (t->p > t->n) t->p = t->n; }
    t->eof = t->p == t->n;
    if (os > sizeof t->out - t->on) os = sizeof t->out - t->on;
    b.next_in = (char *)(uintptr_t)(t->in + t->c); b.avail_in = t->p - t->c; b.eof_in = t->eof; b.next_out = (char *)t->out + t->on; b.avail_out = os;
    rs_result r = rs_job_iter(t->job, &b);
    t->c = t->p - b.avail_in; t->on += os - b.avail_out;
    if (r == RS_BLOCKED && t->steps < 5000) return 0;
    obs(t, (uint64_t)r + 1000); obsb(t, t->out, t->on); t->h = hs(rs_job_statistics(t->job), t->h);
    return 1;
}
static void setin(task *t, const uint8_t *p, size_t n) { t->in = p; t->n = n; t->c = t->p = 0; t->eof = 0; t->on = 0; }
static void loadall(task *t, rs_signature_t **s, const uint8_t *p, size_t n)
{
    rs_job_t *j = rs_loadsig_begin(s); rs_buffers_t b = { (char *)(uintptr_t)p, n, 1, NULL, 0 }; rs_result r = rs_job_iter(j, &b); obs(t, (uint64_t)r); rs_job_free(j);
    if (r == RS_DONE) obs(t, (uint64_t)rs_build_hash_table(*s) + 3);
}
static void task_init(task *t, int kind, int v)
{
    memset(t, 0, sizeof *t); t->kind = kind; t->v = v; t->istep = ISTEP; t->ostep = OSTEP; t->h = (uint64_t)kind * 977;
}
static void task_step(task *t)
{
    int d = t->v & 1, m = (t->v >> 1) & 3; uint32_t mg = ref_magics[m]; size_t bl = BLK[m];
    t->steps++;
    switch (t->kind) {
    case T_SIG:
        if (t->st == 0) { t->job = rs_sig_begin(bl, 0, (rs_magic_number)mg); setin(t, W->old[d], W->on[d]); t->st = 1; }
        else if (t->st == 1) { if (it(t)) t->st = 2; }
        else { rs_job_free(t->job); t->done = 1; }
        break;
    case T_LOAD: case T_BADLOAD:
        if (t->st == 0) { t->job = rs_loadsig_begin(&t->own); setin(t, W->sg[d][m], W->sn[d][m] - (t->kind == T_BADLOAD ? 3 : 0)); t->st = 1; }
        else if (t->st == 1) { if (it(t)) t->st = 2; }
        else if (t->st == 2) { rs_job_free(t->job); t->st = 3; if (t->kind == T_BADLOAD) { rs_free_sumset(t->own); t->done = 1; } }
        else if (t->st == 3) { obs(t, (uint64_t)rs_build_hash_table(t->own)); t->job = rs_delta_begin(t->own); setin(t, W->nw[d], W->nn[d]); t->istep = 1000; t->ostep = 2000; t->st = 4; }
        else if (t->st == 4) { if (it(t)) { rs_job_free(t->job); rs_free_sumset(t->own); t->done = 1; } }
        break;
    case T_DELTA: case T_ABANDON: case T_SHARED: case T_SLACK:
        if (t->st == 0) { if (t->kind == T_DELTA || t->kind == T_ABANDON) { loadall(t, &t->own, W->sg[d][m], W->sn[d][m]); t->sig = t->own; } else if (t->kind == T_SHARED) t->sig = W->shared[t->v];
                          t->job = rs_delta_begin(t->sig); setin(t, t->kind == T_SHARED && (t->v & 1) == 0 ? W->nw[d] : W->nw[d], W->nn[d]); t->st = 1; }
        else if (t->st == 1) { if (it(t) || (t->kind == T_ABANDON && t->steps == 4)) { if (t->kind == T_ABANDON) { obsb(t, t->out, t->on); t->h = hs(rs_job_statistics(t->job), t->h); } t->st = 2; } }
        else { rs_job_free(t->job); if (t->own) rs_free_sumset(t->own); t->done = 1; }
        break;
    case T_PATCH: case T_BADPATCH:
        if (t->st == 0) { t->mb = (mbasis){W->old[d], W->on[d], 0, m, t->own_, sizeof t->own_}; t->job = rs_patch_begin(nest_copy, t); setin(t, W->dl[d][m], W->dn[d][m] - (t->kind == T_BADPATCH ? 1 : 0)); t->st = 1; }
        else if (t->st == 1) { if (it(t)) t->st = 2; }
        else { rs_job_free(t->job); t->done = 1; }
        break;
    case T_MD4:
        if (t->st == 0) rs_mdfour_begin(&t->md);
        else if (t->st < 6) rs_mdfour_update(&t->md, W->old[d] + (t->st - 1) * 31, (size_t)(20 + 71 * m));
        else { uint8_t o[16]; rs_mdfour_result(&t->md, o); obsb(t, o, 16); t->done = 1; }
        t->st++;
        break;
    case T_TEXT: {
        char b[400]; uint8_t x[40]; rs_stats_t s; memset(&s, 0, sizeof s); memcpy(x, W->old[d], 40);
        if (t->st == 0) { rs_base64(x, 31 + m, b); obsb(t, b, strlen(b)); obs(t, rs_unbase64(b)); obsb(t, b, 31); }
        else if (t->st == 1) { rs_hexify(b, x, 20 + m); obsb(t, b, strlen(b)); }
        else if (t->st == 2) { s.op = "delta"; s.lit_cmds = t->v + 1; s.lit_bytes = 99 + t->v; s.copy_cmds = 4; rs_format_stats(&s, b, sizeof b); obsb(t, b, strlen(b)); }
        else if (t->st == 3) { rs_magic_number mm = (rs_magic_number)mg; size_t a = 0, c = m & 1 ? (size_t)-1 : 0; obs(t, (uint64_t)rs_sig_args(100000 * (t->v + 1), &mm, &a, &c)); obs(t, a); obs(t, c); }
        else { const char *e = rs_strerror((rs_result)(100 + m)); obsb(t, e, strlen(e)); t->done = 1; }
        t->st++;
        break; }
    case T_FILE: {
        static const int dummy = 0; (void)dummy; char *o = (char *)t->out; FILE *f, *g, *k; rs_stats_t st; memset(&st, 0, sizeof st); rs_result r; int on = AC && AC->on;
        if (AC) AC->on = 0;
        memset(o, 0, sizeof t->out);
        if (t->st == 0) { f = fmemopen(W->old[d], W->on[d], "r"); g = fmemopen(o, sizeof t->out, "w"); if (!f || !g) _exit(99); if (AC) AC->on = on; r = rs_sig_file(f, g, bl, 0, (rs_magic_number)mg, &st); if (AC) AC->on = 0; fclose(f); fclose(g); }
        else if (t->st == 1) { f = fmemopen(W->sg[d][m], W->sn[d][m], "r"); if (!f) _exit(99); if (AC) AC->on = on; r = rs_loadsig_file(f, &t->own, &st); if (r == RS_DONE) r = rs_build_hash_table(t->own); if (AC) AC->on = 0; fclose(f); }
        else if (t->st == 2) { f = fmemopen(W->nw[d], W->nn[d], "r"); g = fmemopen(o, sizeof t->out, "w"); if (!f || !g) _exit(99); if (AC) AC->on = on; r = rs_delta_file(t->own, f, g, &st); rs_free_sumset(t->own); if (AC) AC->on = 0; fclose(f); fclose(g); }
        else { f = fmemopen(W->dl[d][m], W->dn[d][m], "r"); k = fmemopen(W->old[d], W->on[d], "r"); g = fmemopen(o, sizeof t->out, "w"); if (!f || !g || !k) _exit(99); if (AC) AC->on = on; r = rs_patch_file(k, f, g, &st); if (AC) AC->on = 0; fclose(f); fclose(g); fclose(k); t->done = 1; }
        if (AC) AC->on = on;
        obs(t, (uint64_t)r); obsb(t, o, sizeof t->out); t->h = hs(&st, t->h); t->st++;
        break; }
    }
}
static void task_run(task *t) { while (!t->done) task_step(t); }
static void tcheck(task *t, const char *how)
{
    M->w->evals++;
    MC_CHECK(t->h == W->want[t->kind][t->v], "%s: %s (variant %d) gives another output, result or statistic than when run alone", how, TN[t->kind], t->v);
}
static void mkworld(void)
{
    W = mc_mapp(sizeof *W);
    for (int d = 0; d < 2; d++) {
        W->on[d] = d ? 611 : 560; mc_fill(W->old[d], sizeof W->old[d], 31 + (uint64_t)d);
        uint8_t *n = W->nw[d]; size_t k = 0; memcpy(n, W->old[d] + 16, 200); k = 200; memcpy(n + k, d ? "some new text 1234" : "other words here!!", 18); k += 18; memcpy(n + k, W->old[d] + 133, 300); k += 300; memcpy(n + k, W->old[d] + W->on[d] - 160, 160); W->nn[d] = k + 160;
        for (int m = 0; m < 4; m++) W->sn[d][m] = ref_sig(W->sg[d][m], ref_magics[m], BLK[m], m & 1 ? 8 : 12, W->old[d], W->on[d]);
        for (int m = 0; m < 4; m++) {   /* hand-made deltas: literals and copies in several encodings */
            uint8_t *o = W->dl[d][m]; size_t k = 0; ref_put4(o, REF_DELTA); k = 4;
            for (int i = 0; i < 5; i++) { o[k++] = 0x45; o[k++] = (uint8_t)(i * 17 + d); o[k++] = (uint8_t)(90 + i + m); o[k++] = (uint8_t)(3 + i); memset(o + k, 'A' + i + d, (size_t)(3 + i)); k += (size_t)(3 + i); }
            o[k++] = 0; W->dn[d][m] = k;
        }
    }
}
/* solo behaviour of every task in a fresh process each */
static void baseline(void)
{
    uint64_t *sh = mc_map(sizeof W->want + sizeof W->steps + sizeof W->cbs + 4096);
    for (int k = 0; k < T_NK; k++) for (int v = 0; v < 8; v++) {
        pid_t p = fork();
        if (p == 0) { task *t = &W->t[0]; if (k == T_SHARED) { task x; task_init(&x, T_SIG, 0); loadall(&x, &W->shared[v], W->sg[v & 1][v >> 1], W->sn[v & 1][v >> 1]); } task_init(t, k, v); task_run(t); sh[(k * 8 + v) * 3] = t->h; sh[(k * 8 + v) * 3 + 1] = (uint64_t)t->steps; sh[(k * 8 + v) * 3 + 2] = (uint64_t)t->cbs; _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(99);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (mc_case()) {} M->w->cur_case = 0; mc_fail("%s variant %d crashes when run alone", TN[k], v); }
        W->want[k][v] = sh[(k * 8 + v) * 3]; W->steps[k][v] = (long)sh[(k * 8 + v) * 3 + 1]; W->cbs[k][v] = (long)sh[(k * 8 + v) * 3 + 2];
    }
    munmap(sh, sizeof W->want + sizeof W->steps + sizeof W->cbs + 4096);
}
static void shared_load(int v) { task x; memset(&x, 0, sizeof x); W->shared[v] = NULL; loadall(&x, &W->shared[v], W->sg[v & 1][v >> 1], W->sn[v & 1][v >> 1]); }
/* all interleavings of the calls of n tasks */
static long NIL;
static void inter(const int *kinds, const int *vs, int n, char *seq, int len, const int *left)
{
    int rem = 0, l2[4];
    for (int i = 0; i < n; i++) rem += left[i];
    if (!rem) {
        for (int i = 0; i < n; i++) if (kinds[i] == T_SHARED && (i == 0 || 1)) { int dup = 0; for (int j = 0; j < i; j++) dup |= kinds[j] == T_SHARED && vs[j] == vs[i]; if (!dup) shared_load(vs[i]); }
        for (int i = 0; i < n; i++) task_init(&W->t[i], kinds[i], vs[i]);
        for (int i = 0; i < len; i++) if (!W->t[(int)seq[i]].done) task_step(&W->t[(int)seq[i]]);
        for (int i = 0; i < n; i++) { int extra = 0; while (!W->t[i].done) { task_step(&W->t[i]); extra++; } (void)extra; }
        for (int i = 0; i < n; i++) { M->w->evals++; if (W->t[i].h != W->want[kinds[i]][vs[i]]) { char b[200]; int k; for (k = 0; k < len && k < 150; k++) b[k] = (char)('A' + seq[k]); b[k] = 0; mc_fail("interleaving %s of the calls of %d jobs: job %c (%s, variant %d) gives another output, result or statistic than when run alone", b, n, 'A' + i, TN[kinds[i]], vs[i]); } }
        for (int i = 0; i < n; i++) if (kinds[i] == T_SHARED) { int dup = 0; for (int j = 0; j < i; j++) dup |= kinds[j] == T_SHARED && vs[j] == vs[i]; if (!dup) rs_free_sumset(W->shared[vs[i]]); }
        M->w->states++; M->w->transitions += (uint64_t)len; if (!(++NIL & 63)) mc_tick();
        mc_distinct(mc_hash(seq, (size_t)len, (uint64_t)kinds[0] * 64 + (uint64_t)kinds[1] * 4096 + (uint64_t)vs[0] * 7 + (uint64_t)vs[1]));
        return;
    }
    for (int i = 0; i < n; i++) if (left[i]) { memcpy(l2, left, sizeof l2); l2[i]--; seq[len] = (char)i; inter(kinds, vs, n, seq, len + 1, l2); }
}
static void __attribute__((noinline)) scribble(int c) { volatile char b[60000]; memset((char *)b, c, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }

static void run_calls(int th)
{
    char seq[200];
    /* A: two jobs, every interleaving of their calls */
    for (int a = 0; a < T_NK; a++) for (int b = a; b < T_NK; b++) for (int vv = 0; vv < 8; vv++) {
        if (!th && a != b && vv > 3) continue;
        if (!mc_case()) continue;
        int kinds[2] = {a, b}, vs[2] = {vv, a == T_SHARED && b == T_SHARED ? (vv & 1 ? vv : (vv ^ 0)) : (vv * 3 + 1) & 7}, left[4] = {0};
        if (a == T_SHARED && b == T_SHARED && (vv & 4)) vs[1] = vv ^ 1;
        mc_desc("every interleaving of the calls of %s (variant %d) and %s (variant %d)", TN[a], vs[0], TN[b], vs[1]);
        for (int i = 0; i < 2; i++) { long s = W->steps[kinds[i]][vs[i]]; left[i] = (int)(s > 8 ? 8 : s); }
        if (a == T_FILE && b == T_FILE) left[0] = left[1] = 3;
        inter(kinds, vs, 2, seq, 0, left);
    }
    /* B: three jobs */
    static const int tri[][3] = { {T_SHARED, T_SHARED, T_SHARED}, {T_SIG, T_DELTA, T_PATCH}, {T_LOAD, T_LOAD, T_LOAD}, {T_DELTA, T_DELTA, T_ABANDON}, {T_PATCH, T_PATCH, T_BADPATCH}, {T_SIG, T_SIG, T_SLACK}, {T_MD4, T_MD4, T_MD4}, {T_SHARED, T_SHARED, T_FILE}, {T_BADLOAD, T_LOAD, T_DELTA} };
    for (int i = 0; i < 9; i++) for (int v = 0; v < 8; v++) {
        if (!th && v > 2) continue;
        if (!mc_case()) continue;
        int kinds[3], vs[3], left[4] = {0}; for (int k = 0; k < 3; k++) { kinds[k] = tri[i][k]; vs[k] = kinds[k] == T_SHARED ? v : (v + k * 3) & 7; long s = W->steps[kinds[k]][vs[k]]; left[k] = (int)(s > (th ? 5 : 4) ? (th ? 5 : 4) : s); }
        mc_desc("interleavings of the calls of %s, %s and %s (variant %d)", TN[kinds[0]], TN[kinds[1]], TN[kinds[2]], v);
        inter(kinds, vs, 3, seq, 0, left);
    }
    /* C: other jobs run inside a basis callback */
    for (int pv = 0; pv < 8; pv++) for (int k = 0; k < T_NK; k++) for (int one = 0; one < 2; one++) {
        if (!mc_case()) continue;
        mc_desc("%s run from each basis callback of a patch (variant %d), %s", TN[k], pv, one ? "one call per callback" : "completely");
        for (int v = 0; v < 8; v++) for (long at = 0; at < W->cbs[T_PATCH][pv]; at++) {
            if (k == T_SHARED) shared_load(v);
            task_init(&W->t[0], T_PATCH, pv); task_init(&W->t[1], k, v); W->t[0].nest = &W->t[1]; W->t[0].nest_at = at; W->t[0].nest_one = one;
            task_run(&W->t[0]); task_run(&W->t[1]); tcheck(&W->t[0], "patch with another job in its callback"); tcheck(&W->t[1], "job run from a basis callback");
            if (k == T_SHARED) rs_free_sumset(W->shared[v]);
            M->w->states++; M->w->transitions += (uint64_t)(W->t[0].steps + W->t[1].steps); mc_tick();
        }
    }
    /* D: every history of two earlier tasks, and all contents of fresh memory and stack */
    static const int FILL[] = {0xCD, 0, 0xFF, 1, 0x80};
    for (int a = 0; a < T_NK; a++) for (int b = 0; b < T_NK; b++) {
        if (!mc_case()) continue;
        mc_desc("history %s, %s before every task; fresh memory filled with 5 patterns", TN[a], TN[b]);
        if (!AC) ar_init();
        for (int k = 0; k < T_NK; k++) for (int v = 0; v < 8; v++) {
            int F = (k + v + a + b) % 5;
            for (int f = 0; f < (a == b ? 5 : 1); f++) {
                AC->fill = FILL[(F + f) % 5]; AC->on = 1; scribble(FILL[(F + f + 1) % 5]);
                if (a == T_SHARED) shared_load(v ^ 3); task_init(&W->t[0], a, v ^ 3); task_run(&W->t[0]); tcheck(&W->t[0], "first of a sequence"); if (a == T_SHARED) rs_free_sumset(W->shared[v ^ 3]);
                scribble(FILL[(F + f + 2) % 5]);
                if (b == T_SHARED) shared_load((v + 1) & 7); task_init(&W->t[1], b, (v + 1) & 7); task_run(&W->t[1]); tcheck(&W->t[1], "after another task"); if (b == T_SHARED) rs_free_sumset(W->shared[(v + 1) & 7]);
                scribble(FILL[(F + f + 3) % 5]);
                if (k == T_SHARED) shared_load(v); task_init(&W->t[2], k, v); task_run(&W->t[2]); tcheck(&W->t[2], "after two other tasks"); if (k == T_SHARED) rs_free_sumset(W->shared[v]);
                AC->on = 0; ar_reset(); M->w->states++; M->w->transitions += 3; mc_tick();
            }
        }
    }
    /* E: one signature serves many deltas of different files, with different slicing, one after the other, with failures between */
    for (int v = 0; v < 8; v++) for (int k = 0; k < 3; k++) {
        if (!mc_case()) continue;
        mc_desc("one signature (variant %d) used for 12 deltas in a row, slicing %d", v, k);
        shared_load(v); uint8_t big[1100]; uint64_t first[4]; task *t = &W->t[0];
        for (int r = 0; r < 12; r++) {
            int w = r % 4; size_t n = 0; memcpy(big, W->nw[v & 1], W->nn[v & 1]); n = W->nn[v & 1]; if (w == 1) { memcpy(big + n, W->old[v & 1], 300); n += 300; } else if (w == 2) n = 0; else if (w == 3) { memset(big, 'z', 300); n = 300; }
            task_init(t, T_SHARED, v); t->istep = k == 0 ? 1 : k == 1 ? 133 : 2000; t->ostep = k == 2 ? 7 : 1900; task_step(t); setin(t, big, n);
            if (r == 6) { for (int q = 0; q < 2 && t->st == 1; q++) task_step(t); rs_job_free(t->job); continue; }
            task_run(t); M->w->evals++;
            if (r < 4) first[w] = t->h; else MC_CHECK(first[w] == t->h, "delta number %d from one signature differs from the first of the same file", r + 1);
            mc_tick();
        }
        rs_free_sumset(W->shared[v]);
    }
}

/* F: calls with default arguments after every short history of calls with other arguments: sizing, signatures, loads with a delta */
enum { FM = 6, FS = 6, FB = 3, FN = FM * FS * FB, FOPS = 4 };
static uint64_t f_event(int op, int x)
{
    static const uint32_t mg[FM] = {0, 0x72730136, 0x72730137, 0x72730146, 0x72730147, 0x12345678}; static const size_t sl[FS] = {0, (size_t)-1, 8, 16, 32, 33}, bls[FB] = {0, 24, 300};
    uint32_t m = mg[x % FM]; size_t s = sl[x / FM % FS], b = bls[x / FM / FS]; uint64_t h = 77 + (uint64_t)op; uint8_t o[2000]; rs_buffers_t bf; rs_result r;
    if (op == 0) { static const rs_long_t fz[] = {-1, 0, 1, 255, 65537, 10000000}; for (int i = 0; i < 6; i++) { rs_magic_number mm = (rs_magic_number)m; size_t bb = b, ss = s; r = rs_sig_args(fz[i], &mm, &bb, &ss); h = mc_mix(h * 31 + (uint64_t)r); if (r == RS_DONE) { h = mc_mix(h * 31 + (uint64_t)mm); h = mc_mix(h * 31 + bb); h = mc_mix(h * 31 + ss); } } return h; }
    if (op == 1 || op == 2) {
        rs_job_t *j = rs_sig_begin(b, op == 2 && s == (size_t)-1 ? 0 : s, (rs_magic_number)m); if (!j) return h + 1;
        bf = (rs_buffers_t){ (char *)W->old[0], 400, 1, (char *)o, op == 2 ? 9 : sizeof o }; r = rs_job_iter(j, &bf);
        if (op == 1) { h = mc_mix(h * 31 + (uint64_t)r); h = mc_hash(o, sizeof o - bf.avail_out, h); h = hs(rs_job_statistics(j), h); } else h = mc_hash(o, 9 - bf.avail_out, h + (uint64_t)r);
        rs_job_free(j); return h;
    }
    if (m == 0 || m == 0x12345678 || s == 0 || s > 32 || (s > 16 && !(m & 1)) || !b) return h;   /* op 3 only with valid signatures */
    size_t n = ref_sig(o, m, b, s, W->old[0], 400); rs_signature_t *sg = NULL; rs_job_t *j = rs_loadsig_begin(&sg); bf = (rs_buffers_t){ (char *)o, n, 1, NULL, 0 }; r = rs_job_iter(j, &bf); rs_job_free(j); h = mc_mix(h * 31 + (uint64_t)r);
    if (r == RS_DONE) { uint8_t q[1500]; h = mc_mix(h + (uint64_t)rs_build_hash_table(sg)); j = rs_delta_begin(sg); bf = (rs_buffers_t){ (char *)W->nw[0], W->nn[0], 1, (char *)q, sizeof q }; r = rs_job_iter(j, &bf); h = mc_mix(h * 31 + (uint64_t)r); h = mc_hash(q, sizeof q - bf.avail_out, h); h = hs(rs_job_statistics(j), h); rs_job_free(j); }
    rs_free_sumset(sg); return h;
}
static uint64_t *FW;
static void args_base(void)
{
    FW = mc_map(FOPS * FN * sizeof *FW);
    for (int e = 0; e < FOPS * FN; e++) {   /* each alone in a process of its own */
        pid_t p = fork(); if (p == 0) { FW[e] = f_event(e / FN, e % FN); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(99);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { M->w->cur_case = 0; mc_fail("call %d with argument set %d crashes when run alone", e / FN, e % FN); }
    }
}
static void run_args(int th)
{
    uint64_t *want = FW;
    for (int a = 0; a < FOPS * FN; a++) {
        if (!mc_case()) continue;
        mc_desc("calls with every argument set after operation %d with argument set %d", a / FN, a % FN);
        for (int b = 0; b < FOPS * FN; b++) {
            int nc = th || (b / FN == 0 && (a + b) % 7 == 0) ? FM : 1;
            for (int k = 0; k < nc; k++) {
                int seq[3] = {a, b, nc == 1 ? -1 : ((a + b) % FOPS) * FN + (k + a * 5 + b) % FN};
                for (int i = 0; i < 3 && seq[i] >= 0; i++) { uint64_t g = f_event(seq[i] / FN, seq[i] % FN); M->w->evals++; M->w->transitions++; MC_CHECK(g == want[seq[i]], "operation %d with argument set %d gives another result as number %d of a sequence (%d, %d) than alone", seq[i] / FN, seq[i] % FN, i + 1, seq[0], seq[1]); }
                M->w->states++;
            }
            if (!(b & 31)) mc_tick();
        }
        mc_distinct(want[a] + (uint64_t)a);
    }
}

#ifdef THREADS
/* ---- threads: the library is compiled with -fsanitize=thread and linked with this runtime ---- */
#define STK (1 << 18)
#define HEAPSZ (1 << 20)
typedef struct { uintptr_t a; uint8_t n, w; } acc;
#define MAXACC (1 << 20)
typedef struct {
    int on, cur, nthr, phase;                   /* phase 1: record, 2: schedule */
    ucontext_t main, ctx[2]; char *stk[2]; unsigned char *heap[2]; size_t htop[2]; int fin[2];
    acc *rec[2]; size_t nrec[2]; uint64_t total[2]; int over;
    uint8_t *cmap;                              /* conflicting bytes of the data segment */
    long cnt[2];                                /* conflicting accesses so far, per thread */
    int nsw; long sw[8];                        /* switch when the running thread has done sw[i] conflicting accesses since it was resumed */
    int swi; long since;
} TH;
static TH *H;
extern char __data_start[], _end[];
static inline int in_seg(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }
static inline void yield_to(int o) { int me = H->cur; H->cur = o; H->since = 0; swapcontext(&H->ctx[me], &H->ctx[o]); }
static void touch(uintptr_t a, size_t n, int w)
{
    if (!H || !H->on) return;
    int me = H->cur; H->total[me]++;
    int other = (a >= (uintptr_t)H->heap[!me] && a < (uintptr_t)H->heap[!me] + HEAPSZ) || (a >= (uintptr_t)H->stk[!me] && a < (uintptr_t)H->stk[!me] + STK);
    if (!in_seg(a) && !other) return;
    if (H->phase == 1) { if (in_seg(a)) { if (H->nrec[me] < MAXACC) { acc *x = &H->rec[me][H->nrec[me]++]; x->a = a; x->n = (uint8_t)(n > 255 ? 255 : n); x->w = (uint8_t)w; for (size_t k = 255; k < n && H->nrec[me] < MAXACC; k += 255) { x = &H->rec[me][H->nrec[me]++]; x->a = a + k; x->n = (uint8_t)(n - k > 255 ? 255 : n - k); x->w = (uint8_t)w; } } else H->over = 1; } return; }
    int conf = other; if (!conf) for (size_t k = 0; k < n && !conf; k++) if (in_seg(a + k)) conf = H->cmap[a + k - (uintptr_t)__data_start];
    if (!conf) return;
    /* before this access: preempt if the schedule says so */
    if (H->swi < H->nsw && H->since == H->sw[H->swi] && !H->fin[!me]) { H->swi++; yield_to(!me); }
    H->since++; H->cnt[me]++;
}
#define RW(N) void __tsan_read##N(void *p) { touch((uintptr_t)p, N, 0); } void __tsan_write##N(void *p) { touch((uintptr_t)p, N, 1); } \
  void __tsan_unaligned_read##N(void *p) { touch((uintptr_t)p, N, 0); } void __tsan_unaligned_write##N(void *p) { touch((uintptr_t)p, N, 1); } \
  void __tsan_volatile_read##N(void *p) { touch((uintptr_t)p, N, 0); } void __tsan_volatile_write##N(void *p) { touch((uintptr_t)p, N, 1); } \
  void __tsan_unaligned_volatile_read##N(void *p) { touch((uintptr_t)p, N, 0); } void __tsan_unaligned_volatile_write##N(void *p) { touch((uintptr_t)p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, size_t n) { touch((uintptr_t)p, n, 1); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; } void __tsan_vptr_read(void *a) { (void)a; }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T *a, int o) { touch((uintptr_t)a, sizeof *a, 0); return *a; } void __tsan_atomic##B##_store(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = v; return x; } T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = (T)(x + v); return x; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = (T)(x - v); return x; } T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = x | v; return x; } T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = x & v; return x; } T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int o) { touch((uintptr_t)a, sizeof *a, 1); T x = *a; *a = x ^ v; return x; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { touch((uintptr_t)a, sizeof *a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, o, f); } T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, o, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; } void __tsan_atomic_signal_fence(int o) { (void)o; }
/* bulk accesses made by libc on behalf of the library */
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { touch((uintptr_t)s, n, 0); touch((uintptr_t)d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { touch((uintptr_t)s, n, 0); touch((uintptr_t)d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) touch((uintptr_t)d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { touch((uintptr_t)a, n, 0); touch((uintptr_t)b, n, 0); } return __real_memcmp(a, b, n); }
static void thread_fn(int i)
{
    task_run(&W->t[i]);
    H->fin[i] = 1;
    if (!H->fin[!i]) { H->cur = !i; H->since = 0; setcontext(&H->ctx[!i]); }
    setcontext(&H->main);
}
static unsigned char *SAVE;
static void run_threads_once(const int *k, const int *v, int firstthr)
{
    for (int i = 0; i < 2; i++) {
        task_init(&W->t[i], k[i], v[i]); H->fin[i] = 0; H->cnt[i] = 0; H->total[i] = 0; H->htop[i] = 0;
        getcontext(&H->ctx[i]); H->ctx[i].uc_stack.ss_sp = H->stk[i]; H->ctx[i].uc_stack.ss_size = STK; H->ctx[i].uc_link = NULL; makecontext(&H->ctx[i], (void (*)(void))thread_fn, 1, i);
    }
    H->swi = 0; H->since = 0; H->cur = firstthr; mc_tick();
    H->on = 1; swapcontext(&H->main, &H->ctx[firstthr]); H->on = 0;
}
static void th_check(const int *k, const int *v, const char *how)
{
    for (int i = 0; i < 2; i++) { M->w->evals++; if (W->t[i].h != W->want[k[i]][v[i]]) { char b[200] = ""; for (int q = 0; q < H->nsw; q++) sprintf(b + strlen(b), "%ld ", H->sw[q]); mc_fail("threads running %s (variant %d) and %s (variant %d), %s, preempted after %s conflicting accesses: thread %d gives another output, result or statistic than when run alone", TN[k[0]], v[0], TN[k[1]], v[1], how, b, i); } }
    M->w->states++; M->w->transitions += H->total[0] + H->total[1];
}
static void run_threads(int th)
{
    H = mc_mapp(sizeof *H);
    for (int i = 0; i < 2; i++) { H->stk[i] = mc_mapp(STK); H->rec[i] = mc_mapp(MAXACC * sizeof(acc)); H->heap[i] = AR; }
    H->heap[0] = H->heap[1] = (unsigned char *)0;
    size_t dn = (size_t)((uintptr_t)_end - (uintptr_t)__data_start); H->cmap = mc_mapp(dn);
    /* baselines for the thread slicing */
    baseline();
    for (int a = 0; a < T_SHARED; a++) for (int b = a; b < T_SHARED; b++) for (int vv = 0; vv < 8; vv++) {
        if (!th && (vv & 1)) continue;
        if (!mc_case()) continue;
        int k[2] = {a, b}, v[2] = {vv, (vv * 3 + 1) & 7};
        mc_desc("threads running %s (variant %d) and %s (variant %d)", TN[a], v[0], TN[b], v[1]);
        /* phase 1: record each thread's accesses to static data */
        H->phase = 1; H->nsw = 0; H->nrec[0] = H->nrec[1] = 0;
        run_threads_once(k, v, 0); th_check(k, v, "one after the other"); run_threads_once(k, v, 1); th_check(k, v, "one after the other");
        memset(H->cmap, 0, dn); long nconf = 0;
        for (int i = 0; i < 2; i++) for (size_t r = 0; r < H->nrec[i]; r++) for (int x = 0; x < H->rec[i][r].n; x++) if (in_seg(H->rec[i][r].a + (uintptr_t)x)) H->cmap[H->rec[i][r].a + (uintptr_t)x - (uintptr_t)__data_start] |= (uint8_t)((H->rec[i][r].w ? 2 : 1) << (2 * i));
        for (size_t x = 0; x < dn; x++) { uint8_t c = H->cmap[x]; int conf = ((c & 2) && (c & 12)) || ((c & 8) && (c & 3)); H->cmap[x] = (uint8_t)conf; nconf += conf; }
        mc_distinct(mc_mix((uint64_t)a * 1000 + (uint64_t)b * 100 + (uint64_t)vv));
        M->w->aux += (uint64_t)nconf;
        if (!nconf) continue;           /* no dependent accesses: all schedules are equivalent to the two executed */
        /* phase 2: every schedule with up to 2 (3) preemptions at conflicting accesses */
        H->phase = 2; H->nsw = 0; run_threads_once(k, v, 0); long c0 = H->cnt[0], c1 = H->cnt[1];
        long lim = th ? 4000 : 600;
        long s0 = c0 / lim + 1, s1 = c1 / lim + 1; if (s0 > 1 || s1 > 1) M->w->trunc++;
        for (int f = 0; f < 2; f++) {
            long ca = f ? c1 : c0, cb = f ? c0 : c1, sa = f ? s1 : s0, sb = f ? s0 : s1;
            for (long i = 0; i <= ca; i += sa) { H->nsw = 1; H->sw[0] = i; run_threads_once(k, v, f); th_check(k, v, "1 preemption"); }
            long l2 = th ? 300 : 60; long t0 = ca / l2 + 1, t1 = cb / l2 + 1; (void)sb; if (t0 > 1 || t1 > 1) M->w->trunc++;
            for (long i = 0; i <= ca; i += t0) for (long j = 0; j <= cb; j += t1) { H->nsw = 2; H->sw[0] = i; H->sw[1] = j; run_threads_once(k, v, f); th_check(k, v, "2 preemptions"); }
            if (th) { long l3 = 40, u0 = ca / l3 + 1, u1 = cb / l3 + 1; for (long i = 0; i <= ca; i += u0) for (long j = 0; j <= cb; j += u1) for (long q = 0; q <= ca; q += u0) { H->nsw = 3; H->sw[0] = i; H->sw[1] = j; H->sw[2] = q; run_threads_once(k, v, f); th_check(k, v, "3 preemptions"); } }
        }
    }
}
#endif
static void run(void)
{
    rs_trace_to(NULL); mkworld();
#ifdef THREADS
    run_threads(M->thorough);
#else
    args_base(); baseline(); run_calls(M->thorough); run_args(M->thorough);
#endif
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
