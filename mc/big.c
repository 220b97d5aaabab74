/* C24: offsets, lengths and totals beyond 32 bits.  Virtual old files (nothing of that size is stored), real code. */
#define MC_HANG_CPU_S 240
#include "api.h"
#include "virt.h"

/* ---- 1: offsets through the short last block: old = nb blocks of bl bytes + 5 bytes; only the end is used ---- */
typedef struct { uint64_t at; const uint8_t *p; size_t n; uint64_t pos[8]; size_t len[8]; int calls; } rec;
static rs_result rec_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    rec *r = arg;
    if (r->calls < 8) { r->pos[r->calls] = (uint64_t)pos; r->len[r->calls] = *len; }
    r->calls++;
    if ((uint64_t)pos < r->at || (uint64_t)pos - r->at >= r->n) return RS_INPUT_ENDED;
    size_t av = r->n - ((size_t)((uint64_t)pos - r->at));
    if (*len > av) *len = av;
    memcpy(*buf, r->p + ((uint64_t)pos - r->at), *len);
    return RS_DONE;
}
static void tail_case(uint32_t magic, uint64_t bl, size_t nb, size_t tn, int pre)
{
    uint8_t tail[64], st[32]; vec sg = {0}, x = {0}, d = {0}, o = {0}; size_t sl = 8; rs_result r; runinfo ri;
    mc_fill(tail, tn, 4242 + tn);
    vec_need(&sg, 12 + (nb + 1) * (4 + sl)); sg.n = 12 + (nb + 1) * (4 + sl);
    ref_put4(sg.p, magic); ref_put4(sg.p + 4, (uint32_t)bl); ref_put4(sg.p + 8, (uint32_t)sl);
    for (size_t i = 0; i < nb; i++) { uint8_t *e = sg.p + 12 + i * (4 + sl); ref_put4(e, (uint32_t)(i * 2654435761u + 12345)); memset(e + 4, 0x5a, sl); }
    uint8_t *e = sg.p + 12 + nb * (4 + sl);
    ref_put4(e, ref_weak(magic, tail, tn)); ref_strong(magic, st, tail, tn); memcpy(e + 4, st, sl);
    rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r);
    MC_CHECK(ss, "a valid signature (%zu blocks of %" PRIu64 ") failed to load: %d", nb + 1, bl, RES(r));
    if (pre) vec_add(&x, "prefix", (size_t)pre);
    vec_add(&x, tail, tn);
    rs_job_t *j = rs_delta_begin(ss);
    r = run_job(j, x.p, x.n, ONESHOT, &d, &ri);
    rs_job_free(j); rs_free_sumset(ss);
    MC_CHECK(!ri.bad && r == RS_DONE, "delta failed: %d %s", RES(r), ri.bad ? ri.bad : "");
    size_t i = 4; uint64_t want = (uint64_t)nb * bl, found = 0; int bad = d.n < 5 || ref_get(d.p, 4) != REF_DELTA;
    while (!bad && i < d.n && d.p[i]) {
        int w1, w2, c = ref_cmd(d.p[i], &w1, &w2);
        if (c == 'L') { uint64_t l = w1 ? ref_get(d.p + i + 1, w1) : d.p[i]; i += 1 + (size_t)w1; if (l > d.n - i) bad = 1; else i += l; }
        else if (c == 'C') {
            uint64_t pos = ref_get(d.p + i + 1, w1), l = ref_get(d.p + i + 1 + w1, w2); i += 1 + (size_t)(w1 + w2);
            MC_CHECK(pos == want && l == tn, "copy of %" PRIu64 " bytes at old-file offset %" PRIu64 ", the data is %zu bytes at %" PRIu64, l, pos, tn, want);
            found++;
        } else bad = 1;
    }
    MC_CHECK(!bad && i + 1 == d.n, "malformed delta");
    MC_CHECK(found == 1, "the old file's last %zu bytes at offset %" PRIu64 " were not matched", tn, want);
    rec rc = {want, tail, tn, {0}, {0}, 0};
    j = rs_patch_begin(rec_copy, &rc);
    r = run_job(j, d.p, d.n, ONESHOT, &o, &ri); rs_job_free(j);
    MC_CHECK(r == RS_DONE && vec_eq(&o, x.p, x.n), "patch: result %d; asked the old file for %zu bytes at %" PRIu64 ", data is at %" PRIu64, RES(r), rc.len[0], rc.pos[0], want);
    M->w->evals++; mc_distinct(mc_hash(d.p, d.n, magic));
    free(sg.p); free(x.p); free(d.p); free(o.p);
}
static void part_tails(void)
{
    static const uint64_t bls[] = {7, 200, 255, 256, 257, 4096, 65535, 65536, 65537, 1000003, 1 << 20, 1 << 24, (1u << 31) - 1, 0x40000000, 0x3fffffff, 0x7ffffffe, 0x55555555};
    for (size_t b = 0; b < sizeof bls / sizeof *bls; b++) for (int mi = 0; mi < 4; mi++) {
        /* numbers of blocks that put the offset at and around each power of two the encodings and types care about, and small ones */
        static const int pw[] = {8, 15, 16, 31, 32, 33, 34, 36, 40, 44};
        uint64_t nbs[200]; int n = 0;
        for (uint64_t k = 0; k <= 9; k++) nbs[n++] = k;
        for (int q = 0; q < 10; q++) for (int dl = -1; dl <= 1; dl++) { uint64_t k = (1ULL << pw[q]) / bls[b]; if (k > 1 && k + 2 < (M->thorough ? 20000000 : 70000)) nbs[n++] = k + (uint64_t)dl; }
        for (int k = 0; k < n; k++) {
            if (!mc_case()) continue;
            mc_desc("old file of %" PRIu64 " blocks of %" PRIu64 " bytes and a short last block (offset %" PRIu64 "), magic %#x", nbs[k], bls[b], nbs[k] * bls[b], ref_magics[mi]);
            for (size_t tn = 1; tn <= 6; tn += 2) for (int pre = 0; pre <= 3; pre += 3) { if (tn >= bls[b] || (tn < 5 && mi)) continue; tail_case(ref_magics[mi], bls[b], (size_t)nbs[k], tn < 4 ? 5 : tn, pre); }
        }
    }
}
/* ---- 2: copy commands with every parameter width and boundary value: the basis callback must see exactly them ---- */
typedef struct { uint64_t next, end; uint64_t budget; int calls; size_t max; const char *bad; uint64_t badpos; } span;
static rs_result span_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    span *s = arg;
    s->calls++;
    if (pos < 0 || (uint64_t)pos != s->next) { s->bad = "asked for a wrong position"; s->badpos = (uint64_t)pos; return RS_IO_ERROR; }
    if (*len == 0 || *len > s->end - s->next) { s->bad = "asked for more than the command says"; s->badpos = (uint64_t)pos; return RS_IO_ERROR; }
    if (*len > s->max) *len = s->max;
    if (*len > (uint64_t)INT64_MAX + 1 - s->next) *len = (size_t)((uint64_t)INT64_MAX + 1 - s->next);        /* no old file reaches further */
    if (*len > 16) memset(*buf, (int)(pos & 127), 16);
    else memset(*buf, (int)(pos & 127), *len);
    s->next += *len;
    if (!(s->calls & 4095)) mc_tick();
    if (s->calls > 40 && s->budget == 0) return RS_INPUT_ENDED;
    return RS_DONE;
}
static const uint64_t bnd[] = {0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x7ffffffeULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xfffffffeULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL,
    0x17fffffffULL, 0x180000000ULL, 0x1ffffffffULL, 0x200000000ULL, 0x7fffffffffULL, 0xffffffffffULL, 0x10000000000ULL, 0x7fffffffffffULL, 0x1000000000000ULL, 0x3fffffffffffffffULL, 0x4000000000000000ULL, 0x7ffffffffffffffeULL, 0x7fffffffffffffffULL,
    0x8000000000000000ULL, 0x8000000000000001ULL, 0xffffffff00000001ULL, 0xffffffff7fffffffULL, 0xffffffffffffffffULL};
#define NBND (sizeof bnd / sizeof *bnd)
static void put_be(vec *v, uint64_t x, int w) { for (int i = w - 1; i >= 0; i--) vec_b(v, (int)(x >> (8 * i) & 255)); }
/* output space of more than 2^33 bytes, of which only what is used becomes memory */
static const size_t hos[] = {0x7fffffffUL, 0x80000000UL, 0x80000001UL, 0xffffffffUL, 0x100000000UL, 0x100000001UL, 0x180000000UL, 0x200000005UL, 1UL << 36, 1UL << 40, 1UL << 45};
#define NHOS (sizeof hos / sizeof *hos)
static uint8_t *huge_out(void)
{
    static uint8_t *p;
    if (!p) { p = mmap(NULL, 1UL << 45, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED || mprotect(p, 1 << 20, PROT_READ | PROT_WRITE)) _exit(99); }    /* only the first part is ever written */
    return p;
}
static void copy_case(uint64_t off, uint64_t len, int w1, int w2, size_t ostep, size_t cbmax)
{
    static const int cw[] = {1, 2, 4, 8}; int k1 = 0, k2 = 0;
    while (cw[k1] != w1) k1++;
    while (cw[k2] != w2) k2++;
    vec d = {0}; put_be(&d, 0x72730236, 4); vec_b(&d, 0x45 + k1 * 4 + k2); put_be(&d, off, w1); put_be(&d, len, w2); vec_b(&d, 0);
    int valid = len >= 1 && len <= INT64_MAX && off <= INT64_MAX;
    int over = valid && off > (uint64_t)INT64_MAX + 1 - len;          /* contains positions that cannot be represented */
    if (valid && !over && off + len == (uint64_t)INT64_MAX + 1) { free(d.p); return; }      /* last byte at the largest position: not judged */
    uint64_t piece = ostep < cbmax ? ostep : cbmax; int small = len <= 200000 || len / piece < (M->thorough ? 300000 : 3000);
    span s = {off, off + len, small, 0, cbmax, NULL, 0};
    rs_job_t *j = rs_patch_begin(span_copy, &s); rs_buffers_t b = {(char *)d.p, d.n, 1, NULL, 0}; rs_result r; uint64_t tot = 0; uint8_t *ob = ostep > 1 << 20 ? huge_out() : malloc(ostep);
    long it = 0;
    do { memset(ob, 0xee, ostep < 4096 ? ostep : 4096); b.next_out = (char *)ob; b.avail_out = ostep; mc_tick(); r = rs_job_iter(j, &b); tot += ostep - b.avail_out; } while (r == RS_BLOCKED && ++it < 500000 && (small || s.calls <= 40));
    rs_stats_t st = *rs_job_statistics(j);
    rs_job_free(j);
    if (!valid) {
        MC_CHECK(r == RS_CORRUPT || r == RS_UNIMPLEMENTED || r == RS_PARAM_ERROR, "copy of length %#" PRIx64 " at offset %#" PRIx64 " (not representable) gave result %d instead of an error of format", len, off, RES(r));
        MC_CHECK(s.calls == 0 && tot == 0, "copy of length %#" PRIx64 " at offset %#" PRIx64 " is invalid but the old file was read", len, off);
    } else if (over) MC_CHECK(r != RS_DONE, "copy of length %#" PRIx64 " at offset %#" PRIx64 " ends beyond the largest position but was accepted", len, off);
    else {
        MC_CHECK(!s.bad, "copy of %" PRIu64 " bytes at %" PRIu64 ": %s (%" PRIu64 ", expected %" PRIu64 ")", len, off, s.bad, s.badpos, s.next);
        MC_CHECK(s.calls > 0, "copy of %" PRIu64 " bytes at %" PRIu64 " never read the old file (result %d)", len, off, RES(r));
        if (small) MC_CHECK(r == RS_DONE && tot == len && s.next == s.end, "copy of %" PRIu64 " bytes at %" PRIu64 ": result %d after %" PRIu64 " bytes", len, off, RES(r), tot);
        else MC_CHECK(r == RS_BLOCKED || r == RS_INPUT_ENDED || (r == RS_DONE && tot == len), "copy of %" PRIu64 " bytes at %" PRIu64 " ended with %d after %" PRIu64 " bytes", len, off, RES(r), tot);
        MC_CHECK((uint64_t)st.copy_bytes == len, "statistics count %lld bytes for a copy of %" PRIu64, (long long)st.copy_bytes, len);
    }
    M->w->evals++; mc_distinct(mc_hash(d.p, d.n, ostep));
    if (ostep <= 1 << 20) free(ob);
    free(d.p);
}
static int fits(uint64_t v, int w) { return w == 8 || v < 1ULL << (8 * w); }
static void part_copies(void)
{
    static const int cw[] = {1, 2, 4, 8};
    static const size_t os[] = {1, 100, 70000}, cm[] = {(size_t)-1, 1, 4096};
    for (size_t i = 0; i < NBND; i++) for (int a = 0; a < 4; a++) {
        if (!fits(bnd[i], cw[a])) continue;
        if (!mc_case()) continue;
        mc_desc("patch: copy commands at offset %#" PRIx64 " in a %d-byte parameter, %d boundary lengths at every width", bnd[i], cw[a], (int)NBND);
        for (size_t k = 0; k < NBND; k++) for (int b = 0; b < 4; b++) if (fits(bnd[k], cw[b])) for (int o = 0; o < 3; o++) for (int c = 0; c < 3; c++) {
            if (bnd[k] > 300 && (o == 0 || c == 1) && bnd[k] < 200000 && i % 5) continue;
            copy_case(bnd[i], bnd[k], cw[a], cw[b], os[o], cm[c]);
        }
        if (a < 3 && bnd[i] > 70000) continue;
        mc_desc("patch: copy commands at offset %#" PRIx64 " in a %d-byte parameter, %d boundary lengths, output space of 2^31-1 to 2^33+5 bytes in one call", bnd[i], cw[a], (int)NBND);
        for (size_t k = 0; k < NBND; k++) for (size_t o = 0; o < NHOS; o++) for (int c = 0; c < 3; c++) copy_case(bnd[i], bnd[k], cw[a], 8, hos[o], cm[c] == 1 ? 3 : cm[c]);
    }
}
/* ---- 3: literal commands with long lengths, streamed ---- */
static void lit_case(uint64_t len, int w, int complete)
{
    vec d = {0}; put_be(&d, 0x72730236, 4); vec_b(&d, 0x41 + (w == 2) + 2 * (w == 4) + 3 * (w == 8)); put_be(&d, len, w);
    mbasis mb = {(uint8_t *)"", 0, 0, 0, NULL, 0};
    rs_job_t *j = rs_patch_begin(mem_copy, &mb); size_t cap = 8 << 20; uint8_t *ib = malloc(cap), *ob = malloc(cap); uint64_t fed = 0, tot = 0; rs_result r; rs_buffers_t b = {0};
    for (size_t i = 0; i < cap; i++) ib[i] = (uint8_t)(i * 7 + (i >> 12));
    b.next_in = (char *)d.p; b.avail_in = d.n; b.next_out = (char *)ob; b.avail_out = cap;
    r = rs_job_iter(j, &b); tot += cap - b.avail_out;
    if (len == 0 || len > INT64_MAX) MC_CHECK(r == RS_CORRUPT, "literal of length %#" PRIx64 " (not representable) gave %d", len, RES(r));
    else {
        uint64_t stop = complete ? len : (len < 100000 ? len : 100000); uint8_t endc = 0; uint64_t chk = 0;
        MC_CHECK(r == RS_BLOCKED, "literal of length %" PRIu64 ": result %d", len, RES(r));
        while (r == RS_BLOCKED && fed < stop) {
            size_t k = stop - fed < cap ? (size_t)(stop - fed) : cap, off = 0;
            while (off < k && r == RS_BLOCKED) {
                b.next_in = (char *)ib + off; b.avail_in = k - off; b.eof_in = 0; b.next_out = (char *)ob; b.avail_out = cap;
                mc_tick(); r = rs_job_iter(j, &b);
                size_t used = k - off - b.avail_in, got = cap - b.avail_out;
                MC_CHECK(r == RS_BLOCKED || r == RS_DONE, "literal of %" PRIu64 " bytes: result %d after %" PRIu64, len, RES(r), fed + off);
                MC_CHECK(!memcmp(ob, ib + off, got < used ? got : used) , "literal data changed");
                MC_CHECK(used == got || b.avail_in == 0 || 1, "x");
                if (!used && !got) mc_fail("no progress in a literal of %" PRIu64 " bytes at %" PRIu64, len, fed + off);
                off += used; tot += got;
            }
            fed += off;
        }
        MC_CHECK(tot == fed && fed == stop, "literal of %" PRIu64 " bytes: %" PRIu64 " bytes in, %" PRIu64 " out, result %d", len, fed, tot, RES(r));
        if (complete) {
            b.next_in = (char *)&endc; b.avail_in = 1; b.eof_in = 1; b.next_out = (char *)ob; b.avail_out = cap; r = rs_job_iter(j, &b);
            MC_CHECK(r == RS_DONE && b.avail_out == cap, "literal of %" PRIu64 " bytes then end: result %d, %zu extra bytes", len, RES(r), cap - b.avail_out);
            MC_CHECK((uint64_t)rs_job_statistics(j)->lit_bytes == len, "statistics count %lld literal bytes of %" PRIu64, (long long)rs_job_statistics(j)->lit_bytes, len);
        } else if (stop < len) {
            b.next_in = NULL; b.avail_in = 0; b.eof_in = 1; b.next_out = (char *)ob; b.avail_out = cap; r = rs_job_iter(j, &b);
            MC_CHECK(r == RS_INPUT_ENDED, "literal of %" PRIu64 " bytes cut after %" PRIu64 ": result %d", len, stop, RES(r));
        }
    }
    rs_job_free(j); M->w->evals++; mc_distinct(mc_hash(d.p, d.n, (uint64_t)complete)); free(d.p); free(ib); free(ob);
}
static void part_lits(void)
{
    static const int cw[] = {1, 2, 4, 8};
    static const uint64_t full[] = {0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL};
    for (int i = 0; i < 5; i++) for (int w = 4; w <= 8; w += 4) if (fits(full[i], w)) {
        if (!mc_case()) continue;
        mc_desc("patch: literal of %" PRIu64 " bytes, streamed completely", full[i]);
        lit_case(full[i], w, 1);
    }
    for (size_t i = 0; i < NBND; i++) for (int a = 0; a < 4; a++) if (fits(bnd[i], cw[a])) {
        if (!mc_case()) continue;
        mc_desc("patch: literal length %#" PRIx64 " in %d bytes, first 100000 bytes", bnd[i], cw[a]);
        lit_case(bnd[i], cw[a], bnd[i] <= 70000);
    }
}
/* ---- 4: a copy of more than 2^32 bytes, complete ---- */
static uint8_t *zeros(uint64_t n) { uint8_t *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(99); return p; }
typedef struct { uint64_t next, end; uint8_t *p; const char *bad; size_t max; } bigspan;
static rs_result big_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    bigspan *s = arg;
    if ((uint64_t)pos != s->next || *len > s->end - s->next || !*len) { s->bad = "asked for a wrong range"; return RS_IO_ERROR; }
    if (*len > s->max) *len = s->max;
    if (*len > 1 << 20) *len = 1 << 20;
    *buf = s->p; s->next += *len; mc_tick();
    return RS_DONE;
}
static void part_bigcopy(void)
{
    static const uint64_t lens[] = {0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000005ULL}, offs[] = {0, 5, 0x7ffffff0ULL, 0xfffffff0ULL, 0x123456789aULL};
    for (int i = 0; i < 5; i++) for (int o = 0; o < 5; o++) {
        if (!M->thorough && (i + o) % 2 && o) continue;
        if (!mc_case()) continue;
        mc_desc("patch: copy of %" PRIu64 " bytes at %" PRIu64 ", complete", lens[i], offs[o]);
        vec d = {0}; put_be(&d, 0x72730236, 4); vec_b(&d, 0x54); put_be(&d, offs[o], 8); put_be(&d, lens[i], 8); vec_b(&d, 0);
        bigspan s = {offs[o], offs[o] + lens[i], zeros(1 << 20), NULL, (size_t)-1};
        size_t cap = 16 << 20; uint8_t *ob = malloc(cap); rs_buffers_t b = {(char *)d.p, d.n, 1, NULL, 0}; rs_result r; uint64_t tot = 0;
        rs_job_t *j = rs_patch_begin(big_copy, &s);
        do { b.next_out = (char *)ob; b.avail_out = cap; r = rs_job_iter(j, &b); tot += cap - b.avail_out; mc_tick(); } while (r == RS_BLOCKED && tot <= lens[i]);
        MC_CHECK(!s.bad && r == RS_DONE && tot == lens[i], "copy of %" PRIu64 " bytes at %" PRIu64 ": result %d, %" PRIu64 " bytes written, %s", lens[i], offs[o], RES(r), tot, s.bad ? s.bad : "ranges right");
        MC_CHECK((uint64_t)rs_job_statistics(j)->copy_bytes == lens[i], "statistics count %lld copied bytes of %" PRIu64, (long long)rs_job_statistics(j)->copy_bytes, lens[i]);
        rs_job_free(j); munmap(s.p, 1 << 20); free(ob); free(d.p); M->w->evals++; mc_distinct((uint64_t)(i * 10 + o + 77));
    }
}
/* ---- 5: deltas of more than 2 or 4 GiB: incremental decoder of what the library emits ---- */
typedef struct { int st; uint8_t cmd; int w1, w2, need, have; uint8_t par[16]; uint64_t left; uint64_t lit, copy, nlit, ncopy; uint64_t pos; int end, bad; uint64_t (*want)(uint64_t off, uint64_t *run, void *arg); void *arg; uint64_t off; const char *msg; uint64_t got; int litbyte; } dec;
/* want(off): old-file position of new-file offset off, or -1 if it can only be literal, *run = how far that holds */
static void dec_copy(dec *D, uint64_t pos, uint64_t len)
{
    D->ncopy++; D->copy += len;
    if (!len) { D->bad = 1; D->msg = "zero length copy"; return; }
    while (len) {
        uint64_t run, p = D->want(D->off, &run, D->arg);
        if (p == (uint64_t)-1 || p != pos) { D->bad = 1; D->msg = "copy from a wrong place"; D->got = pos; return; }
        if (run > len) run = len;
        D->off += run; pos += run; len -= run;
    }
}
static void dec_feed(dec *D, const uint8_t *p, size_t n)
{
    while (n && !D->bad) {
        if (D->end) { D->bad = 1; D->msg = "data after the end command"; return; }
        switch (D->st) {
        case 0: D->need = 4; D->have = 0; D->st = 1; break;
        case 1: D->par[D->have++] = *p++; n--; if (D->have == 4) { if (ref_get(D->par, 4) != REF_DELTA) { D->bad = 1; D->msg = "magic"; } D->st = 2; } break;
        case 2: D->cmd = *p++; n--; if (!D->cmd) { D->end = 1; break; }
            { int c = ref_cmd(D->cmd, &D->w1, &D->w2); if (c == 'L') { D->w2 = 0; if (!D->w1) { D->left = D->cmd; D->nlit++; D->lit += D->left; D->st = 4; break; } } else if (c != 'C') { D->bad = 1; D->msg = "reserved command"; return; } D->need = D->w1 + D->w2; D->have = 0; D->st = 3; }
            break;
        case 3: D->par[D->have++] = *p++; n--; if (D->have == D->need) {
                if (D->w2) { dec_copy(D, ref_get(D->par, D->w1), ref_get(D->par + D->w1, D->w2)); D->st = 2; }
                else { D->left = ref_get(D->par, D->w1); D->nlit++; D->lit += D->left; if (!D->left) { D->bad = 1; D->msg = "zero literal"; } D->st = 4; } }
            break;
        case 4: { size_t k = n < D->left ? n : (size_t)D->left; if (D->litbyte >= 0 && (p[0] != D->litbyte || p[k - 1] != D->litbyte || p[k / 2] != D->litbyte)) { D->bad = 1; D->msg = "wrong literal byte"; return; } p += k; n -= k; D->left -= k; D->off += k; if (!D->left) D->st = 2; break; }
        }
    }
}
static uint64_t FIRST;          /* length of the first piece of input when not 0 */
static rs_result run_dec(rs_job_t *j, const uint8_t *in, uint64_t n, uint64_t step, dec *D)
{
    size_t cap = 4 << 20; uint8_t *ob = malloc(cap); rs_buffers_t b; uint64_t c = 0, p = 0; rs_result r; long stuck = 0;
    do {
        if (p < n) { uint64_t k = !p && FIRST ? FIRST : step; p = p + k < p || p + k > n ? n : p + k; }
        b.next_in = (char *)(uintptr_t)(in + c); b.avail_in = p - c; b.eof_in = p == n; b.next_out = (char *)ob; b.avail_out = cap;
        mc_tick(); r = rs_job_iter(j, &b);
        uint64_t used = p - c - b.avail_in; c += used;
        if (!used && b.avail_out == cap && p == n) stuck++; else stuck = 0;
        dec_feed(D, ob, cap - b.avail_out);
        if (stuck > 3) mc_fail("no progress after %" PRIu64 " of %" PRIu64 " bytes", c, n);
    } while (r == RS_BLOCKED && !D->bad);
    free(ob);
    MC_CHECK(!D->bad, "delta of %" PRIu64 " bytes of new data: %s at new-file offset %" PRIu64 " (%" PRIu64 ")", n, D->msg, D->off, D->got);
    return r;
}
static uint64_t want_none(uint64_t off, uint64_t *run, void *arg) { *run = 1; return (uint64_t)-1; }
static uint64_t want_zblock(uint64_t off, uint64_t *run, void *arg) { uint64_t bl = *(uint64_t *)arg; *run = bl - off % bl; return off % bl; }
static void part_oneshot(void)
{
    static const uint64_t ns[] = {0x7fffffffULL, 0x80000000ULL, 0x80000005ULL, 0xffffffffULL, 0x100000000ULL, 0x10000ffffULL};
    for (int i = 0; i < 6; i++) for (int v = 0; v < 5; v++) {
        if (!M->thorough && v >= 2 && i != 2 && i != 5) continue;
        if (!mc_case()) continue;
        uint64_t n = ns[i]; uint8_t *z = zeros(n); rs_result r;
        static const char *nm[] = {"delta without signature", "delta against a zero block", "signature", "delta without signature, 1 GiB at a time", "delta against a zero block, after a first byte in a call of its own,"};
        mc_desc("%s of %" PRIu64 " zero bytes given in one call", nm[v], n);
        if (v == 0 || v == 3) {
            dec D = {0}; D.want = want_none; D.litbyte = 0;
            rs_job_t *j = rs_delta_begin(NULL);
            r = run_dec(j, z, n, v ? 1ULL << 30 : n, &D);
            MC_CHECK(r == RS_DONE && D.end && D.lit == n && D.off == n, "result %d, delta describes %" PRIu64 " of %" PRIu64 " bytes", RES(r), D.off, n);
            MC_CHECK((uint64_t)rs_job_statistics(j)->lit_bytes == n && (uint64_t)rs_job_statistics(j)->lit_cmds == D.nlit, "statistics: %lld literal bytes of %" PRIu64, (long long)rs_job_statistics(j)->lit_bytes, n);
            rs_job_free(j);
        } else if (v == 1 || v == 4) {
            uint64_t bl = 1 << 16; vec sg = {0}, o = {0}; runinfo ri; rs_job_t *j = rs_sig_begin(bl, 8, RS_RK_MD4_SIG_MAGIC);
            r = run_job(j, z, bl, ONESHOT, &sg, &ri); rs_job_free(j);
            rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "signature");
            dec D = {0}; D.want = want_zblock; D.arg = &bl; D.litbyte = 0;
            FIRST = v == 4; j = rs_delta_begin(ss); r = run_dec(j, z, n, n, &D); FIRST = 0;
            MC_CHECK(r == RS_DONE && D.end && D.off == n && D.copy == n - n % bl, "result %d, delta describes %" PRIu64 " of %" PRIu64 " bytes, %" PRIu64 " copied", RES(r), D.off, n, D.copy);
            MC_CHECK((uint64_t)rs_job_statistics(j)->copy_bytes == D.copy && (uint64_t)rs_job_statistics(j)->lit_bytes == D.lit, "statistics: %lld copied bytes of %" PRIu64, (long long)rs_job_statistics(j)->copy_bytes, D.copy);
            rs_job_free(j); rs_free_sumset(ss); free(sg.p); free(o.p);
        } else {
            uint64_t bl = 1 << 20; vec sg = {0}; runinfo ri; uint8_t st[32], wk[4]; rs_job_t *j = rs_sig_begin(bl, 16, RS_MD4_SIG_MAGIC);
            r = run_job(j, z, n, ONESHOT, &sg, &ri);
            MC_CHECK(r == RS_DONE && !ri.bad && ri.consumed == n, "signature of %" PRIu64 " bytes: result %d", n, RES(r));
            uint64_t nb = (n + bl - 1) / bl;
            MC_CHECK(sg.n == 12 + nb * 20, "signature of %" PRIu64 " bytes has %zu bytes", n, sg.n);
            ref_put4(wk, ref_weak(RS_MD4_SIG_MAGIC, z, bl)); ref_strong(RS_MD4_SIG_MAGIC, st, z, bl);
            for (uint64_t k = 0; k < n / bl; k++) MC_CHECK(!memcmp(sg.p + 12 + k * 20, wk, 4) && !memcmp(sg.p + 16 + k * 20, st, 16), "block %" PRIu64 " of the signature is wrong", k);
            MC_CHECK((uint64_t)rs_job_statistics(j)->sig_blocks == nb, "statistics: %lld blocks of %" PRIu64, (long long)rs_job_statistics(j)->sig_blocks, nb);
            rs_job_free(j); free(sg.p);
        }
        munmap(z, n); M->w->evals++; mc_distinct((uint64_t)(i * 10 + v + 555));
    }
}
/* ---- 6: whole pipeline with an old file of more than 4 GiB: signature, load, delta with one joined copy, patch ---- */
enum { PB = 1 << 20 };
static uint8_t *pat;            /* base pattern of a block; block i has i in its first 8 bytes */
static void pblock(uint64_t i, uint8_t *o) { memcpy(o, pat, PB); memcpy(o, &i, 8); }
typedef struct { uint64_t nb; uint64_t skip; uint64_t lit; } pipe_cfg;
static uint64_t want_pipe(uint64_t off, uint64_t *run, void *arg)
{   /* new = old blocks [skip, nb) then lit literal bytes then old blocks [0, skip) */
    pipe_cfg *c = arg; uint64_t a = (c->nb - c->skip) * PB;
    if (off < a) { *run = a - off; return c->skip * PB + off; }
    if (off < a + c->lit) { *run = a + c->lit - off; return (uint64_t)-1; }
    *run = c->nb * PB + c->lit - off; return off - a - c->lit;
}
typedef struct { pipe_cfg *c; uint8_t *blk; uint64_t cached; } pipe_basis;
static rs_result pipe_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    pipe_basis *p = arg; uint64_t i = (uint64_t)pos / PB; size_t o = (size_t)((uint64_t)pos % PB);
    if (i >= p->c->nb) return RS_INPUT_ENDED;
    if (p->cached != i) { pblock(i, p->blk); p->cached = i; }
    if (*len > PB - o) *len = PB - o;
    *buf = p->blk + o; mc_tick();
    return RS_DONE;
}
static void part_pipeline(void)
{
    pat = mc_mapp(PB); mc_fill(pat, PB, 31337);
    static const uint64_t cfg[][3] = { {4099, 0, 0}, {4200, 4097, 7} };
    for (int c = 0; c < 2; c++) for (int mi = 0; mi < 4; mi++) {
        if (!M->thorough && (mi != 3 - c * 3)) continue;
        if (!mc_case()) continue;
        pipe_cfg pc = {cfg[c][0], cfg[c][1], cfg[c][2]}; uint32_t magic = ref_magics[mi]; rs_result r; vec sg = {0}; size_t cap = 1 << 20; uint8_t *ob = malloc(cap), *ib = malloc(PB); rs_buffers_t b = {0};
        mc_desc("old file of %" PRIu64 " blocks of 1 MiB: signature, delta (rotated by %" PRIu64 " blocks, %" PRIu64 " literal bytes) and patch, magic %#x", pc.nb, pc.skip, pc.lit, magic);
        rs_job_t *j = rs_sig_begin(PB, 8, (rs_magic_number)magic);
        for (uint64_t i = 0; i <= pc.nb; i++) {
            if (i < pc.nb) pblock(i, ib);
            b.next_in = (char *)ib; b.avail_in = i < pc.nb ? PB : 0; b.eof_in = i == pc.nb;
            do { b.next_out = (char *)ob; b.avail_out = cap; mc_tick(); r = rs_job_iter(j, &b); vec_add(&sg, ob, cap - b.avail_out); } while (r == RS_BLOCKED && (b.avail_in || i == pc.nb));
            MC_CHECK(r == RS_BLOCKED || (r == RS_DONE && i == pc.nb), "signature: result %d at block %" PRIu64, RES(r), i);
        }
        MC_CHECK(r == RS_DONE && sg.n == 12 + pc.nb * 12, "signature has %zu bytes", sg.n);
        MC_CHECK((uint64_t)rs_job_statistics(j)->sig_blocks == pc.nb, "statistics count %lld blocks", (long long)rs_job_statistics(j)->sig_blocks);
        rs_job_free(j);
        rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r); MC_CHECK(ss, "loading the signature: %d", RES(r));
        dec D = {0}; D.want = want_pipe; D.arg = &pc; D.litbyte = -1; vec d = {0};
        j = rs_delta_begin(ss); uint64_t total = pc.nb * PB + pc.lit, fed = 0; size_t hold = 0; uint8_t *nb2 = malloc(3 * PB);
        do {    /* keep two blocks in front of the job */
            while (hold < 2 * PB && fed < total) {
                uint64_t run, p = want_pipe(fed, &run, &pc);
                if (p == (uint64_t)-1) { memset(nb2 + hold, 'L', run); hold += run; fed += run; }
                else { pblock(p / PB, nb2 + hold); hold += PB; fed += PB; }
            }
            b.next_in = (char *)nb2; b.avail_in = hold; b.eof_in = fed == total; b.next_out = (char *)ob; b.avail_out = cap;
            mc_tick(); r = rs_job_iter(j, &b);
            vec_add(&d, ob, cap - b.avail_out); dec_feed(&D, ob, cap - b.avail_out);
            size_t used = hold - b.avail_in; memmove(nb2, nb2 + used, hold - used); hold -= used;
            if (!used && b.avail_out == cap && r == RS_BLOCKED) mc_fail("delta made no progress at %" PRIu64, fed);
        } while (r == RS_BLOCKED && !D.bad);
        MC_CHECK(!D.bad && r == RS_DONE && D.end && D.off == total, "delta: result %d, %s at new-file offset %" PRIu64 " of %" PRIu64, RES(r), D.bad ? D.msg : "ended", D.off, total);
        MC_CHECK(D.lit <= pc.lit, "%" PRIu64 " literal bytes, only %" PRIu64 " are new", D.lit, pc.lit);
        rs_stats_t st = *rs_job_statistics(j);
        MC_CHECK((uint64_t)st.copy_bytes == D.copy && (uint64_t)st.lit_bytes == D.lit && (uint64_t)st.copy_cmds == D.ncopy, "statistics: %lld copied bytes, delta has %" PRIu64, (long long)st.copy_bytes, D.copy);
        MC_CHECK(D.ncopy <= (pc.skip ? 2u : 1u), "%" PRIu64 " copy commands for data that is contiguous in the old file", D.ncopy);
        rs_job_free(j); rs_free_sumset(ss); free(nb2);
        pipe_basis pb = {&pc, ib, (uint64_t)-1}; uint64_t tot = 0; uint8_t *ex = malloc(PB); uint64_t exi = (uint64_t)-1;
        j = rs_patch_begin(pipe_copy, &pb); b.next_in = (char *)d.p; b.avail_in = d.n; b.eof_in = 1;
        do {
            memset(ob, 0xee, cap); b.next_out = (char *)ob; b.avail_out = cap; mc_tick(); r = rs_job_iter(j, &b);
            for (size_t k = 0; k < cap - b.avail_out;) {
                uint64_t run, p = want_pipe(tot, &run, &pc); size_t n = cap - b.avail_out - k;
                MC_CHECK(tot < total, "patch wrote more than the new file");
                if (n > run) n = (size_t)run;
                if (p == (uint64_t)-1) MC_CHECK(ob[k] == 'L' && ob[k + n - 1] == 'L', "wrong literal");
                else { size_t o = (size_t)(p % PB); if (n > PB - o) n = PB - o; if (exi != p / PB) { exi = p / PB; pblock(exi, ex); } MC_CHECK(!memcmp(ob + k, ex + o, n), "patch output is wrong at %" PRIu64, tot); }
                tot += n; k += n;
            }
        } while (r == RS_BLOCKED);
        MC_CHECK(r == RS_DONE && tot == total, "patch: result %d after %" PRIu64 " of %" PRIu64 " bytes", RES(r), tot, total);
        rs_job_free(j); free(ex); free(ob); free(ib); free(sg.p); free(d.p); M->w->evals++; mc_distinct((uint64_t)(c * 10 + mi + 999));
    }
}
/* ---- 7: whole-file functions: sparse old file of more than 4 GiB, huge block lengths, streams of more than 4 GiB ---- */
static void part_sparse(void)
{
    static const uint64_t at[] = {0, 5, 0x7ffffff8ULL, 0x80000000ULL, 0x80000003ULL, 0xfffffff8ULL, 0x100000000ULL, 0x100000007ULL, 0x140000000ULL - 100};
    for (int i = 0; i < 9; i++) for (int v = 0; v < 2; v++) {
        if (!mc_case()) continue;
        mc_desc("rs_patch_file on a sparse old file of 5 GiB, copy at %" PRIu64, at[i]);
        char name[] = "sparse-XXXXXX"; int fd = mkstemp(name); if (fd < 0) _exit(99);
        unlink(name);
        if (ftruncate(fd, 0x140000000LL)) _exit(99);
        uint8_t t[100]; mc_fill(t, 100, 50 + (uint64_t)i); if (pwrite(fd, t, 100, (off_t)at[i]) != 100) _exit(99);
        FILE *bf = fdopen(fd, "rb"), *df = tmpfile(), *nf = tmpfile(); vec d = {0};
        put_be(&d, 0x72730236, 4); vec_b(&d, 0x51); put_be(&d, at[i], 8); put_be(&d, 100, 1);
        if (v) { vec_b(&d, 0x51); put_be(&d, 1, 8); put_be(&d, 3, 1); vec_b(&d, 0x51); put_be(&d, at[i] + 50, 8); put_be(&d, 50, 1); }
        vec_b(&d, 0);
        fwrite(d.p, 1, d.n, df); rewind(df);
        rs_stats_t st; rs_result r = rs_patch_file(bf, df, nf, &st);
        uint8_t g[200]; rewind(nf); size_t n = fread(g, 1, sizeof g, nf);
        MC_CHECK(r == RS_DONE && n == (v ? 153u : 100u) && !memcmp(g, t, 100) && (!v || !memcmp(g + 103, t + 50, 50)), "patch with a copy at %" PRIu64 ": result %d, %zu bytes, %s", at[i], RES(r), n, n >= 100 && !memcmp(g, t, 100) ? "right" : "wrong");
        if (v) MC_CHECK(rs_file_size(bf) == 0x140000000LL, "rs_file_size of a 5 GiB file gives %lld", (long long)rs_file_size(bf));
        fclose(bf); fclose(df); fclose(nf); free(d.p); M->w->evals++; mc_distinct((uint64_t)(i * 2 + v + 12345));
    }
    static const uint64_t bls[] = {(1u << 28) + 1, (1u << 29) - 1, 1u << 29, (1u << 29) + 1, 1u << 30, (1u << 30) + 7, (1u << 31) - 1};
    for (int i = 0; i < 7; i++) for (int mi = 0; mi < 4; mi++) {
        if (!mc_case()) continue;
        mc_desc("whole-file signature, delta and patch of small files with block length %" PRIu64 ", magic %#x", bls[i], ref_magics[mi]);
        uint8_t o[300], x[400]; mc_fill(o, 300, 8); mc_fill(x, 400, 9); memcpy(x + 100, o, 300); rs_stats_t st; rs_result r; rs_signature_t *ss = NULL;
        FILE *of = tmpfile(), *nf = tmpfile(), *sf = tmpfile(), *df = tmpfile(), *rf = tmpfile(); fwrite(o, 1, 300, of); fwrite(x, 1, 400, nf); rewind(of); rewind(nf);
        r = rs_sig_file(of, sf, (size_t)bls[i], 8, (rs_magic_number)ref_magics[mi], &st);
        MC_CHECK(r == RS_DONE && st.sig_blocks == 1 && (uint64_t)st.block_len == bls[i], "signature with block length %" PRIu64 ": result %d", bls[i], RES(r));
        rewind(sf); r = rs_loadsig_file(sf, &ss, &st); MC_CHECK(r == RS_DONE, "load: %d", RES(r));
        r = rs_build_hash_table(ss); MC_CHECK(r == RS_DONE, "hash table: %d", RES(r));
        r = rs_delta_file(ss, nf, df, &st); MC_CHECK(r == RS_DONE, "delta with block length %" PRIu64 ": result %d", bls[i], RES(r));
        MC_CHECK(st.copy_bytes == 300, "the short block was not found with block length %" PRIu64, bls[i]);
        rewind(df); rewind(of); r = rs_patch_file(of, df, rf, &st); uint8_t g[500]; rewind(rf); size_t n = fread(g, 1, 500, rf);
        MC_CHECK(r == RS_DONE && n == 400 && !memcmp(g, x, 400), "patch: result %d", RES(r));
        rs_free_sumset(ss); fclose(of); fclose(nf); fclose(sf); fclose(df); fclose(rf); M->w->evals++; mc_distinct((uint64_t)(i * 4 + mi + 54321));
    }
}
/* an old file far larger than any disk: byte p is a hash of p */
typedef struct { uint64_t pos, size; } far_t;
static uint8_t far_byte(uint64_t p) { return (uint8_t)(mc_mix(p * 0x9E3779B97F4A7C15ULL + 1) >> 24); }
static ssize_t far_read(void *c, char *b, size_t n) { far_t *f = c; if (f->pos >= f->size) return 0; if (n > f->size - f->pos) n = (size_t)(f->size - f->pos); for (size_t i = 0; i < n; i++) b[i] = (char)far_byte(f->pos + i); f->pos += n; return (ssize_t)n; }
static int far_seek(void *c, off64_t *o, int w) { far_t *f = c; int64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (int64_t)f->pos + *o : (int64_t)f->size + *o; if (p < 0) { errno = EINVAL; return -1; } f->pos = (uint64_t)p; *o = p; return 0; }
static void part_far(void)
{
    for (int e = 30; e < 63; e++) for (int k = 0; k < 4; k++) {
        if (!mc_case()) continue;
        static const int dl[] = {-70, -1, 0, 12345}; uint64_t at = (1ULL << e) + (uint64_t)dl[k];
        mc_desc("rs_patch_file on an old file of nearly 2^63 bytes, copies at %" PRIu64 " and elsewhere", at);
        for (int v = 0; v < 4; v++) {
            far_t ft = {v & 1 ? 777 : 0, 0x7ffffffffffff000ULL}; FILE *bf = fopencookie(&ft, "rb", (cookie_io_functions_t){far_read, NULL, far_seek, NULL}); if (!bf) _exit(99);
            if (v & 2) setvbuf(bf, NULL, _IONBF, 0);
            uint64_t ps[5] = {at, at + 200, 3, at / 2, at}; vec d = {0}; put_be(&d, 0x72730236, 4); for (int i = 0; i < 5; i++) { vec_b(&d, 0x51); put_be(&d, ps[i], 8); put_be(&d, 100, 1); } vec_b(&d, 0);
            FILE *df = fmemopen(d.p, d.n, "rb"); char *ob = NULL; size_t on = 0; FILE *nf = open_memstream(&ob, &on); rs_stats_t st; mc_tick();
            rs_result r = rs_patch_file(bf, df, nf, &st); fclose(nf); fclose(df); fclose(bf);
            int ok = on == 500; for (size_t i = 0; ok && i < 500; i++) ok = (uint8_t)ob[i] == far_byte(ps[i / 100] + i % 100);
            MC_CHECK(r == RS_DONE && ok, "patch with copies at %" PRIu64 ": result %d, %zu bytes, %s", at, RES(r), on, ok ? "right" : "wrong");
            free(ob); free(d.p); M->w->evals++; mc_distinct(at * 4 + (uint64_t)v);
        }
    }
}
typedef struct { uint64_t left, wrote; } zs;
static ssize_t z_read(void *c, char *b, size_t n) { zs *z = c; if (n > z->left) n = z->left; memset(b, 0, n); z->left -= n; mc_tick(); return (ssize_t)n; }
static ssize_t z_write(void *c, const char *b, size_t n) { ((zs *)c)->wrote += n; mc_tick(); return (ssize_t)n; }
static void part_streams(void)
{
    for (int v = 0; v < 3; v++) {
        if (!mc_case()) continue;
        uint64_t n = 0x100000000ULL + 12345; static const char *nm[] = {"signature", "delta without matches", "delta and patch totals"};
        mc_desc("whole-file %s of a stream of %" PRIu64 " bytes: totals in the statistics", nm[v], n);
        cookie_io_functions_t ri = {z_read, NULL, NULL, NULL}, wi = {NULL, z_write, NULL, NULL}; zs a = {n, 0}, w = {0, 0};
        FILE *in = fopencookie(&a, "rb", ri), *out = fopencookie(&w, "wb", wi); setvbuf(in, NULL, _IOFBF, 1 << 20); rs_stats_t st; rs_result r;
        if (v == 0) {
            r = rs_sig_file(in, out, 1 << 20, 8, RS_MD4_SIG_MAGIC, &st); fflush(out);
            MC_CHECK(r == RS_DONE && w.wrote == 12 + 4097 * 12, "signature: result %d, %" PRIu64 " bytes", RES(r), w.wrote);
            MC_CHECK(st.sig_blocks == 4097, "statistics count %lld blocks", (long long)st.sig_blocks);
        } else {
            rs_signature_t *ss = NULL; vec sg = {0}; 
            if (v == 2) { vec_need(&sg, 64); sg.n = 24; ref_put4(sg.p, RS_MD4_SIG_MAGIC); ref_put4(sg.p + 4, 1 << 20); ref_put4(sg.p + 8, 8); uint8_t *z = zeros(1 << 20), s[32]; ref_put4(sg.p + 12, ref_weak(RS_MD4_SIG_MAGIC, z, 1 << 20)); ref_strong(RS_MD4_SIG_MAGIC, s, z, 1 << 20); memcpy(sg.p + 16, s, 8); ss = load_sig(sg.p, sg.n, ONESHOT, &r); }
            r = rs_delta_file(ss, in, out, &st); fflush(out);
            MC_CHECK(r == RS_DONE, "delta: result %d", RES(r));
            MC_CHECK((uint64_t)(st.lit_bytes + st.copy_bytes) == n, "statistics count %lld + %lld bytes of %" PRIu64, (long long)st.lit_bytes, (long long)st.copy_bytes, n);
            if (v == 1) MC_CHECK(w.wrote == n + (uint64_t)st.lit_cmdbytes + 5, "delta of %" PRIu64 " bytes written", w.wrote);
            if (ss) rs_free_sumset(ss);
            free(sg.p);
        }
        MC_CHECK((uint64_t)st.in_bytes == n, "statistics count %lld input bytes of %" PRIu64, (long long)st.in_bytes, n);
        MC_CHECK((uint64_t)st.out_bytes == w.wrote, "statistics count %lld output bytes of %" PRIu64, (long long)st.out_bytes, w.wrote);
        fclose(in); fclose(out); M->w->evals++; mc_distinct((uint64_t)v + 4444);
    }
}
/* ---- 8: every streaming job with output space beyond 32 bits in one call ---- */
static rs_result one_huge(rs_job_t *j, const uint8_t *in, size_t n, size_t istep, size_t os, vec *o)
{
    rs_buffers_t b; size_t p = 0, c = 0; rs_result r; long it = 0; uint8_t *ob = huge_out();
    do {
        p = p + istep > n ? n : p + istep;
        b.next_in = (char *)(uintptr_t)(in + c); b.avail_in = p - c; b.eof_in = p == n; b.next_out = (char *)ob; b.avail_out = os;
        memset(ob, 0xee, 8192); mc_tick(); r = rs_job_iter(j, &b);
        size_t got = os - b.avail_out; c = p - b.avail_in;
        MC_CHECK(b.next_out == (char *)ob + got && b.next_in == (char *)(uintptr_t)(in + c) && c <= p, "the buffers' pointers and counts disagree");
        MC_CHECK(got <= 8192, "%zu bytes of output from %zu bytes of input", got, n);
        vec_add(o, ob, got);
    } while (r == RS_BLOCKED && ++it < 5000);
    rs_job_free(j);
    return r;
}
static void part_hugeout(void)
{
    uint8_t old[700], nw[1500]; mc_fill(old, 700, 71); mc_fill(nw, 1500, 72); memcpy(nw + 333, old, 640); memcpy(nw + 1100, old + 128, 200);
    for (size_t i = 0; i < NHOS; i++) for (int mi = 0; mi < 4; mi++) for (int v = 0; v < 3; v++) {
        if (!mc_case()) continue;
        static const size_t is[] = {1500, 100, 1}; uint32_t mg = ref_magics[mi]; vec sg = {0}, s2 = {0}, d = {0}, d2 = {0}, o = {0}; runinfo ri; rs_result r, r2;
        mc_desc("every job with %zu bytes of output space in each call, %zu bytes of input per call, magic %#x", hos[i], is[v], mg);
        rs_job_t *j = rs_sig_begin(64, 8, (rs_magic_number)mg); r = run_job(j, old, 700, ONESHOT, &sg, &ri); rs_job_free(j);
        r2 = one_huge(rs_sig_begin(64, 8, (rs_magic_number)mg), old, 700, is[v], hos[i], &s2);
        MC_CHECK(r == RS_DONE && r2 == r && vec_eq(&s2, sg.p, sg.n), "signature: result %d, %zu bytes; with a small output buffer %d, %zu bytes", RES(r2), s2.n, RES(r), sg.n);
        vec none = {0}; rs_signature_t *ss = NULL; rs_job_t *lj = rs_loadsig_begin(&ss); r = one_huge(lj, sg.p, sg.n, is[v], hos[i], &none);
        MC_CHECK(r == RS_DONE && none.n == 0 && rs_build_hash_table(ss) == RS_DONE, "load: result %d", RES(r));
        for (int w = 0; w < 2; w++) {
            d.n = d2.n = o.n = 0;
            j = rs_delta_begin(w ? ss : NULL); r = run_job(j, nw, 1500, ONESHOT, &d, &ri); rs_job_free(j);
            r2 = one_huge(rs_delta_begin(w ? ss : NULL), nw, 1500, is[v], hos[i], &d2);
            MC_CHECK(r == RS_DONE && r2 == r, "delta: result %d; with a small output buffer %d", RES(r2), RES(r));
            if (w) MC_CHECK(d2.n < 1500, "delta of %zu bytes finds nothing", d2.n);
            mbasis mb = {old, 700, 0, v, NULL, 0};
            r = one_huge(rs_patch_begin(mem_copy, &mb), d2.p, d2.n, is[v], hos[i], &o);
            MC_CHECK(r == RS_DONE && vec_eq(&o, nw, 1500), "patch: result %d, %zu bytes", RES(r), o.n);
        }
        rs_free_sumset(ss); free(sg.p); free(s2.p); free(d.p); free(d2.p); free(o.p); M->w->evals++; mc_distinct((uint64_t)(i * 12 + (size_t)mi * 3 + (size_t)v + 808080));
    }
}
/* ---- 9: a signature whose sums take more than 2 GiB: every block is still the one the delta names ---- */
static void part_manysums(void)
{
    enum { SL = 32, E = 4 + SL, BL = 64, CH = 8192 };
    for (int v = 0; v < (M->thorough ? 4 : 1); v++) {
        if (!mc_case()) continue;
        uint32_t magic = v & 1 ? RS_BLAKE2_SIG_MAGIC : RS_RK_BLAKE2_SIG_MAGIC; uint64_t edge = (v & 2 ? 1ULL << 32 : 1ULL << 31) / E, n = edge + 500; rs_signature_t *ss = NULL; rs_result r;
        mc_desc("signature of %" PRIu64 " blocks (%.1f GiB of sums), magic %#x", n, (double)(n * E) / (1 << 30), magic);
        uint64_t idx[16]; int ni = 0; idx[ni++] = 0; idx[ni++] = 1; idx[ni++] = edge / 2; for (int d = -2; d <= 2; d++) idx[ni++] = edge + (uint64_t)d; idx[ni++] = n - 2; idx[ni++] = n - 1;
        uint8_t *e = malloc(CH * E), h[12], blk[BL], st[32], x[16 * BL]; ref_put4(h, magic); ref_put4(h + 4, BL); ref_put4(h + 8, SL);
        rs_job_t *j = rs_loadsig_begin(&ss); rs_buffers_t b = {0}; b.next_in = (char *)h; b.avail_in = 12; r = rs_job_iter(j, &b);
        for (uint64_t k = 0; k < n; k += CH) {
            uint64_t m = n - k < CH ? n - k : CH;
            for (uint64_t q = 0; q < m; q++) { uint64_t w = k + q; ref_put4(e + q * E, (uint32_t)(w * 2654435761u + 7)); memset(e + q * E + 4, 0x5a, SL); memcpy(e + q * E + 4, &w, 8); }
            for (int t = 0; t < ni; t++) if (idx[t] >= k && idx[t] < k + m) { uint8_t *q = e + (idx[t] - k) * E; mc_fill(blk, BL, 99 + idx[t]); ref_put4(q, ref_weak(magic, blk, BL)); ref_strong(magic, st, blk, BL); memcpy(q + 4, st, SL); memcpy(x + t * BL, blk, BL); }
            b.next_in = (char *)e; b.avail_in = m * E; b.eof_in = k + m == n; mc_tick(); r = rs_job_iter(j, &b);
            MC_CHECK(r == (b.eof_in ? RS_DONE : RS_BLOCKED) && !b.avail_in, "load: result %d after %" PRIu64 " blocks", RES(r), k + m);
        }
        rs_job_free(j); free(e); mc_tick(); r = rs_build_hash_table(ss); MC_CHECK(r == RS_DONE, "index of %" PRIu64 " blocks: result %d", n, RES(r)); mc_tick();
        for (int t = 0; t < ni; t++) {
            vec d = {0}, want = {0}; runinfo ri; j = rs_delta_begin(ss); r = run_job(j, x + t * BL, BL, ONESHOT, &d, &ri); rs_job_free(j);
            uint64_t pos = idx[t] * BL; int w = pos < 256 ? 1 : pos < 65536 ? 2 : pos >> 32 ? 8 : 4; M->w->evals++;
            put_be(&want, REF_DELTA, 4); vec_b(&want, 0x45 + (w == 1 ? 0 : w == 2 ? 4 : w == 4 ? 8 : 12)); put_be(&want, pos, w); put_be(&want, BL, 1); vec_b(&want, 0);
            MC_CHECK(r == RS_DONE && vec_eq(&d, want.p, want.n), "delta of block %" PRIu64 " of %" PRIu64 ": result %d, %zu bytes, not one copy of %d bytes at %" PRIu64, idx[t], n, RES(r), d.n, BL, pos);
            mc_distinct(mc_hash(d.p, d.n, (uint64_t)v)); free(d.p); free(want.p);
        }
        rs_free_sumset(ss);
    }
}
/* ---- 10: a literal of more than 2 and 4 GiB with all its input and output space in one call.  Input and output repeat
 *          64 MiB of memory each, so every byte is really copied and the last 64 MiB can be compared ---- */
enum { RPT = 64 << 20 };
static uint8_t *repeated(uint64_t n)
{
    int fd = memfd_create("mc", 0); uint64_t w = (n + RPT - 1) / RPT * RPT;
    if (fd < 0 || ftruncate(fd, RPT)) _exit(99);
    uint8_t *p = mmap(NULL, w + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(99);
    for (uint64_t o = 0; o < w; o += RPT) if (mmap(p + o, RPT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(99);
    close(fd);
    return p;
}
static void part_biglit(void)
{
    static const uint64_t lens[] = {0x100000005ULL, 0x80000005ULL, 0x180000001ULL};
    for (int i = 0; i < (M->thorough ? 3 : 2); i++) for (int v = 0; v < 2; v++) {
        if (!mc_case()) continue;
        uint64_t n = lens[i]; mc_desc("patch: literal of %" PRIu64 " bytes %s", n, v ? "that becomes available after 3 bytes of it" : "with all its input and output space in one call");
        uint8_t *in = repeated(n), *out = repeated(n), endc = 0; uint64_t w = (n + RPT - 1) / RPT * RPT, c = 0; mc_fill(in, RPT, 4711); memset(out, 0, RPT);
        vec d = {0}; put_be(&d, 0x72730236, 4); vec_b(&d, 0x44); put_be(&d, n, 8);
        mbasis mb = {(uint8_t *)"", 0, 0, 0, NULL, 0}; rs_job_t *j = rs_patch_begin(mem_copy, &mb); rs_buffers_t b = {0}; rs_result r;
        b.next_in = (char *)d.p; b.avail_in = d.n; b.next_out = (char *)out; b.avail_out = n + 5; r = rs_job_iter(j, &b);
        MC_CHECK(r == RS_BLOCKED && !b.avail_in && b.avail_out == n + 5, "header of the literal: result %d", RES(r));
        if (v) {        /* a little of it first, with no room for output */
            b.next_in = (char *)in; b.avail_in = 3; b.avail_out = 0; r = rs_job_iter(j, &b);
            MC_CHECK(r == RS_BLOCKED, "start of the literal: result %d", RES(r)); c = 3 - b.avail_in; b.avail_out = n + 5;
        }
        b.next_in = (char *)in + c; b.avail_in = n - c; mc_tick(); r = rs_job_iter(j, &b); mc_tick();
        MC_CHECK(r == RS_BLOCKED && !b.avail_in && b.avail_out == 5, "literal of %" PRIu64 " bytes given at once: result %d, %zu bytes not taken, %zu of %" PRIu64 " bytes of output space left", n, RES(r), b.avail_in, b.avail_out, n + 5);
        MC_CHECK(b.next_in == (char *)in + n && b.next_out == (char *)out + n, "literal of %" PRIu64 " bytes given at once: the pointers do not show what was taken and written", n);
        uint64_t e = n % RPT;
        if (e <= 70) MC_CHECK(!memcmp(out, in, RPT), "literal of %" PRIu64 " bytes given at once: data changed", n);
        b.next_in = (char *)&endc; b.avail_in = 1; b.eof_in = 1; r = rs_job_iter(j, &b);
        MC_CHECK(r == RS_DONE && b.avail_out == 5 && (uint64_t)rs_job_statistics(j)->lit_bytes == n, "end after a literal of %" PRIu64 " bytes: result %d", n, RES(r));
        rs_job_free(j); free(d.p); munmap(in, w + 4096); munmap(out, w + 4096); M->w->evals++; mc_distinct(n + (uint64_t)v);
    }
}
static void run(void)
{
    rs_trace_to(quiet_sink);
    part_manysums();
    part_pipeline(); part_oneshot(); part_biglit(); part_streams(); part_lits(); part_bigcopy();       /* long cases first */
    part_virtual(M_64); part_tails(); part_copies(); part_sparse(); part_far(); part_hugeout();
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
