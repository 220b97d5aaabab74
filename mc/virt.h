/* Virtual old file of more than 4 GiB: the signature is built with reference sums, only a few blocks have
 * individual content, the others share a filler whose sums never match anything. */
enum { M_RT = 1, M_GREEDY = 2, M_FMT = 4, M_STATS = 8, M_64 = 16 };
typedef struct { size_t bl, nb; size_t idx[12]; int nidx; size_t tail; } vbasis;
static void vblock(const vbasis *v, size_t i, uint8_t *o) { mc_fill(o, v->bl, 7000000 + i * 3); }
static rs_result virt_copy(void *arg, rs_long_t pos, size_t *len, void **buf)
{
    vbasis *v = arg; uint64_t tot = (uint64_t)v->nb * v->bl; size_t k = *len;
    if (pos < 0 || (uint64_t)pos >= tot) return RS_INPUT_ENDED;
    uint64_t i = (uint64_t)pos / v->bl; size_t off = (size_t)((uint64_t)pos % v->bl);
    if (k > v->bl - off) k = v->bl - off;
    uint8_t *t = malloc(v->bl); vblock(v, (size_t)i, t); memcpy(*buf, t + off, k); free(t);
    *len = k;
    return RS_DONE;
}
static void virt_case(const vbasis *v, uint32_t magic, const size_t *order, int n, int lit, int what)
{
    size_t sl = 8; vec sg = {0}, x = {0}, d = {0}, o = {0}; uint8_t *blk = malloc(v->bl), st[32]; rs_result r; runinfo ri;
    /* entries that match nothing: weak sums are counters, strong sums fixed */
    vec_need(&sg, 12 + v->nb * (4 + sl)); sg.n = 12 + v->nb * (4 + sl);
    ref_put4(sg.p, magic); ref_put4(sg.p + 4, (uint32_t)v->bl); ref_put4(sg.p + 8, (uint32_t)sl);
    for (size_t i = 0; i < v->nb; i++) { uint8_t *e = sg.p + 12 + i * (4 + sl); ref_put4(e, (uint32_t)(i * 2654435761u + 12345)); memset(e + 4, 0x5a, sl); }
    for (int k = 0; k < v->nidx; k++) { size_t i = v->idx[k]; uint8_t *e = sg.p + 12 + i * (4 + sl); vblock(v, i, blk); ref_put4(e, ref_weak(magic, blk, v->bl)); ref_strong(magic, st, blk, v->bl); memcpy(e + 4, st, sl); }
    for (int k = 0; k < n; k++) { vblock(v, order[k], blk); vec_add(&x, blk, v->bl); if (lit) vec_add(&x, "literal", (size_t)lit); }
    rs_signature_t *ss = load_sig(sg.p, sg.n, ONESHOT, &r);
    MC_CHECK(ss, "loading a signature of %zu blocks failed: %d", v->nb, RES(r));
    rs_job_t *j = rs_delta_begin(ss);
    r = run_job(j, x.p, x.n, ONESHOT, &d, &ri);
    rs_stats_t ds = *rs_job_statistics(j);
    rs_job_free(j); rs_free_sumset(ss);
    MC_CHECK(!ri.bad && r == RS_DONE, "delta against %zu blocks of %zu failed: %d", v->nb, v->bl, RES(r));
    /* decode independently: every copy must name the place in the old file that holds the data */
    size_t i = 4; uint64_t litb = 0, copyb = 0, ncopy = 0, off = 0; int bad = d.n < 5 || ref_get(d.p, 4) != REF_DELTA, wrong = 0;
    size_t unit = v->bl + (size_t)lit;
    while (!bad && i < d.n && d.p[i]) {
        int w1, w2, c = ref_cmd(d.p[i], &w1, &w2);
        if (c == 'L') { uint64_t l = w1 ? ref_get(d.p + i + 1, w1) : d.p[i]; i += 1 + (size_t)w1; if (l > d.n - i || off + l > x.n || memcmp(d.p + i, x.p + off, l)) { wrong = 1; break; } i += l; litb += l; off += l; }
        else if (c == 'C') {
            uint64_t pos = ref_get(d.p + i + 1, w1), l = ref_get(d.p + i + 1 + w1, w2); i += 1 + (size_t)(w1 + w2); ncopy++; copyb += l;
            while (l) {
                uint64_t k = off / unit, in = off % unit, c2 = v->bl - in;
                if (k >= (uint64_t)n || in >= v->bl) { wrong = 1; break; }
                if (pos != (uint64_t)order[k] * v->bl + in) { if (what & (M_FMT | M_64)) mc_fail("copy names old-file offset %" PRIu64 ", the data is at %" PRIu64, pos, (uint64_t)order[k] * v->bl + in); wrong = 1; break; }
                if (c2 > l) c2 = l;
                pos += c2; l -= c2; off += c2;
            }
            if (wrong) break;
        } else bad = 1;
    }
    if (what & (M_FMT | M_64)) MC_CHECK(!bad && !wrong && i + 1 == d.n && off == x.n, "delta malformed or not describing the new file");
    if (what & (M_GREEDY | M_64)) MC_CHECK(litb <= (uint64_t)lit * (uint64_t)n, "blocks at large offsets not matched: %" PRIu64 " literal bytes", litb);
    if (what & (M_STATS | M_64)) MC_CHECK(bad || wrong || ((uint64_t)ds.copy_bytes == copyb && (uint64_t)ds.copy_cmds == ncopy && (uint64_t)ds.lit_bytes == litb), "statistics wrong for large offsets");
    if (what & (M_RT | M_64)) {
        j = rs_patch_begin(virt_copy, (void *)(uintptr_t)v);
        r = run_job(j, d.p, d.n, ONESHOT, &o, &ri);
        rs_job_free(j);
        MC_CHECK(!ri.bad && r == RS_DONE && vec_eq(&o, x.p, x.n), "patch with large offsets: result %d, output %s", RES(r), vec_eq(&o, x.p, x.n) ? "correct" : "wrong");
    }
    M->w->evals++; mc_distinct(mc_hash(d.p, d.n, magic));
    free(sg.p); free(x.p); free(d.p); free(o.p); free(blk);
}
static void part_virtual(int what)
{
    static const size_t cfg[][2] = { {65536, 70000}, {1 << 20, 4200}, {100000, 45000}, {1 << 17, 33000}, {4096, 9} };
    for (int c = 0; c < 5; c++) for (int mi = 0; mi < 4; mi++) for (int v = 0; v < 4; v++) {
        if (!mc_case()) continue;
        vbasis b = {cfg[c][0], cfg[c][1], {0}, 0, 0}; uint64_t lim[] = {1ULL << 31, 1ULL << 32};
        mc_desc("virtual old file of %zu blocks of %zu bytes (%.1f GiB), magic %#x, order %d", b.nb, b.bl, (double)b.nb * (double)b.bl / (1 << 30), ref_magics[mi], v);
        b.idx[b.nidx++] = 0;
        for (int k = 0; k < 2; k++) { uint64_t i = lim[k] / b.bl; for (int dl = -1; dl <= 1; dl++) if (i + (uint64_t)(dl + 1) < b.nb && i > 1) b.idx[b.nidx++] = (size_t)(i + (uint64_t)dl); }
        b.idx[b.nidx++] = b.nb - 2; b.idx[b.nidx++] = b.nb - 1;
        size_t ord[24]; int n = 0;
        if (v & 1) for (int k = b.nidx; k-- > 0;) ord[n++] = b.idx[k]; else for (int k = 0; k < b.nidx; k++) ord[n++] = b.idx[k];
        virt_case(&b, ref_magics[mi], ord, n, v & 2 ? 5 : 0, what);
    }
}
