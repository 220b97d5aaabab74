/* Round-trip engine: enumerates (old, new, parameters) and decides, by --mode,
 *   C01 round trip, C04 match completeness, C05 delta format, C18 statistics (streaming part). */
#include "api.h"

#include "virt.h"
typedef struct { int what; vec d, o, sg, x; uint8_t *tmp; size_t tmpcap; } rtg;
static rtg *R;

static void need_tmp(size_t n) { if (n > R->tmpcap) { R->tmp = realloc(R->tmp, n * 2 + 1024); R->tmpcap = n * 2 + 1024; } }

static const sched S11 = {1, 1, 0, 0}, S0 = {0, 0, 0, 0}, SB = {4096, 4096, 0, 0};

static void check_delta(const uint8_t *bs, size_t bn, const uint8_t *nw, size_t nn, size_t bl, uint32_t magic, rs_stats_t st, sched s)
{
    ref_dres dr;
    need_tmp(nn + 64);
    dr = ref_patch(R->d.p, R->d.n, bs, bn, R->tmp, nn + 1);
    if (R->what & M_FMT) {
        MC_CHECK(dr.result == REF_OK || dr.copy_oob, "delta does not decode: result %d", dr.result);
        MC_CHECK(!dr.copy_oob, "delta has a copy outside the old file (%zu bytes)", bn);
        MC_CHECK(dr.used == R->d.n, "delta has %zu bytes after its end command", R->d.n - dr.used);
        MC_CHECK(dr.outlen == nn && !memcmp(R->tmp, nw, nn), "delta decodes to %zu bytes that are not the new file (%zu bytes)", dr.outlen, nn);
    }
    if (R->what & M_GREEDY) {
        ref_gres g = ref_greedy(bs, bn, bl, nw, nn, 65533);
        MC_CHECK(dr.result == REF_OK, "delta does not decode");
        MC_CHECK(dr.lit_bytes <= g.lit, "missed matches: delta sends %" PRIu64 " literal bytes, greedy block scan leaves %" PRIu64, dr.lit_bytes, g.lit);
        MC_CHECK(dr.copy_cmds <= g.copies, "adjacent matches not joined: %" PRIu64 " copy commands, greedy needs %" PRIu64, dr.copy_cmds, g.copies);
    }
    if (R->what & M_STATS) {
        MC_CHECK((uint64_t)st.lit_cmds == dr.lit_cmds && (uint64_t)st.lit_bytes == dr.lit_bytes && (uint64_t)st.lit_cmdbytes == dr.lit_cmdbytes,
                 "delta literal statistics %d cmds %lld bytes %lld cmdbytes, delta really has %" PRIu64 "/%" PRIu64 "/%" PRIu64, st.lit_cmds, (long long)st.lit_bytes, (long long)st.lit_cmdbytes, dr.lit_cmds, dr.lit_bytes, dr.lit_cmdbytes);
        MC_CHECK((uint64_t)st.copy_cmds == dr.copy_cmds && (uint64_t)st.copy_bytes == dr.copy_bytes && (uint64_t)st.copy_cmdbytes == dr.copy_cmdbytes,
                 "delta copy statistics %lld cmds %lld bytes %lld cmdbytes, delta really has %" PRIu64 "/%" PRIu64 "/%" PRIu64, (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, dr.copy_cmds, dr.copy_bytes, dr.copy_cmdbytes);
    }
    if (R->what & (M_RT | M_STATS)) {
        mbasis mb = {bs, bn, 0, 0, NULL, 0}; runinfo ri;
        rs_job_t *j = rs_patch_begin(mem_copy, &mb);
        R->o.n = 0;
        rs_result r = run_job(j, R->d.p, R->d.n, s, &R->o, &ri);
        rs_stats_t ps = *rs_job_statistics(j);
        rs_job_free(j);
        if (R->what & M_RT) {
            MC_CHECK(!ri.bad, "patch: %s", ri.bad);
            MC_CHECK(r == RS_DONE, "patch of own delta failed with result %d", RES(r));
            MC_CHECK(vec_eq(&R->o, nw, nn), "patched output (%zu bytes) differs from new file (%zu bytes)", R->o.n, nn);
        }
        if ((R->what & M_STATS) && r == RS_DONE) {
            MC_CHECK((uint64_t)ps.lit_cmds == dr.lit_cmds && (uint64_t)ps.lit_bytes == dr.lit_bytes && (uint64_t)ps.lit_cmdbytes == dr.lit_cmdbytes,
                     "patch literal statistics %d/%lld/%lld, delta has %" PRIu64 "/%" PRIu64 "/%" PRIu64, ps.lit_cmds, (long long)ps.lit_bytes, (long long)ps.lit_cmdbytes, dr.lit_cmds, dr.lit_bytes, dr.lit_cmdbytes);
            MC_CHECK((uint64_t)ps.copy_cmds == dr.copy_cmds && (uint64_t)ps.copy_bytes == dr.copy_bytes && (uint64_t)ps.copy_cmdbytes == dr.copy_cmdbytes,
                     "patch copy statistics %lld/%lld/%lld, delta has %" PRIu64 "/%" PRIu64 "/%" PRIu64, (long long)ps.copy_cmds, (long long)ps.copy_bytes, (long long)ps.copy_cmdbytes, dr.copy_cmds, dr.copy_bytes, dr.copy_cmdbytes);
        }
    }
    M->w->evals++;
    if (dr.copy_cmds && dr.lit_cmds) mc_distinct(mc_hash(R->d.p, R->d.n, mc_hash(nw, nn, magic + bl * 1315423911u)));
}

/* Signature of the old file, loaded. NULL sets slack. */
static rs_signature_t *sig_of(const uint8_t *bs, size_t bn, size_t bl, size_t sl, uint32_t magic, sched s)
{
    runinfo ri; rs_result r;
    rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    R->sg.n = 0;
    r = run_job(j, bs, bn, s, &R->sg, &ri);
    rs_stats_t st = *rs_job_statistics(j);
    rs_job_free(j);
    MC_CHECK(!ri.bad && r == RS_DONE, "signature failed: result %d %s", RES(r), ri.bad ? ri.bad : "");
    if (R->what & M_STATS) {
        MC_CHECK((size_t)st.sig_blocks == (bn + bl - 1) / bl, "signature statistics: %lld blocks, file has %zu", (long long)st.sig_blocks, (bn + bl - 1) / bl);
        MC_CHECK((size_t)st.block_len == bl, "signature statistics: block length %zu, used %zu", (size_t)st.block_len, bl);
    }
    rs_signature_t *ss = NULL; vec o = {0};
    j = rs_loadsig_begin(&ss);
    r = run_job(j, R->sg.p, R->sg.n, s, &o, &ri);
    st = *rs_job_statistics(j);
    rs_job_free(j); free(o.p);
    MC_CHECK(!ri.bad && r == RS_DONE, "loading own signature failed: result %d %s", RES(r), ri.bad ? ri.bad : "");
    if (R->what & M_STATS) {
        MC_CHECK((size_t)st.sig_blocks == (bn + bl - 1) / bl, "load statistics: %lld blocks, signature has %zu", (long long)st.sig_blocks, (bn + bl - 1) / bl);
        MC_CHECK((size_t)st.block_len == bl, "load statistics: block length %zu, signature has %zu", (size_t)st.block_len, bl);
    }
    r = rs_build_hash_table(ss);
    MC_CHECK(r == RS_DONE, "rs_build_hash_table failed: %d", RES(r));
    return ss;
}
static void delta_of(rs_signature_t *ss, const uint8_t *nw, size_t nn, sched s, rs_stats_t *st)
{
    runinfo ri; rs_job_t *j = rs_delta_begin(ss);
    R->d.n = 0;
    rs_result r = run_job(j, nw, nn, s, &R->d, &ri);
    *st = *rs_job_statistics(j);
    rs_job_free(j);
    MC_CHECK(!ri.bad && r == RS_DONE, "delta failed: result %d %s", RES(r), ri.bad ? ri.bad : "");
}

/* ---- part A: all files over a small alphabet ---- */
static void part_small(int alpha, int bmax, int nmax, int blmax, int slset)
{
    uint8_t b[16], x[16];
    for (int bl = 1; bl <= blmax; bl++)
        for (int mi = 0; mi < 4; mi++)
            for (int si = 0; si < slset; si++) {
                size_t sl = si == 0 ? (size_t)ref_maxstrong(ref_magics[mi]) : si == 1 ? 8 : 11;
                for (int bn = 0; bn <= bmax; bn++) {
                    long nb = 1; for (int i = 0; i < bn; i++) nb *= alpha;
                    for (long bi = 0; bi < nb; bi++) {
                        if (!mc_case()) continue;
                        long t = bi; for (int i = 0; i < bn; i++) { b[i] = (uint8_t)('a' + t % alpha); t /= alpha; }
                        mc_desc("old=\"%.*s\" block_len=%d magic=%#x strong_len=%zu, all new files over %d letters up to length %d", bn, b, bl, ref_magics[mi], sl, alpha, nmax);
                        rs_signature_t *ss = sig_of(b, (size_t)bn, (size_t)bl, sl, ref_magics[mi], (bi & 1) ? S11 : S0);
                        for (int nn = 0; nn <= nmax; nn++) {
                            long nx = 1; for (int i = 0; i < nn; i++) nx *= alpha;
                            for (long xi = 0; xi < nx; xi++) {
                                t = xi; for (int i = 0; i < nn; i++) { x[i] = (uint8_t)('a' + t % alpha); t /= alpha; }
                                rs_stats_t st;
                                sched s = (xi % 3) ? S0 : S11;
                                delta_of(ss, x, (size_t)nn, s, &st);
                                check_delta(b, (size_t)bn, x, (size_t)nn, (size_t)bl, ref_magics[mi], st, s);
                                if (nn == nmax && xi % 7 == 0) { delta_of(NULL, x, (size_t)nn, s, &st); int w = R->what; R->what &= ~M_GREEDY; check_delta(b, (size_t)bn, x, (size_t)nn, (size_t)bl, ref_magics[mi], st, s); R->what = w; }
                            }
                        }
                        rs_free_sumset(ss);
                    }
                }
            }
}

/* ---- part B: segment sequences ---- */
enum { T_BLK, T_LIT, T_PRE, T_SUF, T_TAIL, T_RUN, T_MOD, T_ZERO };
typedef struct { int kind; size_t a; } tok;
static void add_tok(vec *v, tok t, const uint8_t *b, size_t nb, size_t bl, size_t tail, uint64_t seed)
{
    uint8_t *p;
    switch (t.kind) {
    case T_BLK: if (nb) vec_add(v, b + (t.a % nb) * bl, bl); break;
    case T_LIT: vec_need(v, v->n + t.a); p = v->p + v->n; mc_fill(p, t.a, seed * 31 + t.a); v->n += t.a; break;
    case T_PRE: if (nb) vec_add(v, b + (t.a % nb) * bl, bl - 1); break;
    case T_SUF: if (nb && bl > 1) vec_add(v, b + (t.a % nb) * bl + 1, bl - 1); break;
    case T_TAIL: vec_add(v, b + nb * bl, tail); break;
    case T_RUN: { size_t k = t.a < nb ? t.a : nb; vec_add(v, b, k * bl); break; }
    case T_MOD: if (nb) { vec_add(v, b + (t.a % nb) * bl, bl); v->p[v->n - 1] ^= 0x80; } break;
    case T_ZERO: vec_need(v, v->n + t.a); memset(v->p + v->n, 0, t.a); v->n += t.a; break;
    }
}
static const char *tokname(tok t) { static const char *n[] = {"block", "literal", "prefix", "suffix", "tail", "run", "modified", "zeros"}; return n[t.kind]; }
static void part_segments(const tok *toks, int nt, int depth, const size_t *bls, int nbl, const size_t *nbs, int nnb, const size_t *tails, int ntails, int nmagic, int zero_basis)
{
    vec b = {0};
    for (int ib = 0; ib < nbl; ib++) for (int in = 0; in < nnb; in++) for (int it = 0; it < ntails; it++) for (int mi = 4 - nmagic; mi < 4; mi++)
        for (int t0 = -1; t0 < nt; t0++) {
            size_t bl = bls[ib], nb = nbs[in], tail = tails[it] % bl;
            if (it && tails[it] % bl == tails[it - 1] % bl) continue;
            if (!mc_case()) continue;
            vec_need(&b, nb * bl + tail + 1); b.n = nb * bl + tail; mc_fill(b.p, b.n, bl * 1000 + nb * 10 + tail);
            if (zero_basis && nb > 1) memset(b.p + bl, 0, bl);
            uint32_t magic = ref_magics[mi];
            mc_desc("old=%zu blocks of %zu + tail %zu, magic %#x, all sequences of %d more segments starting with %s %zu", nb, bl, tail, magic, depth - 1, t0 < 0 ? "(empty)" : tokname(toks[t0]), t0 < 0 ? 0 : toks[t0].a);
            size_t sl = (mi + t0) % 2 ? 8 : (size_t)ref_maxstrong(magic);
            rs_signature_t *ss = sig_of(b.p, b.n, bl, sl, magic, S0);
            long tot = 1; for (int i = 1; i < depth; i++) tot *= nt + 1;
            if (t0 < 0) tot = 1;
            for (long q = 0; q < tot; q++) {
                long z = q; int bad = 0;
                R->x.n = 0;
                if (t0 >= 0) add_tok(&R->x, toks[t0], b.p, nb, bl, tail, 1);
                for (int i = 1, ended = 0; i < depth; i++) { int k = (int)(z % (nt + 1)); z /= nt + 1; if (k == nt) ended = 1; else if (ended) { bad = 1; break; } else add_tok(&R->x, toks[k], b.p, nb, bl, tail, (uint64_t)i + 1); }
                if (bad) continue;
                rs_stats_t st; sched s = q % 5 ? S0 : SB;
                delta_of(ss, R->x.p, R->x.n, s, &st);
                check_delta(b.p, b.n, R->x.p, R->x.n, bl, magic, st, s);
            }
            rs_free_sumset(ss);
        }
    free(b.p);
}
/* ---- part C: many blocks, every alignment class ---- */
static void part_many(const size_t *nbs, int nn, const size_t *bls, int nbl)
{
    vec b = {0};
    for (int in = 0; in < nn; in++) for (int ib = 0; ib < nbl; ib++) for (int mi = 0; mi < 4; mi++) for (int v = 0; v < 8; v++) {
        size_t bl = bls[ib], nb = nbs[in];
        if (nb * bl > (6u << 20)) continue;
        if (!mc_case()) continue;
        size_t tail = v & 1 ? bl / 2 : 0;
        vec_need(&b, nb * bl + tail + 1); b.n = nb * bl + tail; mc_fill(b.p, b.n, bl + nb);
        if (v == 6) for (size_t i = 0; i < nb; i += 3) memcpy(b.p + i * bl, b.p, bl);       /* many duplicates */
        uint32_t magic = ref_magics[mi];
        mc_desc("old=%zu blocks of %zu + %zu, magic %#x, rearrangement %d", nb, bl, tail, magic, v);
        rs_signature_t *ss = sig_of(b.p, b.n, bl, (size_t)ref_maxstrong(magic), magic, SB);
        vec *x = &R->x; x->n = 0; uint64_t seed = 99;
        switch (v) {
        case 0: vec_add(x, b.p, b.n); break;                       /* identical */
        case 1: vec_b(x, 'Z'); vec_add(x, b.p, b.n); break;        /* shifted by one */
        case 2: for (size_t i = nb; i-- > 0;) vec_add(x, b.p + i * bl, bl); break;   /* reversed */
        case 3: for (size_t i = 0; i < nb; i++) { vec_add(x, b.p + i * bl, bl); vec_b(x, (int)mc_rnd(&seed)); } break;
        case 4: vec_add(x, b.p + b.n / 2, b.n - b.n / 2); vec_add(x, b.p, b.n / 2); break;
        case 5: for (size_t i = 0; i < nb; i += 2) { vec_add(x, b.p + i * bl, bl); vec_add(x, b.p + i * bl + 1, bl - 1); } break;
        case 6: vec_add(x, b.p, b.n); vec_add(x, b.p, b.n); break;
        case 7: vec_add(x, b.p + 1, b.n - 1); break;
        }
        rs_stats_t st;
        delta_of(ss, x->p, x->n, S0, &st);
        check_delta(b.p, b.n, x->p, x->n, bl, magic, st, S0);
        rs_free_sumset(ss);
    }
    free(b.p);
}
/* ---- part D: every insert/delete/replace edit of a file ---- */
static void part_edits(void)
{
    static const size_t bls[] = {1, 2, 3, 7, 16, 33};
    uint8_t b[200], x[300];
    for (int ib = 0; ib < 6; ib++) for (int mi = 0; mi < 4; mi++) for (int bn = 0; bn <= 100; bn += (M->thorough ? 1 : 9)) {
        if (!mc_case()) continue;
        size_t bl = bls[ib]; uint32_t magic = ref_magics[mi];
        mc_desc("old file of %d bytes, block_len %zu, magic %#x, every single edit (delete/insert/replace k bytes at p)", bn, bl, magic);
        mc_fill(b, (size_t)bn, 5);
        rs_signature_t *ss = sig_of(b, (size_t)bn, bl, 8, magic, S0);
        for (int p = 0; p <= bn; p++) for (int del = 0; del <= 3; del++) for (int ins = 0; ins <= 3; ins++) {
            if (p + del > bn) continue;
            int n = 0; memcpy(x, b, (size_t)p); n = p; memset(x + n, 0xee, (size_t)ins); n += ins; memcpy(x + n, b + p + del, (size_t)(bn - p - del)); n += bn - p - del;
            rs_stats_t st; delta_of(ss, x, (size_t)n, S0, &st);
            check_delta(b, (size_t)bn, x, (size_t)n, bl, magic, st, S0);
        }
        rs_free_sumset(ss);
    }
}
/* ---- part F: every byte value as the only difference / as fill ---- */
static void part_bytes(void)
{
    uint8_t b[64], x[80];
    for (int c = 0; c < 256; c++) for (int mi = 0; mi < 4; mi++) {
        if (!mc_case()) continue;
        mc_desc("fill byte %#x: runs of one byte value, block lengths 1..20", c);
        for (size_t bl = 1; bl <= 20; bl += 1 + (bl > 4) * 3) for (size_t bn = 0; bn <= 40; bn += 5) {
            memset(b, c, sizeof b); if (bn > 3) b[bn - 2] = (uint8_t)(c + 1);
            rs_signature_t *ss = sig_of(b, bn, bl, 8, ref_magics[mi], S0);
            for (size_t n = 0; n <= 60; n += 4) {
                memset(x, c, sizeof x); if (n > 10) x[n / 2] = (uint8_t)~c;
                rs_stats_t st; delta_of(ss, x, n, S0, &st);
                check_delta(b, bn, x, n, bl, ref_magics[mi], st, S0);
            }
            rs_free_sumset(ss);
        }
    }
}
/* ---- part G: every length of new data before, between and after matches; every number of joined blocks ---- */
static void one_lit(rs_signature_t *ss, const uint8_t *b, size_t bn, size_t bl, uint32_t magic, const uint8_t *lit, size_t L, int shape)
{
    vec *x = &R->x; x->n = 0;
    if (shape == 1) vec_add(x, b + bl, bl);
    vec_add(x, lit, L);
    if (shape != 2) vec_add(x, b, bl);
    if (shape == 0) vec_add(x, lit + 7, 3);
    rs_stats_t st; sched s = L % 16 == 1 ? SB : S0;
    delta_of(ss, x->p, x->n, s, &st); check_delta(b, bn, x->p, x->n, bl, magic, st, s);
}
static void part_litlen(int th)
{
    enum { STEP = 512, TOP = 68 * 1024 };
    uint8_t *lit = malloc(300000), b[400]; mc_fill(lit, 300000, 4242); mc_fill(b, sizeof b, 99);
    for (int cfg = 0; cfg < (th ? 8 : 2); cfg++) for (size_t base = 0; base < TOP; base += STEP) {
        size_t bl = cfg < 4 ? 32 : 100; uint32_t magic = ref_magics[(cfg + 3 * (cfg == 1)) % 4];
        int shape = cfg % 3;
        /* quick tier, beyond 700 bytes: all lengths for the round trip (first configuration), otherwise those next to multiples of 256 */
        if (!mc_case()) continue;
        mc_desc("new data of every length %zu..%zu %s, block_len %zu, magic %#x", base, base + STEP - 1, shape == 0 ? "before a matching block" : shape == 1 ? "between two matching blocks" : "alone", bl, magic);
        rs_signature_t *ss = sig_of(b, 3 * bl + 5, bl, 8, magic, S0);
        for (size_t L = base; L < base + STEP; L++) {
            if (!th && L > 700) { if (R->what & (M_GREEDY | M_STATS | M_FMT) || cfg) { size_t q = L % 256; if (q > 2 && q < 253) continue; } }
            one_lit(ss, b, 3 * bl + 5, bl, magic, lit, L, shape);
        }
        rs_free_sumset(ss);
    }
    for (int k = 16; k <= 18; k++) for (int d = -6; d <= 6; d++) for (int cfg = 0; cfg < 6; cfg++) {
        if (!mc_case()) continue;
        size_t L = (size_t)((1L << k) + d), bl = 32; uint32_t magic = ref_magics[cfg % 4];
        mc_desc("new data of %zu bytes, block_len %zu, magic %#x", L, bl, magic);
        rs_signature_t *ss = sig_of(b, 3 * bl + 5, bl, 8, magic, S0);
        one_lit(ss, b, 3 * bl + 5, bl, magic, lit, L, cfg % 3); rs_free_sumset(ss);
    }
    /* joined copies of every number of blocks, block lengths whose products cross the encoding widths */
    static const size_t bls[] = {1, 2, 3, 16, 255, 256};
    vec bb = {0};
    for (int bi = 0; bi < 6; bi++) for (int mi = 0; mi < 4; mi += 3) {
        size_t bl = bls[bi], nb = bl < 16 ? 250 / bl : 300; uint32_t magic = ref_magics[mi];
        for (int from = 0; from < 3; from++) {
            if (!mc_case()) continue;
            mc_desc("copies of every number of consecutive blocks of %zu from block %d, magic %#x", bl, from, magic);
            vec_need(&bb, nb * bl); bb.n = nb * bl; mc_fill(bb.p, bb.n, bl);
            if (bl == 1) for (size_t i = 0; i < nb; i++) bb.p[i] = (uint8_t)i;
            rs_signature_t *ss = sig_of(bb.p, bb.n, bl, 8, magic, S0);
            for (size_t k = 1; k + (size_t)from <= nb; k++) {
                if (!th && nb > 250 && k > 20 && (k * bl) % 256 > bl && ((k * bl) & 0xfff) > bl && k % 16 > 1) continue;
                vec *x = &R->x; x->n = 0; vec_add(x, lit, 3); vec_add(x, bb.p + (size_t)from * bl, k * bl); if (k & 1) vec_add(x, lit, 2);
                rs_stats_t st; delta_of(ss, x->p, x->n, S0, &st); check_delta(bb.p, bb.n, x->p, x->n, bl, magic, st, S0);
            }
            rs_free_sumset(ss);
        }
    }
    free(bb.p); free(lit);
}

/* ---- part H: every strong length, all block lengths in ranges and long ones, the new file made of shared parts at every kind of place ---- */
static void one_shared(rs_signature_t *ss, const uint8_t *b, size_t bn, size_t bl, uint32_t magic, int v)
{
    vec *x = &R->x; x->n = 0; size_t nb = bn / bl; uint64_t seed = bl + v;
    switch (v) {
    case 0: vec_add(x, b, bn); break;
    case 1: vec_b(x, 7); vec_add(x, b, bn); break;
    case 2: for (size_t i = nb; i-- > 0;) { vec_add(x, b + i * bl, bl); vec_b(x, (int)mc_rnd(&seed)); } break;
    case 3: vec_add(x, b + bl - 1, bn - bl + 1); vec_add(x, b, bl - 1); break;
    case 4: vec_add(x, b + nb * bl, bn - nb * bl); vec_add(x, b + nb * bl, bn - nb * bl); break;
    case 5: vec_add(x, b, bl); vec_add(x, b, bn); x->p[bl - 1] ^= 1; break;
    }
    rs_stats_t st; sched s = v == 2 ? SB : S0;
    delta_of(ss, x->p, x->n, s, &st); check_delta(b, bn, x->p, x->n, bl, magic, st, s);
}
static void part_params(int th)
{
    vec b = {0};
    static const size_t longs[] = {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 32769, 65532, 65533, 65534, 65535, 65536, 65537, 65539, 100000, 131071, 131072, 131073, 200000, 262144, 1000000};
    int nl = sizeof longs / sizeof *longs, top = th ? 1100 : 530;
    for (int k = 1; k <= top + nl; k++) for (int mi = 0; mi < 4; mi++) {
        size_t bl = k <= top ? (size_t)k : longs[k - top - 1]; uint32_t magic = ref_magics[mi];
        if (!th && bl > 70000 && mi % 3) continue;
        if (!mc_case()) continue;
        mc_desc("block_len %zu, magic %#x, several strong lengths, 6 arrangements of shared data", bl, magic);
        size_t mx = (size_t)ref_maxstrong(magic);
        for (size_t sl = bl > 40 ? mx : 4; sl <= mx; sl++) {
            if (bl > 2 && bl <= 40 && !th && sl % 5 != bl % 5) continue;
            vec_need(&b, 5 * bl); b.n = 4 * bl + bl / 3; mc_fill(b.p, b.n, bl * 7 + 1);
            rs_signature_t *ss = sig_of(b.p, b.n, bl, bl <= 40 ? sl : bl % 3 ? sl : 5 + bl % 12, magic, bl % 4 ? S0 : SB);
            for (int v = 0; v < 6; v++) { if (!th && bl > 70000 && v > 3) break; one_shared(ss, b.p, b.n, bl, magic, v); }
            rs_free_sumset(ss);
        }
    }
    /* strong lengths of 1..3 bytes rely on the weak sum: long random blocks only */
    for (int mi = 0; mi < 4; mi++) for (size_t sl = 1; sl <= 3; sl++) for (size_t bl = 50; bl < 60; bl++) {
        if (!mc_case()) continue;
        mc_desc("block_len %zu, magic %#x, strong length %zu", bl, ref_magics[mi], sl);
        vec_need(&b, 5 * bl); b.n = 4 * bl + bl / 3; mc_fill(b.p, b.n, bl * 7 + 1);
        rs_signature_t *ss = sig_of(b.p, b.n, bl, sl, ref_magics[mi], S0);
        for (int v = 0; v < 6; v++) one_shared(ss, b.p, b.n, bl, ref_magics[mi], v);
        rs_free_sumset(ss);
    }
    free(b.p);
}

static void run(void)
{
    int th = M->thorough;
    R = mc_mapp(sizeof *R);
    rs_trace_to(quiet_sink);
    R->what = !strncmp(M->mode, "C01", 3) ? M_RT : !strncmp(M->mode, "C04", 3) ? M_GREEDY : !strncmp(M->mode, "C05", 3) ? M_FMT : M_STATS;
    int scaled = strstr(M->mode, "scaled") != NULL;
    static const tok ts[] = { {T_BLK, 0}, {T_BLK, 1}, {T_BLK, 2}, {T_TAIL, 0}, {T_PRE, 1}, {T_SUF, 0}, {T_LIT, 1}, {T_LIT, 5}, {T_LIT, 12}, {T_LIT, 13}, {T_LIT, 14}, {T_LIT, 27}, {T_MOD, 0}, {T_ZERO, 4} };
    static const size_t bls[] = {1, 2, 3, 4, 7, 16, 17, 40}, nbs[] = {0, 1, 2, 3, 5}, tails[] = {0, 1, 6};
    if (scaled) {   /* library built with a 16-byte command limit: every literal split position is reached by small inputs */
        part_small(2, th ? 6 : 5, th ? 9 : 7, 4, 1);
        part_segments(ts, 14, th ? 5 : 4, bls, 8, nbs + 2, 2, tails, 3, th ? 4 : 2, 1);
        return;
    }
    part_small(2, th ? 7 : 5, th ? 9 : 7, th ? 6 : 4, th ? 3 : 1);
    part_small(3, th ? 5 : 3, th ? 6 : 5, 3, 1);
    part_segments(ts, 14, th ? 4 : 3, bls, 8, nbs, 5, tails, 3, 4, 1);
    part_edits();
    part_bytes();
    part_litlen(th);
    part_params(th);
    static const tok tl[] = { {T_BLK, 0}, {T_BLK, 1}, {T_TAIL, 0}, {T_LIT, 1}, {T_LIT, 63}, {T_LIT, 64}, {T_LIT, 65}, {T_LIT, 255}, {T_LIT, 256}, {T_LIT, 257}, {T_LIT, 65531}, {T_LIT, 65532}, {T_LIT, 65533}, {T_LIT, 65534}, {T_LIT, 65535}, {T_LIT, 65536}, {T_LIT, 65537}, {T_LIT, 131065}, {T_LIT, 131066}, {T_LIT, 131067}, {T_LIT, 131072}, {T_ZERO, 70000} };
    static const size_t bll[] = {16, 100, 2048}, nbl2[] = {3}, taill[] = {9};
    part_segments(tl, 22, th ? 3 : 2, bll, 3, nbl2, 1, taill, 1, th ? 4 : 2, 0);
    if (th) { static const tok t3[] = { {T_BLK, 0}, {T_TAIL, 0}, {T_LIT, 65533}, {T_LIT, 65534}, {T_LIT, 65536}, {T_LIT, 131067}, {T_LIT, 7} }; part_segments(t3, 7, 4, bll, 3, nbl2, 1, taill, 1, 2, 0); }
    static const size_t many[] = {1, 2, 3, 5, 11, 12, 15, 16, 17, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2047, 2049, 5000, 16384, 40000, 65535, 65536, 65537, 70000}, mbl[] = {8, 16, 100, 256};
    part_many(many, 37, mbl, 4);
    part_virtual(R->what);
}
int main(int argc, char **argv) { return mc_main(argc, argv, run); }
