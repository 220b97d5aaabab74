/* Arena allocator behind -Wl,--wrap=malloc,calloc,realloc,free,time: every allocation of the library goes to a
 * fixed arena with redzones and a ledger, so the whole state of a job can be saved, hashed and restored. */
#ifndef ARENA_H
#define ARENA_H
#include "mc.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define AR_CAP (8u << 20)
#define AR_RZ 16
#define AR_MAGIC 0x41524e4142ULL
#define AR_DEAD  0x44454144ULL
typedef struct { uint64_t magic, size, span, serial; } ar_hdr;      /* 32 bytes, then RZ, payload, RZ */
typedef struct {
    int on; int fill; long fail_at; long nalloc, nfree, live; size_t live_bytes; const char *bad; size_t top; size_t maxone; long failed;
} ar_ctl;
static unsigned char *AR;       /* arena memory */
static ar_ctl *AC;
static void ar_init(void)
{
    AR = mmap((void *)0x600000000000ULL, AR_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (AR == MAP_FAILED) { perror("arena"); _exit(99); }
    AC = mc_mapp(sizeof *AC); AC->fill = 0xCD; AC->fail_at = -1;
}
static inline int ar_in(const void *p) { return AR && (const unsigned char *)p >= AR && (const unsigned char *)p < AR + AR_CAP; }
static void ar_reset(void) { memset(AR, 0, AC->top); AC->top = 0; AC->nalloc = AC->nfree = AC->live = 0; AC->live_bytes = 0; AC->bad = NULL; AC->fail_at = -1; AC->failed = 0; }
static void *ar_alloc(size_t n)
{
    size_t span = sizeof(ar_hdr) + 2 * AR_RZ + ((n + 15) & ~(size_t)15);
    if (AC->fail_at >= 0 && AC->nalloc == AC->fail_at) { AC->nalloc++; AC->failed++; return NULL; }
    if (n > AR_CAP || AC->top + span > AR_CAP) { AC->bad = "allocation larger than the arena"; return NULL; }
    ar_hdr *h = (ar_hdr *)(AR + AC->top);
    AC->top += span;
    h->magic = AR_MAGIC; h->size = n; h->span = span; h->serial = (uint64_t)AC->nalloc;
    unsigned char *p = (unsigned char *)(h + 1);
    memset(p, 0xFA, AR_RZ); memset(p + AR_RZ, AC->fill, n); memset(p + AR_RZ + n, 0xFB, span - sizeof *h - AR_RZ - n);
    AC->nalloc++; AC->live++; AC->live_bytes += n;
    return p + AR_RZ;
}
static const char *ar_check1(ar_hdr *h)
{
    unsigned char *p = (unsigned char *)(h + 1); size_t i;
    if (h->magic == AR_MAGIC) {
        for (i = 0; i < AR_RZ; i++) if (p[i] != 0xFA) return "memory before an allocation overwritten";
        for (i = AR_RZ + h->size; i < h->span - sizeof *h; i++) if (p[i] != 0xFB) return "memory after an allocation overwritten";
    } else if (h->magic == AR_DEAD) {
        for (i = 0; i < h->span - sizeof *h; i++) if (p[i] != 0xDD) return "freed memory written to";
    } else return "allocation header overwritten";
    return NULL;
}
static const char *ar_check(void)
{
    size_t o = 0; const char *r;
    if (AC->bad) return AC->bad;
    while (o < AC->top) { ar_hdr *h = (ar_hdr *)(AR + o); if ((r = ar_check1(h))) return r; o += h->span; }
    return NULL;
}
static void ar_free(void *v)
{
    unsigned char *p = (unsigned char *)v - AR_RZ; ar_hdr *h = (ar_hdr *)p - 1; size_t o = 0; int found = 0;
    while (o < AC->top) { ar_hdr *x = (ar_hdr *)(AR + o); if (x == h) { found = 1; break; } if (x > h || !x->span) break; o += x->span; }
    if (!found) { AC->bad = "free of a pointer that was not allocated"; return; }
    if (h->magic == AR_DEAD) { AC->bad = "double free"; return; }
    const char *r = ar_check1(h);
    if (r) { AC->bad = r; return; }
    AC->nfree++; AC->live--; AC->live_bytes -= h->size;
    h->magic = AR_DEAD; h->size = 0; h->serial = 0;
    memset(p, 0xDD, h->span - sizeof *h);
    if ((unsigned char *)h + h->span == AR + AC->top) { AC->top -= h->span; memset(h, 0, h->span); }
}
void *__wrap_malloc(size_t n) { return AC && AC->on ? ar_alloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
    if (!(AC && AC->on)) return __real_calloc(a, b);
    if (b && a > SIZE_MAX / b) return NULL;
    void *p = ar_alloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void __wrap_free(void *p) { if (!p) return; if (ar_in(p)) ar_free(p); else { if (AC && AC->on) { AC->bad = "free of memory the library did not allocate"; return; } __real_free(p); } }
void *__wrap_realloc(void *p, size_t n)
{
    if (!(AC && AC->on) && !ar_in(p)) return __real_realloc(p, n);
    void *q = ar_alloc(n);
    if (q && p) { ar_hdr *h = (ar_hdr *)((unsigned char *)p - AR_RZ) - 1; size_t k = h->size < n ? h->size : n; memcpy(q, p, k); ar_free(p); }
    return q;
}
time_t __wrap_time(time_t *t) { if (t) *t = 1000000; return 1000000; }
#define AR_WRAP "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=time"
#endif
