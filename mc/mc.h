/* Model-checking harness support: case enumeration over a pool of forked workers, crash and hang
 * detection, coverage counters, guard-page buffers.  All mutable harness state lives in mmap'd memory
 * (pointed to by variables that are constant after start-up), so that an explorer may snapshot and
 * restore the data segment of the program. */
#ifndef MC_H
#define MC_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MC_MAXW 64
#define MC_SETBITS 21
#define MC_NSAMP 3

typedef struct {
    volatile long cur_case;
    volatile uint64_t tick;
    uint64_t cases, evals, states, transitions, aux, distinct_over, trunc;
    int viol, hang, stopped;
    long viol_case, total_cases;
    char msg[3000];
    char samp[MC_NSAMP][700];
    int nsamp;
    char desc[1500];
    uint64_t nset;
} mc_wk;

typedef struct {
    int nw, id, thorough, verbose, want_desc, in_case;
    long only, seq, claim;
    double deadline;
    const char *mode;
    volatile long *next;
    mc_wk *w;                   /* this worker */
    mc_wk *all;
    uint64_t *set;              /* this worker's distinct set (shared memory) */
    uint64_t *allsets;
    uint64_t last_tick; int same_tick;
    long arg[8];
} mc_g;

static mc_g *M;

static inline void *mc_map(size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return p;
}
static inline void *mc_mapp(size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return p;
}
static inline double mc_now(void)
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
static inline uint64_t mc_mix(uint64_t h) { h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h; }
static inline uint64_t mc_hash(const void *p_, size_t n, uint64_t h)
{
    const unsigned char *p = p_;
    h ^= n * 0x9e3779b97f4a7c15ULL;
    while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x9fb21c651e98df25ULL; h ^= h >> 29; p += 8; n -= 8; }
    if (n) { uint64_t v = 0; memcpy(&v, p, n); h = (h ^ v) * 0x9fb21c651e98df25ULL; h ^= h >> 29; }
    return mc_mix(h);
}
/* Count a distinct non-trivial evaluation. */
static inline void mc_distinct(uint64_t h)
{
    uint64_t mask = (1ULL << MC_SETBITS) - 1, i = h & mask;
    if (!h) h = 1;
    if (M->w->nset > mask / 4 * 3) { M->w->distinct_over++; return; }
    while (M->set[i]) { if (M->set[i] == h) return; i = (i + 1) & mask; }
    M->set[i] = h; M->w->nset++;
}
static inline void mc_tick(void) { M->w->tick++; }
/* Advance to the next case; true if this worker must run it. */
static inline int mc_case(void)
{
    long s = M->seq++;
    M->in_case = 0;
    if (M->w->stopped) return 0;
    if (M->only >= 0) { if (s != M->only) return 0; M->want_desc = 1; }
    else {
        if (s != M->claim) return 0;
        M->claim = __sync_fetch_and_add(M->next, 1);
        if (mc_now() > M->deadline) { M->w->stopped = 1; return 0; }
        M->want_desc = (M->w->nsamp < MC_NSAMP && (M->id == 0) && (M->w->cases == 0 || M->w->cases == 5 || M->w->cases == 40));
    }
    M->w->cur_case = s; M->w->cases++; M->w->tick++; M->in_case = 1;
    M->w->desc[0] = 0;
    return 1;
}
static inline void mc_desc_(const char *fmt, ...)
{
    va_list va; va_start(va, fmt);
    size_t l = strlen(M->w->desc);
    vsnprintf(M->w->desc + l, sizeof M->w->desc - l, fmt, va);
    va_end(va);
    if (M->w->nsamp < MC_NSAMP && M->id == 0) snprintf(M->w->samp[M->w->nsamp++], sizeof M->w->samp[0], "case %ld: %s", M->w->cur_case, M->w->desc);
    if (M->only >= 0) fprintf(stderr, "case %ld: %s\n", M->w->cur_case, M->w->desc);
}
#define mc_desc(...) do { if (M->want_desc) { M->want_desc = 0; mc_desc_(__VA_ARGS__); } } while (0)
static void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void mc_fail(const char *fmt, ...)
{
    va_list va; va_start(va, fmt);
    vsnprintf(M->w->msg, sizeof M->w->msg, fmt, va);
    va_end(va);
    M->w->viol = 1; M->w->viol_case = M->w->cur_case;
    if (M->only >= 0) fprintf(stderr, "FAIL case %ld: %s\n", M->w->cur_case, M->w->msg);
    _exit(3);
}
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

#ifndef MC_HANG_CPU_S
#ifndef MC_HANG_CPU_S
#define MC_HANG_CPU_S 25
#endif
#endif
static void mc_prof(int sig)
{
    (void)sig;
    if (M->w->tick != M->last_tick) { M->last_tick = M->w->tick; M->same_tick = 0; return; }
    if (++M->same_tick >= MC_HANG_CPU_S) {
        M->w->hang = 1; M->w->viol = 1; M->w->viol_case = M->w->cur_case;
        strcpy(M->w->msg, "hang: a library call did not return within " "the CPU time limit");
        _exit(4);
    }
}
static void mc_jstr(const char *s)
{
    putchar('"');
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static int mc_cmp64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }

static int mc_main(int argc, char **argv, void (*run)(void))
{
    int i, nw = 8; double limit = 700;
    M = mc_map(sizeof *M);
    M->only = -1; M->mode = "";
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) M->thorough = 1;
        else if (!strcmp(argv[i], "-v")) M->verbose = 1;
        else if (!strcmp(argv[i], "--only")) M->only = atol(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--mode")) M->mode = argv[++i];
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 99; }
    }
    if (M->only >= 0) nw = 1;
    if (nw > MC_MAXW) nw = MC_MAXW;
    M->nw = nw;
    mc_wk *all = mc_map(sizeof(mc_wk) * (size_t)nw);
    uint64_t *sets = mc_map((8ULL << MC_SETBITS) * (size_t)nw);
    volatile long *next = mc_map(4096);
    *next = nw;
    double t0 = mc_now();
    pid_t pid[MC_MAXW]; int st[MC_MAXW];
    mc_g base = *M;
    fflush(stdout);
    for (i = 0; i < nw; i++) {
        if ((pid[i] = fork()) == 0) {
            mc_g *g = mc_mapp(sizeof *g);
            *g = base; M = g;
            M->id = i; M->claim = i; M->next = next; M->w = &all[i]; M->all = all;
            M->set = sets + ((size_t)i << MC_SETBITS); M->deadline = t0 + limit;
            all[i].cur_case = -1;
            signal(SIGPROF, mc_prof);
            struct itimerval it = { {1, 0}, {1, 0} };
            setitimer(ITIMER_PROF, &it, NULL);
            run();
            all[i].total_cases = M->seq;
            _exit(0);
        }
    }
    for (i = 0; i < nw; i++) while (waitpid(pid[i], &st[i], 0) < 0 && errno == EINTR) ;
    uint64_t cases = 0, evals = 0, states = 0, trans = 0, over = 0, aux = 0, trunc = 0, nd = 0; long total = 0; int stopped = 0, infra = 0;
    uint64_t cap = 0;
    for (i = 0; i < nw; i++) cap += all[i].nset;
    uint64_t *u = malloc((cap + 1) * 8), k = 0;
    for (i = 0; i < nw; i++) {
        mc_wk *w = &all[i];
        cases += w->cases; evals += w->evals; states += w->states; trans += w->transitions; over += w->distinct_over; aux += w->aux; trunc += w->trunc;
        if (w->total_cases > total) total = w->total_cases;
        stopped |= w->stopped;
        if (w->nset) for (uint64_t j = 0; j < (1ULL << MC_SETBITS); j++) { uint64_t h = sets[((size_t)i << MC_SETBITS) + j]; if (h) u[k++] = h; }
    }
    qsort(u, k, 8, mc_cmp64);
    for (uint64_t j = 0; j < k; j++) nd += j == 0 || u[j] != u[j - 1];
    int nviol = 0;
    printf("{\"cases\":%" PRIu64 ",\"total_cases\":%ld,\"evaluations\":%" PRIu64 ",\"distinct\":%" PRIu64 ",\"distinct_uncounted\":%" PRIu64
           ",\"states\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"aux\":%" PRIu64 ",\"truncated\":%" PRIu64 ",\"stopped\":%d,\"wall\":%.2f,\"samples\":[",
           cases, total, evals, nd, over, states, trans, aux, trunc, stopped, mc_now() - t0);
    for (i = 0; i < all[0].nsamp; i++) { if (i) putchar(','); mc_jstr(all[0].samp[i]); }
    printf("],\"violations\":[");
    for (i = 0; i < nw; i++) {
        mc_wk *w = &all[i]; char b[200];
        int dead = !(WIFEXITED(st[i]) && (WEXITSTATUS(st[i]) == 0 || WEXITSTATUS(st[i]) == 3 || WEXITSTATUS(st[i]) == 4));
        if (WIFEXITED(st[i]) && WEXITSTATUS(st[i]) == 99) { infra = 1; continue; }
        if (WIFSIGNALED(st[i]) && WTERMSIG(st[i]) == SIGKILL) { infra = 1; continue; }
        if (!w->viol && !dead) continue;
        if (!w->viol) {
            snprintf(b, sizeof b, WIFSIGNALED(st[i]) ? "crash: worker died with signal %d" : "crash: worker exited with status %d (abort or sanitizer)",
                     WIFSIGNALED(st[i]) ? WTERMSIG(st[i]) : WEXITSTATUS(st[i]));
            snprintf(w->msg, sizeof w->msg, "%s", b);
            w->viol_case = w->cur_case;
        }
        if (nviol++) putchar(',');
        printf("{\"case\":%ld,\"msg\":", w->viol_case); mc_jstr(w->msg); printf(",\"desc\":"); mc_jstr(w->desc); printf("}");
    }
    printf("],\"infra\":%d}\n", infra);
    return infra ? 99 : nviol ? 1 : 0;
}

/* ---- guard-page windows ---- */
typedef struct { unsigned char *base, *end; size_t cap; unsigned char *w; } mc_win;
/* A region of cap bytes whose end touches an inaccessible page. */
static inline mc_win mc_win_new(size_t cap)
{
    mc_win g; size_t pg = 4096, n = (cap + pg - 1) / pg * pg;
    unsigned char *p = mmap(NULL, n + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    mprotect(p + pg, n, PROT_READ | PROT_WRITE);
    g.base = p + pg; g.end = g.base + n; g.cap = n; g.w = g.base;
    return g;
}
/* Dual mapping: writable view w, read-only view base..end followed by an inaccessible page. */
static inline mc_win mc_win_ro(size_t cap)
{
    mc_win g; size_t pg = 4096, n = (cap + pg - 1) / pg * pg;
    int fd = memfd_create("mcwin", 0);
    if (fd < 0 || ftruncate(fd, (off_t)n)) { perror("memfd"); _exit(99); }
    unsigned char *p = mmap(NULL, n + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mmap(p + pg, n, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(99); }
    g.base = p + pg; g.end = g.base + n; g.cap = n;
    g.w = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g.w == MAP_FAILED) { perror("mmap"); _exit(99); }
    close(fd);
    return g;
}
/* Deterministic bytes. */
static inline uint32_t mc_rnd(uint64_t *s) { *s = *s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(*s >> 33); }
static inline void mc_fill(void *p_, size_t n, uint64_t seed)
{
    unsigned char *p = p_; uint64_t s = mc_mix(seed + 77);
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(mc_rnd(&s) >> 5);
}
static inline void mc_hex(char *o, size_t cap, const void *p_, size_t n)
{
    const unsigned char *p = p_; size_t i, k = 0;
    for (i = 0; i < n && k + 6 < cap; i++) k += (size_t)sprintf(o + k, "%02x", p[i]);
    if (i < n) strcpy(o + k, "..");
    else o[k] = 0;
}
#endif
