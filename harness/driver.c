/* Executes scripts of calls on the real libspot and records, after each call,
 * the arguments, the returned value and the whole observable state.
 *
 *   driver SCRIPT TRACE
 *
 * One script = the lines between two "new" lines; each script runs in a forked
 * child so that a crash or a hang is itself a recorded event.  Doubles are
 * written as [hi32, lo32] and read as 16 hexadecimal digits.
 */
#define _GNU_SOURCE
#include "brent.h"
#include "estimator.h"
#include "p2.h"
#include "spot.h"
#include "xmath.h"
#include "allocator.h"
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXD 64
#define GUARD 64

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNWRITTEN(p, n) __msan_allocated_memory(p, n)
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define WITH_ASAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN
#endif
#endif
#ifdef WITH_ASAN /* the sanitizer stops any access to the guards */
#include <sanitizer/asan_interface.h>
#define FORBID(p, n) __asan_poison_memory_region(p, n)
#define ALLOW(p, n) __asan_unpoison_memory_region(p, n)
#define UNCHECKED __attribute__((no_sanitize("address")))
#elif defined(UNWRITTEN)
#define FORBID(p, n) UNWRITTEN(p, n)
#define ALLOW(p, n) ((void)0)
#define UNCHECKED __attribute__((no_sanitize("memory")))
#else
#define FORBID(p, n) ((void)0)
#define ALLOW(p, n) ((void)0)
#define UNCHECKED
#endif
#ifndef UNWRITTEN /* memory that the library has to write before it uses it */
#define UNWRITTEN(p, n) ((void)0)
#endif

/* what a call leaves is per thread: threads drive their own detectors */
static __thread FILE *out;
static int watch = 0;   /* log the other detectors as well */
static int fullwin = 1; /* log the stored excesses */

/* ------------------------------------------------------------- doubles -- */
static double bits(const char *s) {
    uint64_t u = strtoull(s, NULL, 16);
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static void pd(double x) {
    uint64_t u;
    memcpy(&u, &x, 8);
    if (x != x)
        u = 0x7ff8000000000000ull;
    fprintf(out, "[%d,%d]", (int)(int32_t)(u >> 32), (int)(int32_t)u);
}
static void kd(const char *k, double x) {
    fprintf(out, ",\"%s\":", k);
    pd(x);
}
static void ki(const char *k, long x) { fprintf(out, ",\"%s\":%ld", k, x); }
static double ulps(double x, long k) {
    for (; k > 0; k--)
        x = nextafter(x, INFINITY);
    for (; k < 0; k++)
        x = nextafter(x, -INFINITY);
    return x;
}
static int cmpd(const void *a, const void *b) {
    double x = *(const double *)a, y = *(const double *)b;
    if (x != x)
        return y != y ? 0 : 1;
    if (y != y)
        return -1;
    return x < y ? -1 : x > y;
}

/* ---------------------------------------------------------- allocators -- */
struct block {
    struct block *next;
    size_t size;
    int family;
    unsigned char *user;
};
static __thread struct block *blocks = NULL;
static __thread long n_malloc = 0, n_free = 0, n_bad = 0, n_direct = 0, n_live = 0;
static __thread long fail_in = -1; /* the fail_in-th next allocation fails */
static __thread int fail_all = 0;
static __thread int in_lib = 0, in_alloc = 0;
static __thread double last_size = -1;
static __thread int last_ok = -1; /* -1: allocator not called by this call */
static __thread int last_af = -1, last_ff = -1; /* families called by this call */

void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) {
    if (in_lib && !in_alloc)
        n_direct++;
    return __real_malloc(n);
}
void __wrap_free(void *p) {
    if (in_lib && !in_alloc)
        n_direct++;
    __real_free(p);
}
void *__wrap_calloc(size_t n, size_t m) {
    if (in_lib && !in_alloc)
        n_direct++;
    return __real_calloc(n, m);
}
void *__wrap_realloc(void *p, size_t n) {
    if (in_lib && !in_alloc)
        n_direct++;
    return __real_realloc(p, n);
}

static void *gmalloc(size_t size, int family) {
    in_alloc = 1;
    n_malloc++;
    last_size = (double)size;
    last_ok = 0;
    last_af = family;
    void *r = NULL;
    int fail = fail_all;
    if (fail_in >= 0 && fail_in-- == 0)
        fail = 1;
    if (!fail && size <= (1u << 28)) {
        struct block *b = __real_malloc(sizeof(*b));
        unsigned char *raw = __real_malloc(size + 2 * GUARD);
        memset(raw, 0xA5, size + 2 * GUARD);
        UNWRITTEN(raw + GUARD, size);
        FORBID(raw, GUARD);
        FORBID(raw + GUARD + size, GUARD);
        b->next = blocks;
        b->size = size;
        b->family = family;
        b->user = raw + GUARD;
        blocks = b;
        n_live++;
        last_ok = 1;
        r = b->user;
    }
    in_alloc = 0;
    return r;
}
UNCHECKED static int guard_ok(struct block *b) {
    for (int i = 0; i < GUARD; i++)
        if (b->user[-1 - i] != 0xA5 || b->user[b->size + i] != 0xA5)
            return 0;
    return 1;
}
static void gfree(void *p, int family) {
    in_alloc = 1;
    n_free++;
    last_ff = family;
    struct block **q = &blocks;
    while (*q && (*q)->user != p)
        q = &(*q)->next;
    if (!*q) {
        n_bad++;
    } else {
        struct block *b = *q;
        if (!guard_ok(b))
            n_bad++;
        *q = b->next;
        memset(b->user, 0x5A, b->size);
        ALLOW(b->user - GUARD, b->size + 2 * GUARD);
        __real_free(b->user - GUARD);
        __real_free(b);
        n_live--;
    }
    in_alloc = 0;
}
static void *mallocA(size_t n) { return gmalloc(n, 0); }
static void *mallocB(size_t n) { return gmalloc(n, 1); }
static void freeA(void *p) { gfree(p, 0); }
static void freeB(void *p) { gfree(p, 1); }

/* ------------------------------------------------------------ detectors -- */
struct guarded {
    unsigned char before[GUARD];
    struct Spot spot;
    unsigned char after[GUARD];
};
static struct guarded dets[MAXD];
static int used[MAXD];

UNCHECKED static int all_guards_ok(void) {
    for (struct block *b = blocks; b; b = b->next)
        if (!guard_ok(b))
            return 0;
    for (int d = 0; d < MAXD; d++)
        for (int i = 0; i < GUARD; i++)
            if (dets[d].before[i] != 0xC3 || dets[d].after[i] != 0xC3)
                return 0;
    return 1;
}

/* does the detector own a live block (of the right size)? */
static int owns(struct Spot const *s) {
    unsigned char *p = (unsigned char *)s->tail.peaks.container.data;
    if (!p)
        return 0;
    for (struct block *b = blocks; b; b = b->next)
        if (b->user == p)
            return b->size >= s->tail.peaks.container.capacity * sizeof(double)
                       ? 1
                       : -1;
    return -1;
}

static void put_win(double const *data, unsigned long size) {
    double *w = __real_malloc((size ? size : 1) * sizeof(double));
    memcpy(w, data, size * sizeof(double));
    qsort(w, size, sizeof(double), cmpd);
    fputc('[', out);
    for (unsigned long i = 0; i < size; i++) {
        if (i)
            fputc(',', out);
        pd(w[i]);
    }
    fputc(']', out);
    __real_free(w);
}

static void put_spot(struct Spot const *s) {
    struct Peaks const *p = &s->tail.peaks;
    int own = owns(s);
    unsigned long size = own == 1 ? ubend_size(&p->container) : 0;
    fprintf(out, "{\"al\":%d", own);
    kd("q", s->q);
    kd("level", s->level);
    ki("low", s->low);
    ki("disc", s->discard_anomalies);
    kd("cap", (double)p->container.capacity);
    kd("n", (double)s->n);
    kd("Nt", (double)s->Nt);
    kd("et", s->excess_threshold);
    kd("zq", s->anomaly_threshold);
    kd("g", s->tail.gamma);
    kd("s", s->tail.sigma);
    kd("e", p->e);
    kd("e2", p->e2);
    kd("mn", p->min);
    kd("mx", p->max);
    kd("mean", peaks_mean(p));
    kd("var", peaks_var(p));
    ki("size", (long)size);
    int full = fullwin && own == 1;
    ki("full", full);
    fprintf(out, ",\"win\":");
    if (full)
        put_win(p->container.data, size);
    else
        fprintf(out, "[]");
    fprintf(out, "}");
}

static void put_mem(void) {
    fprintf(out,
            ",\"mem\":{\"m\":%ld,\"f\":%ld,\"live\":%ld,\"bad\":%ld,"
            "\"direct\":%ld,\"guard\":%d,\"ok\":%d,\"af\":%d,\"ff\":%d,"
            "\"sz\":",
            n_malloc, n_free, n_live, n_bad, n_direct, all_guards_ok(),
            last_ok, last_af, last_ff);
    pd(last_size);
    fprintf(out, "}");
}

static void finish(int d) {
    if (d >= 0) {
        fprintf(out, ",\"st\":");
        put_spot(&dets[d].spot);
        if (watch) {
            fprintf(out, ",\"oth\":[");
            int first = 1;
            for (int i = 0; i < MAXD; i++)
                if (used[i] && i != d) {
                    if (!first)
                        fputc(',', out);
                    first = 0;
                    fprintf(out, "{\"d\":%d,\"st\":", i);
                    put_spot(&dets[i].spot);
                    fputc('}', out);
                }
            fprintf(out, "]");
        }
    }
    put_mem();
    fprintf(out, "}\n");
}

static void begin(const char *k, int d) {
    fprintf(out, "{\"k\":\"%s\",\"d\":%d", k, d);
}

#define LIB(stmt)                                                             \
    do {                                                                      \
        last_ok = last_af = last_ff = -1;                                     \
        last_size = -1;                                                       \
        in_lib = 1;                                                           \
        stmt;                                                                 \
        in_lib = 0;                                                           \
    } while (0)

/* --------------------------------------------------------- float utils -- */
static long c_ldexp = 0, c_frexp = 0;
static double my_ldexp(double x, int e) {
    c_ldexp++;
    return ldexp(x, e);
}
static double my_frexp(double x, int *e) {
    c_frexp++;
    return frexp(x, e);
}

/* ------------------------------------------------- functions for brent -- */
#define MAXNODE 64
struct fun {
    int id;
    int n;
    double p[MAXNODE];
    double ev[1024], fv[1024];
    int nev;
    long total;
    struct fun *self;
    int badctx;
};
static double fval(struct fun *f, double x) {
    double *p = f->p;
    switch (f->id) {
    case 0: { /* piecewise linear through (i, p[i]), extended */
        int n = f->n;
        int i = (int)floor(x);
        if (i < 0)
            i = 0;
        if (i > n - 2)
            i = n - 2;
        return p[i] + (x - i) * (p[i + 1] - p[i]);
    }
    case 1: /* cubic a(x-r)^3 + b(x-r) */
        return p[0] * pow(x - p[1], 3) + p[2] * (x - p[1]);
    case 2: /* steep arctangent */
        return atan(p[0] * (x - p[1]));
    case 3: /* exponential minus constant */
        return exp(p[0] * x) - p[1];
    case 4: /* odd power, flat root */
        return pow(fabs(x - p[0]), p[1]) * (x < p[0] ? -1 : 1) * p[2];
    case 5: /* several roots */
        return sin(p[0] * x + p[1]) * p[2];
    case 6: /* rational, close to a pole-like steep part */
        return p[2] * (x - p[0]) / (1 + fabs(x - p[0]) * p[1]);
    case 7: /* very unbalanced magnitudes */
        return x < p[0] ? -p[1] * (p[0] - x) : p[2] * (x - p[0]);
    case 8: /* x e^{-x^2} like: tiny values far from the root */
        return (x - p[0]) * exp(-p[1] * (x - p[0]) * (x - p[0]));
    case 10: /* flat root, unequal sides */
        return (x < p[0] ? -p[1] : p[2]) * pow(fabs(x - p[0]), p[3]);
    case 11: /* slow trend, oscillations */
        return atan(p[1] * (x - p[0])) + p[3] * sin(p[2] * (x - p[0]));
    case 12: /* steep exponential */
        return p[2] * (exp(p[1] * x) - exp(p[1] * p[0]));
    case 13: /* logarithm, close to its pole */
        return p[1] * (log(1e-9 + x) - log(1e-9 + p[0]));
    case 9: /* discontinuous sign */
        return x < p[0] ? -p[1] : p[2];
    }
    return 0.0 / 0.0;
}
/* An independent search (Brent's method): the points and values of a run that
 * the specification recognizes as its own.  Used when the library finds no
 * root, to know whether one can be found within the allowed steps. */
static int ref_search(struct fun *f, double a, double b, double tol,
                      double *xs, double *ys) {
    int n = 0;
    double fa = fval(f, a), fb = fval(f, b), c = b, fc = fb, d = 0, e = 0;
    xs[n] = a, ys[n++] = fa;
    xs[n] = b, ys[n++] = fb;
    if (fa * fb > 0 && fa == fa && fb == fb && ((fa > 0) == (fb > 0)))
        return n;
    for (int it = 0; it < 200; it++) {
        if ((fb > 0 && fc > 0) || (fb < 0 && fc < 0)) {
            c = a, fc = fa;
            e = d = b - a;
        }
        if (fabs(fc) < fabs(fb)) {
            a = b, b = c, c = a;
            fa = fb, fb = fc, fc = fa;
        }
        double t = 2.0 * 2.0e-8 * fabs(b) + 0.5 * tol, m = 0.5 * (c - b);
        if (fabs(m) <= t || fb == 0)
            return n;
        int interp = 0;
        if (fabs(e) >= t && fabs(fa) > fabs(fb)) {
            double s = fb / fa, p, q;
            if (a == c) {
                p = 2.0 * m * s;
                q = 1.0 - s;
            } else {
                q = fa / fc;
                double r = fb / fc;
                p = s * (2.0 * m * q * (q - r) - (b - a) * (r - 1.0));
                q = (q - 1.0) * (r - 1.0) * (s - 1.0);
            }
            if (p > 0)
                q = -q;
            p = fabs(p);
            double u = 3.0 * m * q - fabs(t * q), v = fabs(e * q);
            if (2.0 * p < (u < v ? u : v)) {
                interp = 1;
                e = d;
                d = p / q;
            }
        }
        if (!interp)
            d = e = m;
        a = b, fa = fb;
        if (fabs(d) > t)
            b += d;
        else
            b += m >= 0 ? t : -t;
        fb = fval(f, b);
        xs[n] = b, ys[n++] = fb;
    }
    return n;
}
static double fcall(double x, void *extra) {
    struct fun *f = extra;
    if (f->self != f) {
        f->badctx = 1;
    }
    double y = fval(f, x);
    if (f->nev < 1024) {
        f->ev[f->nev] = x;
        f->fv[f->nev] = y;
        f->nev++;
    }
    f->total++;
    return y;
}

/* ---------------------------------------------------- low-level objects -- */
static struct Ubend ub;
static struct Peaks pk;
static struct Tail tl;

static void put_peaks(struct Peaks const *p, int has) {
    fprintf(out, ",\"size\":%ld", (long)peaks_size(p));
    kd("cap", (double)p->container.capacity);
    kd("e", p->e);
    kd("e2", p->e2);
    kd("mn", p->min);
    kd("mx", p->max);
    kd("mean", peaks_mean(p));
    kd("var", peaks_var(p));
    fprintf(out, ",\"full\":%d,\"win\":", fullwin);
    if (fullwin && has)
        put_win(p->container.data, peaks_size(p));
    else
        fprintf(out, "[]");
}

/* --------------------------------------------------------------- script -- */
static __thread char *saved;
static char *tok(void) { return strtok_r(NULL, " \t\n", &saved); }
static double td(void) {
    char *t = tok();
    if (!t) {
        fprintf(stderr, "missing token\n");
        exit(77);
    }
    return bits(t);
}
static long ti(void) {
    char *t = tok();
    if (!t) {
        fprintf(stderr, "missing token\n");
        exit(77);
    }
    return strtol(t, NULL, 10);
}

static double relative(struct Spot const *s, char m) {
    double ud = s->low ? -1.0 : 1.0;
    double et = s->excess_threshold, zq = s->anomaly_threshold;
    if (m == 'v')
        return td();
    if (m == 'T') { /* k ulps beyond the excess threshold */
        long k = ti();
        return et != et ? ud * (1.0 + k) : ulps(et, (s->low ? -1 : 1) * k);
    }
    if (m == 'Z') { /* k ulps beyond the anomaly threshold */
        long k = ti();
        return zq != zq ? ud * (2.0 + k) : ulps(zq, (s->low ? -1 : 1) * k);
    }
    if (m == 'M') { /* et + f (zq - et) */
        double f = td();
        double x = et + f * (zq - et);
        return x != x ? ud * f : x;
    }
    if (m == 'A') { /* at distance f beyond the excess threshold */
        double f = td();
        double x = et + ud * f;
        return x != x ? ud * f : x;
    }
    fprintf(stderr, "bad mode %c\n", m);
    exit(77);
}

/* independent data of a known distribution */
static __thread uint64_t calib_state;
static double calib_unif(void) {
    uint64_t z = calib_state += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    return ((double)(z >> 11) + 0.5) / 9007199254740992.0;
}
static double calib_draw(int dist) {
    double u = calib_unif();
    switch (dist) {
    case 0: /* uniform: gamma = -1 */
        return u;
    case 1: /* exponential: gamma = 0 */
        return 20.0 * -log(u);
    case 2: /* gaussian */
        return 5.0 + 3.0 * sqrt(-2.0 * log(u)) * cos(6.283185307179586 * calib_unif());
    case 3: /* Pareto: gamma = 0.3 */
        return 100.0 * pow(u, -0.3);
    case 4: /* sum of three exponentials */
        return -log(u) - log(calib_unif()) - log(calib_unif());
    default: /* Laplace, far from zero */
        return 1e4 + (calib_unif() < 0.5 ? log(u) : -log(u));
    }
}

/* a hang is a crash: limit the CPU time of a group of scripts */
static void cpu_limit(int seconds) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, NULL);
}

static void run_line(char *line);

/* threads: "par T line" gives a line to thread T, "join" runs the threads */
#define MAXT 8
static struct par {
    char **lines;
    size_t n;
    char *mem;
    size_t size;
} par[MAXT];
static pthread_barrier_t start_line;
static void *par_run(void *arg) {
    struct par *p = arg;
    out = open_memstream(&p->mem, &p->size);
    pthread_barrier_wait(&start_line);
    for (size_t i = 0; i < p->n; i++)
        run_line(p->lines[i]);
    fclose(out);
    return NULL;
}
static void par_join(void) {
    pthread_t th[MAXT];
    unsigned k = 0;
    for (int t = 0; t < MAXT; t++)
        k += par[t].n > 0;
    pthread_barrier_init(&start_line, NULL, k);
    for (int t = 0; t < MAXT; t++)
        if (par[t].n && pthread_create(&th[t], NULL, par_run, &par[t]))
            exit(77);
    for (int t = 0; t < MAXT; t++)
        if (par[t].n) {
            pthread_join(th[t], NULL);
            fwrite(par[t].mem, 1, par[t].size, out);
            __real_free(par[t].mem);
            par[t].n = 0;
        }
    pthread_barrier_destroy(&start_line);
}

static void run_line(char *line) {
    char *c = strtok_r(line, " \t\n", &saved);
    if (!c || c[0] == '#')
        return;
    if (!strcmp(c, "new")) {
        set_allocators(mallocA, freeA);
        fail_in = -1;
        fail_all = watch = 0;
        fullwin = 1;
        n_malloc = n_free = n_bad = n_direct = 0;
        while (blocks) { /* forget the leaks of the previous script */
            struct block *b = blocks;
            blocks = b->next;
            ALLOW(b->user - GUARD, b->size + 2 * GUARD);
            __real_free(b->user - GUARD);
            __real_free(b);
        }
        n_live = 0;
        memset(used, 0, sizeof used);
        fprintf(out, "{\"k\":\"new\",\"d\":-1,\"id\":%ld}\n", ti());
        return;
    }
    if (!strcmp(c, "par")) {
        struct par *p = &par[ti() % MAXT];
        if (p->n % 64 == 0)
            p->lines = __real_realloc(p->lines, (p->n + 64) * sizeof(char *));
        p->lines[p->n++] = saved;
        return;
    }
    if (!strcmp(c, "join")) {
        par_join();
        return;
    }
    if (!strcmp(c, "watch")) {
        watch = ti();
        return;
    }
    if (!strcmp(c, "fullwin")) {
        fullwin = ti();
        return;
    }
    if (!strcmp(c, "alloc")) { /* A, B, 0 (no malloc), N (nothing), F (no free) */
        char *m = tok();
        if (m[0] == 'A')
            set_allocators(mallocA, freeA);
        if (m[0] == 'B')
            set_allocators(mallocB, freeB);
        if (m[0] == '0')
            set_allocators(NULL, freeA);
        if (m[0] == 'F')
            set_allocators(mallocA, NULL);
        if (m[0] == 'N')
            set_allocators(NULL, NULL);
        begin("alloc", -1);
        fprintf(out, ",\"mode\":\"%c\"", m[0]);
        put_mem();
        fprintf(out, "}\n");
        return;
    }
    if (!strcmp(c, "twin")) { /* twin a b relation */
        int a = ti(), b = ti();
        char *rel = tok();
        fprintf(out, "{\"k\":\"twin\",\"d\":-1,\"a\":%d,\"b\":%d,\"rel\":\"%s\"}\n",
                a, b, rel);
        return;
    }
    if (!strcmp(c, "mark")) { /* forget the log of a detector */
        fprintf(out, "{\"k\":\"mark\",\"d\":-1,\"a\":%d}\n", (int)ti());
        return;
    }
    if (!strcmp(c, "move")) { /* move a b : the detector goes to another address */
        int a = ti(), b = ti();
        memcpy(&dets[b].spot, &dets[a].spot, sizeof(struct Spot));
        memset(&dets[a].spot, 0x5A, sizeof(struct Spot));
        UNWRITTEN(&dets[a].spot, sizeof(struct Spot));
        used[b] = used[a];
        used[a] = 0;
        fprintf(out, "{\"k\":\"move\",\"d\":-1,\"a\":%d,\"b\":%d}\n", a, b);
        return;
    }
    if (!strcmp(c, "failin")) {
        fail_in = ti();
        return;
    }
    if (!strcmp(c, "failall")) {
        fail_all = ti();
        return;
    }
    if (!strcmp(c, "junk")) { /* fill the memory of a detector */
        int d = ti();
        int b = ti();
        if (b >= 0)
            memset(&dets[d].spot, b, sizeof(struct Spot));
        else { /* pseudo random content */
            unsigned x = 12345u + (unsigned)(-b);
            unsigned char *p = (unsigned char *)&dets[d].spot;
            for (size_t i = 0; i < sizeof(struct Spot); i++) {
                x = x * 1103515245u + 12345u;
                p[i] = x >> 16;
            }
        }
        UNWRITTEN(&dets[d].spot, sizeof(struct Spot));
        used[d] = 0;
        return;
    }
    if (!strcmp(c, "init")) { /* init d q low disc level cap */
        int d = ti();
        double q = td();
        int low = (int)ti(), disc = (int)ti();
        double level = td();
        unsigned long cap = strtoul(tok(), NULL, 10);
        struct Spot *s = &dets[d].spot;
        unsigned char copy[sizeof(struct Spot)];
        memcpy(copy, s, sizeof copy);
        int r;
        LIB(r = spot_init(s, q, low, disc, level, cap));
        begin("init", d);
        kd("q", q);
        ki("low", low);
        ki("disc", disc);
        kd("level", level);
        kd("cap", (double)cap);
        ki("ret", r);
        /* a refused initialisation leaves the memory as it was: no state */
        if (r == 0 || r == -ERR_MEMORY_ALLOCATION_FAILED) {
            used[d] = 1;
            ki("has", 1);
            finish(d);
        } else {
            ki("has", 0);
            finish(-1);
        }
        return;
    }
    if (!strcmp(c, "fit")) { /* fit d n v... */
        int d = ti();
        long n = ti();
        double *x = __real_malloc((n ? n : 1) * sizeof(double));
        for (long i = 0; i < n; i++)
            x[i] = td();
        /* exact size buffer: an overread is seen by the sanitizer */
        double *y = n ? __real_malloc(n * sizeof(double)) : NULL;
        if (n)
            memcpy(y, x, n * sizeof(double));
        int r;
        LIB(r = spot_fit(&dets[d].spot, y, n));
        int same = !n || !memcmp(x, y, n * sizeof(double));
        begin("fit", d);
        fprintf(out, ",\"data\":[");
        for (long i = 0; i < n; i++) {
            if (i)
                fputc(',', out);
            pd(x[i]);
        }
        fprintf(out, "]");
        ki("ro", same);
        ki("ret", r);
        finish(d);
        __real_free(x);
        if (y)
            __real_free(y);
        return;
    }
    if (!strcmp(c, "step")) {
        int d = ti();
        char m = tok()[0];
        double x = relative(&dets[d].spot, m);
        int r;
        LIB(r = spot_step(&dets[d].spot, x));
        begin("step", d);
        kd("x", x);
        ki("ret", r);
        finish(d);
        return;
    }
    if (!strcmp(c, "bulk")) { /* bulk d count mode arg: count identical steps */
        int d = ti();
        long cnt = ti();
        char m = tok()[0];
        double x = relative(&dets[d].spot, m);
        long res[3] = {0, 0, 0}, err = 0;
        for (long i = 0; i < cnt; i++) {
            int r;
            LIB(r = spot_step(&dets[d].spot, x));
            if (r >= 0 && r < 3)
                res[r]++;
            else
                err++;
        }
        begin("bulk", d);
        kd("x", x);
        kd("cnt", (double)cnt);
        kd("r0", (double)res[0]);
        kd("r1", (double)res[1]);
        kd("r2", (double)res[2]);
        kd("re", (double)err);
        finish(d);
        return;
    }
    if (!strcmp(c, "quant")) { /* quant d v bits | quant d R f (f Nt/n) | quant d Q */
        int d = ti();
        char m = tok()[0];
        struct Spot *s = &dets[d].spot;
        double r, x = 0;
        if (m == 'v')
            x = td();
        else if (m == 'R')
            x = td() * ((double)s->Nt / (double)s->n);
        else
            x = s->q;
        LIB(r = spot_quantile(s, x));
        begin("quant", d);
        kd("r", x);
        kd("ret", r);
        finish(d);
        return;
    }
    if (!strcmp(c, "prob")) {
        int d = ti();
        char m = tok()[0];
        double r, x = relative(&dets[d].spot, m);
        LIB(r = spot_probability(&dets[d].spot, x));
        begin("prob", d);
        kd("z", x);
        kd("ret", r);
        finish(d);
        return;
    }
    if (!strcmp(c, "dict")) { /* the container as it is laid out */
        int d = ti();
        struct Ubend const *u = &dets[d].spot.tail.peaks.container;
        unsigned long size = owns(&dets[d].spot) == 1 ? ubend_size(u) : 0;
        begin("dict", d);
        ki("ret", 0);
        kd("cursor", (double)u->cursor);
        ki("filled", u->filled);
        kd("led", u->last_erased_data);
        fprintf(out, ",\"data\":[");
        for (unsigned long i = 0; i < size; i++) {
            if (i)
                fputc(',', out);
            pd(u->data[i]);
        }
        fprintf(out, "]");
        finish(d);
        return;
    }
    if (!strcmp(c, "calib")) { /* calib d dist scale loc seed nfit nstep runs */
        int d = ti();
        int dist = ti();
        double scale = td(), loc = td();
        cpu_limit(200);
        long seed = ti(), nfit = ti(), nstep = ti(), runs = ti();
        struct Spot *s = &dets[d].spot;
        double sg = s->low ? -1.0 : 1.0;
        double *x = __real_malloc(nfit * sizeof(double));
        begin("calib", d);
        ki("dist", dist);
        kd("nstep", (double)nstep);
        fprintf(out, ",\"runs\":[");
        for (long run = 0; run < runs; run++) {
            calib_state = 0x9E3779B97F4A7C15ull * (uint64_t)(seed + 1000003 * run + 1);
#define DRAW (sg * (loc + scale * calib_draw(dist)))
            for (long i = 0; i < nfit; i++)
                x[i] = DRAW;
            int r;
            LIB(r = spot_fit(s, x, nfit));
            long beyond = 0, excess = 0, err = 0;
            for (long i = 0; i < nstep; i++) {
                double y = DRAW;
                beyond += sg * (y - s->anomaly_threshold) > 0;
                excess += sg * (y - s->excess_threshold) >= 0;
                int v;
                LIB(v = spot_step(s, y));
                err += v < 0;
            }
            fprintf(out, run ? ",{\"ret\":%d" : "{\"ret\":%d", r);
            ki("err", err);
            kd("beyond", (double)beyond);
            kd("excess", (double)excess);
            /* the queries against fresh data */
            enum { M = 50000, K = 4 };
            double share[K] = {0.5, 0.2, 0.1, 0.05}, z[K], p[K];
            long cnt[K] = {0};
            for (int k = 0; k < K; k++) {
                LIB(z[k] = spot_quantile(s, share[k] * (double)s->Nt / (double)s->n));
                LIB(p[k] = spot_probability(s, z[k]));
            }
            for (long i = 0; i < M; i++) {
                double y = DRAW;
                for (int k = 0; k < K; k++)
                    cnt[k] += sg * (y - z[k]) > 0;
            }
            fprintf(out, ",\"quants\":[");
            for (int k = 0; k < K; k++) {
                fprintf(out, k ? ",{\"k\":%d" : "{\"k\":%d", k);
                kd("r", share[k] * (double)s->Nt / (double)s->n);
                kd("p", p[k]);
                kd("seen", (double)cnt[k] / M);
                fprintf(out, "}");
            }
            fprintf(out, "]}");
        }
        fprintf(out, "]");
        __real_free(x);
        finish(d);
        return;
    }
    if (!strcmp(c, "hugefit")) { /* hugefit d dist seed size : a batch of millions of data */
        int d = ti();
        int dist = ti();
        long seed = ti();
        unsigned long n = strtoul(tok(), NULL, 10);
        cpu_limit(200);
        struct Spot *s = &dets[d].spot;
        double sg = s->low ? -1.0 : 1.0;
        double *x = __real_malloc(n * sizeof(double));
        calib_state = 0x9E3779B97F4A7C15ull * (uint64_t)(seed + 1);
        for (unsigned long i = 0; i < n; i++)
            x[i] = sg * calib_draw(dist);
        int r;
        LIB(r = spot_fit(s, x, n));
        unsigned long beyond = 0;
        for (unsigned long i = 0; i < n; i++)
            beyond += sg * (x[i] - s->excess_threshold) > 0;
        __real_free(x);
        begin("hugefit", d);
        ki("ret", r);
        kd("size", (double)n);
        kd("beyond", (double)beyond);
        finish(d);
        return;
    }
    if (!strcmp(c, "free")) {
        int d = ti();
        LIB(spot_free(&dets[d].spot));
        begin("free", d);
        finish(d);
        return;
    }
    if (!strcmp(c, "inject")) { /* inject d n Nt : fast forward the counters */
        int d = ti();
        dets[d].spot.n = strtoul(tok(), NULL, 10);
        dets[d].spot.Nt = strtoul(tok(), NULL, 10);
        begin("inject", d);
        finish(d);
        return;
    }
    if (!strcmp(c, "model")) { /* model d gamma sigma : impose the tail model */
        int d = ti();
        dets[d].spot.tail.gamma = td();
        dets[d].spot.tail.sigma = td();
        begin("inject", d);
        finish(d);
        return;
    }
    /* ---------------- low level container and statistics ----------------- */
    if (!strcmp(c, "uinit")) {
        unsigned long cap = strtoul(tok(), NULL, 10);
        memset(&ub, 0x77, sizeof ub);
        UNWRITTEN(&ub, sizeof ub);
        int r;
        LIB(r = ubend_init(&ub, cap));
        begin("uinit", -1);
        kd("cap", (double)cap);
        ki("ret", r);
        ki("size", (long)ubend_size(&ub));
        finish(-1);
        return;
    }
    if (!strcmp(c, "upush")) {
        double x = td(), r;
        LIB(r = ubend_push(&ub, x));
        begin("upush", -1);
        kd("x", x);
        kd("ret", r);
        ki("size", (long)ubend_size(&ub));
        fprintf(out, ",\"win\":");
        put_win(ub.data, ubend_size(&ub));
        finish(-1);
        return;
    }
    if (!strcmp(c, "ufree")) {
        LIB(ubend_free(&ub));
        begin("ufree", -1);
        finish(-1);
        return;
    }
    if (!strcmp(c, "pinit")) {
        unsigned long cap = strtoul(tok(), NULL, 10);
        memset(&pk, 0x77, sizeof pk);
        UNWRITTEN(&pk, sizeof pk);
        int r;
        LIB(r = peaks_init(&pk, cap));
        begin("pinit", -1);
        ki("ret", r);
        put_peaks(&pk, r == 0);
        finish(-1);
        return;
    }
    if (!strcmp(c, "ppush")) {
        double x = td();
        LIB(peaks_push(&pk, x));
        begin("ppush", -1);
        kd("x", x);
        put_peaks(&pk, 1);
        finish(-1);
        return;
    }
    if (!strcmp(c, "pbulk")) { /* pbulk n v0 dv: n pushes v0 + i dv, one event */
        long n = ti();
        double v0 = td(), dv = td();
        for (long i = 0; i < n; i++)
            LIB(peaks_push(&pk, v0 + (double)i * dv));
        begin("pbulk", -1);
        ki("cnt", n);
        kd("v0", v0);
        kd("dv", dv);
        put_peaks(&pk, 1);
        finish(-1);
        return;
    }
    if (!strcmp(c, "pfree")) {
        LIB(peaks_free(&pk));
        begin("pfree", -1);
        finish(-1);
        return;
    }
    /* ---------------- estimators on a given content ---------------------- */
    if (!strcmp(c, "est")) { /* est cap n v... */
        unsigned long cap = strtoul(tok(), NULL, 10);
        long n = ti();
        memset(&tl, 0x77, sizeof tl);
        UNWRITTEN(&tl, sizeof tl);
        if (tail_init(&tl, cap) != 0)
            exit(77);
        for (long i = 0; i < n; i++)
            tail_push(&tl, td());
        double g1 = NAN, s1 = NAN, l1, g2 = NAN, s2 = NAN, l2, l3;
        LIB(l1 = mom_estimator(&tl.peaks, &g1, &s1));
        LIB(l2 = grimshaw_estimator(&tl.peaks, &g2, &s2));
        LIB(l3 = tail_fit(&tl));
        double l4 = log_likelihood(&tl.peaks, tl.gamma, tl.sigma);
        begin("est", -1);
        kd("mg", g1);
        kd("ms", s1);
        kd("ml", l1);
        kd("gg", g2);
        kd("gs", s2);
        kd("gl", l2);
        kd("tg", tl.gamma);
        kd("ts", tl.sigma);
        kd("tl", l3);
        kd("ll", l4);
        put_peaks(&tl.peaks, 1);
        tail_free(&tl);
        finish(-1);
        return;
    }
    if (!strcmp(c, "loglik")) { /* loglik g s n v... */
        double g = td(), s = td();
        long n = ti();
        if (tail_init(&tl, n) != 0)
            exit(77);
        for (long i = 0; i < n; i++)
            tail_push(&tl, td());
        double r;
        LIB(r = log_likelihood(&tl.peaks, g, s));
        begin("loglik", -1);
        kd("g", g);
        kd("s", s);
        kd("ret", r);
        put_peaks(&tl.peaks, 1);
        tail_free(&tl);
        finish(-1);
        return;
    }
    if (!strcmp(c, "tq") || !strcmp(c, "tp")) { /* tq g s p r ; tp g s p d */
        int quant = c[1] == 'q';
        struct Tail t;
        memset(&t, 0, sizeof t);
        t.gamma = td();
        t.sigma = td();
        double p = td(), a = td(), r;
        struct Tail copy = t;
        if (quant)
            LIB(r = tail_quantile(&t, p, a));
        else
            LIB(r = tail_probability(&t, p, a));
        begin(quant ? "tq" : "tp", -1);
        kd("g", t.gamma);
        kd("s", t.sigma);
        kd("p", p);
        kd("a", a);
        kd("ret", r);
        ki("pure", !memcmp(&t, &copy, sizeof t));
        fprintf(out, "}\n");
        return;
    }
    /* ---------------- initial quantile ------------------------------------ */
    if (!strcmp(c, "p2")) { /* p2 p n v... */
        double p = td(), r;
        long n = ti();
        double *y = n ? __real_malloc(n * sizeof(double)) : NULL;
        for (long i = 0; i < n; i++)
            y[i] = td();
        LIB(r = p2_quantile(p, y, n));
        begin("p2", -1);
        kd("p", p);
        kd("ret", r);
        fprintf(out, ",\"data\":[");
        for (long i = 0; i < n; i++) {
            if (i)
                fputc(',', out);
            pd(y[i]);
        }
        fprintf(out, "]}\n");
        if (y)
            __real_free(y);
        return;
    }
    /* ---------------- math kernel ----------------------------------------- */
    if (!strcmp(c, "futils")) { /* futils l f  with l,f in {0,1} */
        int l = ti(), f = ti();
        set_float_utils(l ? my_ldexp : NULL, f ? my_frexp : NULL);
        begin("futils", -1);
        ki("l", l);
        ki("f", f);
        fprintf(out, "}\n");
        return;
    }
    if (!strcmp(c, "math")) { /* math fn a b */
        char *f = tok();
        double a = td(), b = td(), r = NAN;
        long cl = c_ldexp, cf = c_frexp;
        if (!strcmp(f, "exp"))
            r = xexp(a);
        else if (!strcmp(f, "log"))
            r = xlog(a);
        else if (!strcmp(f, "pow"))
            r = xpow(a, b);
        else if (!strcmp(f, "min"))
            r = xmin(a, b);
        else if (!strcmp(f, "nan"))
            r = is_nan(a) ? 1 : 0;
        else if (!strcmp(f, "logexp"))
            r = xlog(xexp(a));
        else if (!strcmp(f, "explog"))
            r = xexp(xlog(a));
        else
            exit(77);
        begin("math", -1);
        fprintf(out, ",\"fn\":\"%s\"", f);
        kd("a", a);
        kd("b", b);
        kd("r", r);
        ki("cl", c_ldexp - cl);
        ki("cf", c_frexp - cf);
        fprintf(out, "}\n");
        return;
    }
    /* ---------------- text ------------------------------------------------- */
    if (!strcmp(c, "text")) { /* text version|license|error code size null */
        char *w = tok();
        int code = (int)ti();
        unsigned long size = strtoul(tok(), NULL, 10);
        int null = ti();
        int pat = (int)ti(); /* previous content of the buffer */
        unsigned char *raw = __real_malloc(size + 2 * GUARD);
        unsigned char *old = __real_malloc(size + 2 * GUARD);
        unsigned rnd = 7u + (unsigned)pat;
        for (unsigned long i = 0; i < size + 2 * GUARD; i++) {
            rnd = rnd * 1103515245u + 12345u;
            old[i] = pat == 0   ? 0xC7
                     : pat == 1 ? 0
                     : pat == 2 ? (rnd >> 16) % 3 * 65
                                : rnd >> 16;
        }
        memcpy(raw, old, size + 2 * GUARD);
        char *buf = null ? NULL : (char *)raw + GUARD;
        if (w[0] == 'v')
            LIB(libspot_version(buf, size));
        else if (w[0] == 'l')
            LIB(libspot_license(buf, size));
        else
            LIB(libspot_error((enum LibspotError)code, buf, size));
        int ok = 1;
        for (int i = 0; i < GUARD; i++)
            if (raw[i] != old[i] || raw[GUARD + size + i] != old[GUARD + size + i])
                ok = 0;
        begin("text", -1);
        fprintf(out, ",\"what\":\"%s\"", w);
        ki("code", code);
        ki("size", (long)size);
        ki("null", null);
        ki("guard", ok);
        fprintf(out, ",\"bytes\":[");
        for (unsigned long i = 0; i < size; i++)
            fprintf(out, "%s%d", i ? "," : "", raw[GUARD + i]);
        fprintf(out, "],\"old\":[");
        for (unsigned long i = 0; i < size; i++)
            fprintf(out, "%s%d", i ? "," : "", old[GUARD + i]);
        fprintf(out, "]}\n");
        __real_free(raw);
        __real_free(old);
        return;
    }
    if (!strcmp(c, "bigtext")) { /* bigtext version|license|error code : more than 4 GiB */
        char *w = tok();
        int code = (int)ti();
        cpu_limit(200);
        /* first and last pieces of their own, in between the same memory again and again */
        const unsigned long P = 1ul << 20, A = 64ul << 20, size = (1ul << 32) + P;
        int fd = memfd_create("alias", 0);
        char *buf = mmap(NULL, size + A, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (fd < 0 || ftruncate(fd, (off_t)A) || buf == MAP_FAILED)
            exit(77);
        for (unsigned long o = P; o < size - P; o += A) {
            unsigned long len = size - P - o < A ? size - P - o : A;
            if (mmap(buf + o, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                exit(77);
        }
        if (mmap(buf, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED ||
            mmap(buf + size - P, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
            exit(77);
        memset(buf, 0xC7, P);
        memset(buf + size - P, 0xC7, P);
        if (w[0] == 'v')
            LIB(libspot_version(buf, size));
        else if (w[0] == 'l')
            LIB(libspot_license(buf, size));
        else
            LIB(libspot_error((enum LibspotError)code, buf, size));
        begin("bigtext", -1);
        fprintf(out, ",\"what\":\"%s\"", w);
        ki("code", code);
        fprintf(out, ",\"bytes\":[");
        for (unsigned long i = 0; i < 300; i++)
            fprintf(out, "%s%d", i ? "," : "", (unsigned char)buf[i]);
        fprintf(out, "],\"last\":[");
        for (unsigned long i = 0; i < 300; i++)
            fprintf(out, "%s%d", i ? "," : "", (unsigned char)buf[size - 300 + i]);
        fprintf(out, "]}\n");
        munmap(buf, size + A);
        close(fd);
        return;
    }
    /* ---------------- root finder ------------------------------------------ */
    if (!strcmp(c, "brent")) { /* brent id x1 x2 tol n p... */
        static struct fun f;
        memset(&f, 0, sizeof f);
        f.self = &f;
        f.id = ti();
        double x1 = td(), x2 = td(), tol = td();
        f.n = ti();
        for (int i = 0; i < f.n; i++)
            f.p[i] = td();
        int found = -7;
        double r;
        LIB(r = brent(&found, x1, x2, fcall, &f, tol));
        double lo = x1 < x2 ? x1 : x2, hi = x1 < x2 ? x2 : x1;
        double del = tol + 1e-7 * fabs(r) + 1e-300;
        double a = fmax(lo, r - del), b = fmin(hi, r + del);
        begin("brent", -1);
        ki("id", f.id);
        fprintf(out, ",\"par\":[");
        for (int i = 0; i < f.n; i++) {
            if (i)
                fputc(',', out);
            pd(f.p[i]);
        }
        fprintf(out, "]");
        kd("x1", x1);
        kd("x2", x2);
        kd("tol", tol);
        ki("found", found);
        kd("ret", r);
        kd("f1", fval(&f, x1));
        kd("f2", fval(&f, x2));
        kd("fr", fval(&f, r));
        kd("fa", fval(&f, a));
        kd("fb", fval(&f, b));
        kd("wa", a);
        kd("wb", b);
        ki("total", f.total);
        ki("ctx", !f.badctx);
        fprintf(out, ",\"ev\":[");
        for (int i = 0; i < f.nev; i++) {
            if (i)
                fputc(',', out);
            pd(f.ev[i]);
        }
        fprintf(out, "],\"fv\":[");
        for (int i = 0; i < f.nev; i++) {
            if (i)
                fputc(',', out);
            pd(f.fv[i]);
        }
        fprintf(out, "]");
        static double xs[256], ys[256];
        int nr = found ? 0 : ref_search(&f, x1, x2, tol, xs, ys);
        for (int k = 0; k < 2; k++) {
            fprintf(out, k ? ",\"rfv\":[" : ",\"rev\":[");
            for (int i = 0; i < nr; i++) {
                if (i)
                    fputc(',', out);
                pd(k ? ys[i] : xs[i]);
            }
            fprintf(out, "]");
        }
        fprintf(out, "}\n");
        return;
    }
    fprintf(stderr, "unknown command %s\n", c);
    exit(77);
}

int main(int argc, char **argv) {
    if (argc < 3)
        return 77;
    FILE *in = fopen(argv[1], "r");
    if (!in)
        return 77;
    out = fopen(argv[2], "w");
    if (!out)
        return 77;
    static char obuf[1 << 20];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    int nofork = argc > 3 && !strcmp(argv[3], "nofork");
    /* read all lines */
    char **lines = NULL;
    size_t nl = 0, cap = 0;
    char *line = NULL;
    size_t len = 0;
    while (getline(&line, &len, in) > 0) {
        if (nl == cap) {
            cap = cap ? 2 * cap : 1024;
            lines = __real_realloc(lines, cap * sizeof(char *));
        }
        lines[nl++] = strdup(line);
    }
    for (int d = 0; d < MAXD; d++) {
        memset(dets[d].before, 0xC3, GUARD);
        memset(dets[d].after, 0xC3, GUARD);
        FORBID(dets[d].before, GUARD);
        FORBID(dets[d].after, GUARD);
        memset(&dets[d].spot, 0xEE, sizeof(struct Spot));
        UNWRITTEN(&dets[d].spot, sizeof(struct Spot));
    }
    set_allocators(mallocA, freeA);
    size_t i = 0;
    while (i < nl) {
        /* a group = scripts up to the next line "fork" */
        size_t j = i;
        while (j < nl && strncmp(lines[j], "fork", 4))
            j++;
        if (nofork) {
            for (size_t k = i; k < j; k++)
                run_line(lines[k]);
        } else {
            fflush(out);
            fseek(out, 0, SEEK_END);
            off_t start = ftello(out);
            pid_t pid = fork();
            if (pid < 0)
                return 77;
            if (pid == 0) {
                cpu_limit(40);
                for (size_t k = i; k < j; k++) {
                    run_line(lines[k]);
                }
                fflush(out);
                _exit(0);
            }
            int status;
            waitpid(pid, &status, 0);
            if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
                    return 77;
                /* the buffered events of the child are lost: run again with
                   a flush after each event (the crash is deterministic or
                   will be reported at the end of the group) */
                if (ftruncate(fileno(out), start) != 0)
                    return 77;
                fseeko(out, start, SEEK_SET);
                pid = fork();
                if (pid == 0) {
                    cpu_limit(40);
                    setvbuf(out, NULL, _IONBF, 0);
                    for (size_t k = i; k < j; k++) {
                        FILE *real = out;
                        char *mem = NULL;
                        size_t msz = 0;
                        out = open_memstream(&mem, &msz);
                        run_line(lines[k]);
                        fclose(out);
                        out = real;
                        if (msz)
                            if (write(fileno(out), mem, msz) < 0)
                                _exit(77);
                        __real_free(mem);
                    }
                    _exit(0);
                }
                int st2;
                waitpid(pid, &st2, 0);
                fseek(out, 0, SEEK_END);
                int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
                fprintf(out,
                        "{\"k\":\"crash\",\"d\":-1,\"sig\":%d,\"rc\":%d,"
                        "\"line\":%ld}\n",
                        sig, WIFEXITED(status) ? WEXITSTATUS(status) : -1,
                        (long)i);
                break; /* one crash is enough */
            }
        }
        i = j + 1;
    }
    fclose(out);
    return 0;
}
