/* Counts the blocks held by the Python module (linked with --wrap). */
#include <stddef.h>
static long live = 0;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static int armed = 0, hit = 0;
/* 1: the next allocation fails; 0: none does. Did one fail since the last call? */
int verif_fail(int on) {
    int was = hit;
    armed = on;
    hit = 0;
    return was;
}
static int refuse(void) {
    int f = armed;
    hit |= f;
    armed = 0;
    return f;
}
void *__wrap_malloc(size_t n) {
    if (n > (size_t)1 << 34) /* deterministic, whatever the machine */
        return NULL;
    if (refuse())
        return NULL;
    void *p = __real_malloc(n);
    if (p)
        live++;
    return p;
}
void *__wrap_calloc(size_t n, size_t m) {
    if (refuse())
        return NULL;
    void *p = __real_calloc(n, m);
    if (p)
        live++;
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (refuse())
        return NULL;
    void *p = __real_realloc(q, n);
    if (p && !q)
        live++;
    return p;
}
void __wrap_free(void *p) {
    if (p)
        live--;
    __real_free(p);
}
long verif_live(void) { return live; }
