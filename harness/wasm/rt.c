/* The C runtime of the WebAssembly build: a heap that counts its blocks,
 * fills them with junk, guards their end and notices bad releases. */
typedef __SIZE_TYPE__ size_t;
#define HEAP (48u << 20)
#define MAGIC 0x51073a11u
#define DEAD 0xdeadbeefu
struct head {
    unsigned magic;
    unsigned size;
    struct head *next;
    unsigned pad;
};
static unsigned char heap[HEAP] __attribute__((aligned(16)));
static unsigned top = 0;
static struct head *freelist = 0;
static struct head *all = 0;
static int live = 0, bad = 0;

void *memset(void *p, int c, size_t n) {
    volatile unsigned char *q = p;
    while (n--)
        *q++ = (unsigned char)c;
    return p;
}
void *memcpy(void *d, const void *s, size_t n) {
    volatile unsigned char *q = d;
    const unsigned char *r = s;
    while (n--)
        *q++ = *r++;
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    volatile unsigned char *q = d;
    const unsigned char *r = s;
    if (q < r)
        return memcpy(d, s, n);
    while (n--)
        q[n] = r[n];
    return d;
}
size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
int printf(const char *f, ...) { return f ? 0 : 1; }

static unsigned room(unsigned n) { return (n + 8 + 15) & ~15u; }
static int intact(struct head *h) {
    unsigned char *u = (unsigned char *)(h + 1);
    for (unsigned i = h->size; i < room(h->size); i++)
        if (u[i] != 0x5c)
            return 0;
    return 1;
}
void *malloc(size_t n) {
    if (n > HEAP / 2)
        return 0;
    unsigned r = room(n);
    struct head *h = 0, **p;
    for (p = &freelist; *p; p = &(*p)->next)
        if (room((*p)->size) == r) {
            h = *p;
            *p = h->next;
            break;
        }
    if (!h) {
        if (top + sizeof(struct head) + r > HEAP)
            return 0;
        h = (struct head *)(heap + top);
        top += sizeof(struct head) + r;
    }
    h->magic = MAGIC;
    h->size = n;
    h->next = 0;
    memset(h + 1, 0xa5, n);
    memset((unsigned char *)(h + 1) + n, 0x5c, r - n);
    live++;
    return h + 1;
}
void *calloc(size_t n, size_t m) {
    if (m && n > 0xffffffffu / m)
        return 0;
    void *p = malloc(n * m);
    if (p)
        memset(p, 0, n * m);
    return p;
}
void free(void *p) {
    if (!p)
        return;
    unsigned char *u = p;
    if (u < heap + sizeof(struct head) || u >= heap + top || ((u - heap) & 15)) {
        bad++;
        return;
    }
    struct head *h = (struct head *)p - 1;
    if (h->magic != MAGIC || h->size > HEAP / 2) {
        bad++; /* not a block, or released twice */
        return;
    }
    if (!intact(h))
        bad++;
    memset(p, 0xdd, h->size);
    h->magic = DEAD;
    h->next = freelist;
    freelist = h;
    live--;
}
void *realloc(void *p, size_t n) {
    void *q = malloc(n);
    if (q && p) {
        struct head *h = (struct head *)p - 1;
        memcpy(q, p, h->size < n ? h->size : n);
        free(p);
    }
    return q;
}
int verif_live(void) { return live; }
int verif_bad(void) {
    int b = bad;
    for (unsigned t = 0; t < top;) {
        struct head *h = (struct head *)(heap + t);
        if (h->magic == MAGIC && !intact(h))
            b++;
        t += sizeof(struct head) + room(h->size);
    }
    return b;
}
