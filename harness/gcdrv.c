/* Driver of minim-gc: executes a history of mutator operations and logs, for
   each, which blocks were freed, which destructors ran, which live blocks
   changed.  Only S (in main's frame) and the registers hold block addresses
   while the collector runs. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include "gc.h"

#define NS 8
#define STRIDE ((size_t) 8209 * 16)
#define SLOTS 12000

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

typedef struct { char *p; char *shadow; size_t size; int obj; char live, group; } blk;
static blk *B; static long nb, cb;           /* every block ever made */
static int nobj;
static void **S;
static int mode;                              /* 0 malloc, 1 one bucket, 2 reuse at once, 3 one bucket in a larger table too (single blocks only) */
static int in_chain;
#define FAR ((size_t) 8209 * 16411 * 16)
#define FARSLOTS 1000
static char *far_arena; static int far_used;
static long realloc_blk = -1;

/* raw allocations of the collector: base -> size, block */
typedef struct { char *base; size_t size; long b; int used; } raw;
static raw *R; static size_t nr, cr;
/* what was allocated during the operation, newest first */
#define NREC 64
static struct { char *p; size_t n; } rec[NREC]; static long nrec;
static char *owner(char *p, size_t n) {
    for (long i = nrec; i-- > 0 && i >= nrec - NREC; ) { char *q = rec[i % NREC].p; if (p >= q && p + n <= q + rec[i % NREC].n) return q; }
    return NULL;
}
static char *arena; static int arena_used; static char *pool[SLOTS]; static int npool;

static size_t rslot(char *p) { return (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull) >> 20; }
static raw *rfind(char *p) {
    if (!cr) return NULL;
    for (size_t i = rslot(p) % cr; R[i].used; i = (i + 1) % cr)
        if (R[i].base == p && R[i].used == 1) return &R[i];
    return NULL;
}
static void radd(char *p, size_t n, long b) {
    if (2 * (nr + 1) > cr) {
        size_t oc = cr; raw *o = R;
        size_t live = 0;
        for (size_t i = 0; i < oc; ++i) live += o[i].used == 1;
        cr = live * 4 + 1024; R = __real_calloc(cr, sizeof(raw)); nr = 0;
        for (size_t i = 0; i < oc; ++i) if (o[i].used == 1) radd(o[i].base, o[i].size, o[i].b);
        __real_free(o);
    }
    size_t i = rslot(p) % cr;
    while (R[i].used) i = (i + 1) % cr;
    R[i] = (raw) { p, n, b, 1 }; ++nr;
}

/* per-operation log */
static int *freed; static long nfreed, cfreed; static int *dt; static long ndt, cdt; static int bad; static int altered; 
static void push(int **a, long *n, long *c, int x) { if (*n == *c) { *c = *c * 2 + 64; *a = __real_realloc(*a, *c * sizeof(int)); } (*a)[(*n)++] = x; }

static char *raw_get(size_t n) {
    if (mode == 1 && n < STRIDE - 64) {
        if (npool) return pool[--npool];
        if (arena_used < SLOTS) return arena + STRIDE * arena_used++;
    }
    if (mode == 3 && !in_chain && n < 4096) {
        if (npool) return pool[--npool];
        if (far_used < FARSLOTS) return far_arena + FAR * far_used++;
    }
    if (mode == 2 && n <= 256) {
        if (npool) return pool[--npool];
        return __real_malloc(256);
    }
    return __real_malloc(n);
}
static void raw_put(char *p, size_t n) {
    if (arena && p >= arena && p < arena + STRIDE * SLOTS) { if (npool < SLOTS) pool[npool++] = p; return; }
    if (far_arena && p >= far_arena && p < far_arena + FAR * FARSLOTS) { if (npool < SLOTS) pool[npool++] = p; return; }
    if (mode == 2 && n <= 256 && npool < SLOTS) { pool[npool++] = p; return; }
    __real_free(p);
}
void *__wrap_malloc(size_t n) {
    char *p = raw_get(n);
    radd(p, n, -1); rec[nrec % NREC].p = p; rec[nrec++ % NREC].n = n;
    memset(p, 0xA5, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) { char *p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
/* every reference to a block that moved or went (chains hold no references but their links) */
static long *U; static long nu, cu;
static void relocate(char *from, char *to) {
    for (int i = 0; i < NS; ++i) if (S[i] == from) S[i] = to;
    for (long i = 0; i < nu; ++i) {
        blk *x = &B[U[i]];
        if (!x->live) { U[i--] = U[--nu]; continue; }
        for (size_t k = 0; k + 8 <= x->size; k += 8)
            if (*(char **) (x->p + k) == from) { *(char **) (x->p + k) = to; *(char **) (x->shadow + k) = to; }
    }
}
void __wrap_free(void *v) {
    if (!v) return;
    raw *r = rfind(v);
    if (!r) { bad = 1; return; }
    if (r->b >= 0 && r->b != realloc_blk) {
        blk *x = &B[r->b];
        if (memcmp(x->p, x->shadow, x->size)) altered = x->obj + 1;
        x->live = 0; __real_free(x->shadow); x->shadow = NULL;
        push(&freed, &nfreed, &cfreed, x->obj);
        if (!x->group) relocate(x->p, NULL);
    }
    r->used = 2;
    memset(v, 0xDB, r->size);
    raw_put(v, r->size);
}
void *__wrap_realloc(void *v, size_t n) {
    if (!v) return __wrap_malloc(n);
    raw *r = rfind(v);
    if (!r) { bad = 1; return NULL; }
    size_t m = r->size < n ? r->size : n;
    char *q = __wrap_malloc(n);
    memcpy(q, v, m);
    __wrap_free(v);
    return q;
}

static long find(void *p) {
    if (!p) return -1;
    for (long i = nb - 1; i >= 0; --i) if (B[i].live && B[i].p == (char *) p) return i;
    return -1;
}
/* the block in S[s], unless it is one of a chain */
static long single(int s) { long b = find(S[s]); return b >= 0 && B[b].group ? -2 : b; }
static void dtor(void *p, void *unused) {
    long i = find(p);
    if (i < 0) { bad = 2; return; }
    if (memcmp(p, B[i].shadow, B[i].size)) altered = B[i].obj + 1;
    push(&dt, &ndt, &cdt, B[i].obj);
}
static void dtor1(void *p) { dtor(p, NULL); }
static void dtor2(void *p, void *u) { dtor(p, u); }
/* marks the first word only */
static void mark0(void mrk(void *, void *), void *gc, void *p) { mrk(gc, *(void **) p); }

static int junk;
static void fill(char *p, size_t from, size_t n) {   /* words of pointers are zero, the rest a pattern */
    for (size_t i = from; i < n; ++i) p[i] = i < n / 8 * 8 ? 0 : (char) (++junk);
}
static void sync_block(long b) { memcpy(B[b].shadow, B[b].p, B[b].size); }
/* p was just returned for a block of size n */
static long track(char *p, size_t n, int obj, int group) {
    if (!p) { bad = 3; return -1; }
    char *own = owner(p, n);
    if (!own) { bad = 4; return -1; }
    if (nb == cb) { cb = cb * 2 + 1024; B = __real_realloc(B, cb * sizeof(blk)); }
    B[nb] = (blk) { p, __real_malloc(n + 1), n, obj, 1, group };
    raw *r = rfind(own);
    if (!r) { bad = 4; return -1; }
    r->b = nb;
    if (!group) {
        if (nu == cu) { cu = cu * 2 + 256; U = __real_realloc(U, cu * sizeof(long)); }
        U[nu++] = nb;
    }
    return nb++;
}

static void *make(int kind, int d, size_t n, int zero) {
    nrec = 0;
    /* kind: 0 conservative, 1 atomic, 2 first word */
    size_t f = n % 8 == 0 ? 8 : n % 3 == 0 ? 3 : 1;
    if (kind == 0 && !d) return zero ? GC_calloc(n / f, f) : GC_alloc(n);
    if (kind == 1 && !d) return zero ? GC_calloc_atomic(f, n / f) : GC_alloc_atomic(n);
    void (*m)(void (void *, void *), void *, void *) = kind == 1 ? (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk : kind == 2 ? mark0 : NULL;
    return zero ? GC_calloc_opt(f, n / f, d ? dtor1 : NULL, m) : GC_alloc_opt(n, d ? dtor1 : NULL, m);
}

__attribute__((noinline)) static void wipe(void) {
    char a[65536];
    memset(a, 0, sizeof a);
    __asm__ volatile("" : : "r"(a) : "memory", "rbx", "r12", "r13", "r14", "r15");
}
__attribute__((noinline)) static void op_alloc(int s, int kind, int d, size_t n, int zero) {
    char *p = make(kind, d, n, zero);
    long b = track(p, n, nobj++, 0);
    if (b < 0) return;
    if (zero) for (size_t i = 0; i < n; ++i) if (p[i]) bad = 5;
    fill(p, 0, n); sync_block(b);
    S[s] = p;
}
__attribute__((noinline)) static void op_realloc(int s, int kind, int d, size_t n) {
    char *old = S[s], *p;
    long b = single(s);
    if (b == -2) return;
    size_t on = b >= 0 ? B[b].size : 0;
    realloc_blk = n ? b : -1;
    nrec = 0;
    if (!d && kind == 0) p = GC_realloc(old, n);
    else if (!d && kind == 1) p = GC_realloc_atomic(old, n);
    else p = GC_realloc_opt(old, n, d ? dtor1 : NULL, kind == 1 ? (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk : kind == 2 ? mark0 : NULL);
    realloc_blk = -1;
    if (n == 0) { if (p) bad = 6; S[s] = NULL; return; }
    if (b < 0) { b = track(p, n, nobj++, 0); if (b < 0) return; fill(p, 0, n); sync_block(b); S[s] = p; return; }
    if (!p) { bad = 3; return; }
    size_t m = on < n ? on : n;
    if (memcmp(p, B[b].shadow, m)) altered = B[b].obj + 1;
    if (p != old) { char *own = owner(p, n); raw *r = own ? rfind(own) : NULL; if (!r) bad = 4; else r->b = b; }
    B[b].p = p; B[b].size = n; B[b].shadow = __real_realloc(B[b].shadow, n + 1);
    /* words that were cut, and words that are new */
    fill(p, m / 8 * 8, n);
    sync_block(b);
    if (p != old) relocate(old, p);
}
__attribute__((noinline)) static void op_free(int s) {
    char *p = S[s];
    long b = single(s);
    if (b == -2) return;
    GC_free(p);
}
/* n blocks, each the only reference to the next; or none at all if loose */
__attribute__((noinline)) static void op_chain(int s, long n, size_t size, int kind, int d, int loose) {
    int o = nobj++;
    in_chain = 1;
    if (!loose) S[s] = NULL;
    for (long i = 0; i < n; ++i) {
        char *p = make(kind, d, size, 0);
        long b = track(p, size, o, 1);
        if (b < 0) break;
        if (size <= 64) fill(p, 0, size); else memset(p, 0, size);
        if (!loose) { *(void **) p = S[s]; S[s] = p; }
        sync_block(b);
    }
    in_chain = 0;
}
__attribute__((noinline)) static void store(int s, int i, int t) {
    long b = single(s);
    if (b < 0) return;
    if ((size_t) i * 8 + 8 > B[b].size) return;
    ((void **) S[s])[i] = t < 0 ? (void *) (long) -t : single(t) == -2 ? NULL : S[t];
    sync_block(b);
}
__attribute__((noinline)) static void load(int s, int t, int i) {
    long b = single(t);
    if (b < 0 || (size_t) i * 8 + 8 > B[b].size) return;
    void *v = ((void **) S[t])[i];
    S[s] = find(v) >= 0 ? v : NULL;
}
/* the only reference is in one callee-saved register during the collection */
#define INREG(name, reg) \
__attribute__((naked, noinline)) static void *name(void *p) { \
    __asm__ volatile("push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n" \
        "xor %ebx,%ebx; xor %ebp,%ebp; xor %r12d,%r12d; xor %r13d,%r13d; xor %r14d,%r14d; xor %r15d,%r15d\n" \
        "not %rdi; mov %rdi,%" reg "; xor %edi,%edi; sub $8,%rsp; xor %eax,%eax; xor %ecx,%ecx; xor %edx,%edx; xor %esi,%esi; call GC_collect; add $8,%rsp; mov %" reg ",%rax\n" \
        "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret"); }
INREG(in_rbx, "rbx") INREG(in_rbp, "rbp") INREG(in_r12, "r12") INREG(in_r13, "r13") INREG(in_r14, "r14") INREG(in_r15, "r15")
static void *(*inreg[])(void *) = { in_rbx, in_rbp, in_r12, in_r13, in_r14, in_r15 };
__attribute__((noinline)) static void op_reg(int s, int r) {
    long b = find(S[s]);
    if (b < 0) { wipe(); GC_collect(); return; }
    void *volatile *where = (void *volatile *) &S[s];
    volatile uintptr_t hidden = ~(uintptr_t) S[s];
    S[s] = NULL;
    wipe();
    *where = inreg[r]((void *) hidden);
}
static void check_all(void) {
    for (long b = 0; b < nb; ++b) if (B[b].live && memcmp(B[b].p, B[b].shadow, B[b].size)) { altered = B[b].obj + 1; return; }
}
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static void runs(const char *name, int *a, long n) {
    qsort(a, n, sizeof(int), cmp);
    printf(",\"%s\":[", name);
    for (long i = 0, first = 1; i < n; first = 0) { long j = i; while (j < n && a[j] == a[i]) ++j; printf("%s[%d,%ld]", first ? "" : ",", a[i], j - i); i = j; }
    printf("]");
}
static char word[16]; static long a[6]; static size_t re, co;
__attribute__((noinline)) static int next(FILE *in) {
    static char line[256];
    if (!fgets(line, sizeof line, in)) return 0;
    memset(a, 0, sizeof a);
    sscanf(line, "%15s %ld %ld %ld %ld %ld %ld", word, a, a + 1, a + 2, a + 3, a + 4, a + 5);
    nfreed = ndt = 0; bad = altered = 0;
    return 1;
}
static int is(const char *w) { return !strcmp(word, w); }
__attribute__((noinline)) static void step(void) {
    if (is("alloc")) op_alloc(a[0], a[1], a[2], a[3], a[4]);
    else if (is("realloc")) op_realloc(a[0], a[1], a[2], a[3]);
    else if (is("free")) op_free(a[0]);
    else if (is("chain")) op_chain(a[0], a[1], a[2], a[3], a[4], a[5]);
    else if (is("store")) store(a[0], a[1], a[2]);
    else if (is("load")) load(a[0], a[1], a[2]);
    else if (is("copy")) S[a[0]] = S[a[1]];
    else if (is("clear")) S[a[0]] = NULL;
    else if (is("root")) { if (single(a[0]) >= 0) GC_register_root(S[a[0]]); }
    else if (is("dtor")) { if (single(a[0]) >= 0) GC_register_dtor(S[a[0]], a[1] ? dtor2 : NULL); }
    else if (is("mrk")) { if (single(a[0]) >= 0) GC_register_mrk(S[a[0]], a[1] == 1 ? (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk : a[1] == 2 ? mark0 : NULL); }
    else if (is("reg")) op_reg(a[0], a[1]);
    else if (is("pause")) GC_pause();
    else if (is("resume")) GC_resume();
    else if (is("mode")) {
        mode = a[0]; npool = 0;
        if (mode == 3) far_arena = mmap(NULL, FAR * FARSLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (far_arena == MAP_FAILED) { far_arena = NULL; mode = 0; }
    }
}
__attribute__((noinline)) static void report(int stats) {
    check_all();
    printf("{\"bad\":%d,\"alt\":%d", bad, altered);
    runs("freed", freed, nfreed); runs("dtors", dt, ndt);
    if (stats >= 0) printf(",\"al\":%zu", GC_get_allocated());
    if (stats > 0) printf(",\"re\":%zu,\"co\":%zu", re, co);
    printf("}\n"); fflush(stdout);
}
/* the frames below main are cleared before the collector is called, so that they hold no addresses of earlier operations */
int main(int argc, char **argv) {
    struct { void *S[NS]; } f;      /* the last register is the bottom of the stack */
    memset(&f, 0, sizeof f);
    S = f.S;
    arena = mmap(NULL, STRIDE * SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) return 9;
    GC_init(&f.S[NS - 1]);
    while (next(stdin)) {
        wipe();
        if (is("collect")) GC_collect();
        else if (is("stats")) { re = GC_get_reachable(); wipe(); co = GC_get_collectable(); }
        else if (is("end")) { GC_finalize(); report(-1); break; }
        else step();
        report(is("stats"));
    }
    __asm__ volatile("" : : "r"(&f) : "memory");
    return 0;
}
