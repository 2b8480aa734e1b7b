// Replays recorded values on the very code that was analysed, compiled to a static library:
// gcc native.c lib<crate>.a; <binary> <harness> <values file>. One thread runs at a time.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t *vals;
static size_t nvals, pos;
static char *out;
static size_t nout, cap;
static int panic_ok;

// The harness may have replaced libc's functions.
static long raw(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void put(const char *s, size_t n) {
    if (nout + n + 1 > cap) {
        cap = 2 * (nout + n + 64);
        out = realloc(out, cap);
    }
    memcpy(out + nout, s, n);
    nout += n;
}
static void finish(const char *s) {
    put("OUTCOME ", 8);
    put(s, strlen(s));
    put("\n", 1);
    size_t k = 0;
    while (k < nout) {
        long r = raw(1, 1, (long)(out + k), nout - k);
        if (r <= 0) break;
        k += r;
    }
    raw(231, 0, 0, 0);
    for (;;) ;
}
static void on_abort(int s) {
    char b[64];
    if (s == SIGABRT) finish(panic_ok ? "panic-ok" : "panic by abort");
    snprintf(b, sizeof b, "crash signal %d", s);
    finish(b);
}

uint64_t sym_var(uint32_t w) {
    if (pos >= nvals) finish("exhausted");
    uint64_t v = vals[pos++];
    return w < 64 ? v & ((1ull << w) - 1) : v;
}
void sym_assume(bool c) { if (!c) finish("assume-failed"); }
void sym_assert(bool c, const char *m, size_t n) {
    if (c) return;
    char b[512];
    snprintf(b, sizeof b, "assert %.*s", (int)n, m);
    finish(b);
}
void sym_cover(const char *m, size_t n) { put("COVER ", 6); put(m, n); put("\n", 1); }
void sym_log(uint64_t v) { char b[40]; put(b, snprintf(b, sizeof b, "LOG %lu\n", v)); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool sym_and(bool a, bool b) { return a & b; }
bool sym_or(bool a, bool b) { return a | b; }
void sym_panic_ok(uint32_t v) { panic_ok = v; }
bool sym_bytes_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
// No value is left: what follows, if anything, is the reporting of a panic.
bool sym_exhausted(void) { return pos >= nvals; }
uint64_t sym_param(uint32_t i, uint64_t d) {
    const char *s = getenv("VP_PARAMS");
    if (!s || !*s) return d;
    while (i-- > 0) {
        s = strchr(s, ',');
        if (!s) return d;
        s++;
    }
    char *e;
    uint64_t v = strtoull(s, &e, 10);
    return e == s ? d : v;
}

static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static size_t cur, threads = 1;
static __thread size_t me;
struct start { void (*f)(size_t); size_t arg, t; };
static void wait_turn(void) {
    pthread_mutex_lock(&mx);
    while (cur != me) pthread_cond_wait(&cv, &mx);
    pthread_mutex_unlock(&mx);
}
static void *body(void *p) {
    struct start s = *(struct start *)p;
    me = s.t;
    wait_turn();
    s.f(s.arg);
    finish("a thread's entry function returned");
    return 0;
}
size_t sym_spawn(void (*f)(size_t), size_t arg) {
    int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = dlsym(RTLD_NEXT, "pthread_create");
    struct start *s = malloc(sizeof *s);
    pthread_t id;
    s->f = f;
    s->arg = arg;
    s->t = threads++;
    if (create(&id, 0, body, s)) finish("cannot create a thread");
    return s->t;
}
size_t sym_self(void) { return me; }
void sym_switch(size_t t) {
    if (t == me) return;
    pthread_mutex_lock(&mx);
    cur = t;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mx);
    wait_turn();
}

// Makes the linker take in the crate.
void harness_crate(void);
int main(int argc, char **argv) {
    // Further arguments are those of the program under test: only they are left.
    if (argc > 3) {
        setenv("VP_HARNESS", argv[1], 1);
        setenv("VP_VALUES", argv[2], 1);
        execv("/proc/self/exe", argv + 3);
        return 3;
    }
    const char *hn = getenv("VP_HARNESS"), *vn = getenv("VP_VALUES");
    if (!hn && argc > 2) hn = argv[1], vn = argv[2];
    FILE *f = vn ? fopen(vn, "r") : 0;
    void (*h)(void) = hn ? dlsym(RTLD_DEFAULT, hn) : 0;
    harness_crate();
    unsigned long x;
    size_t c = 0;
    if (!f || !h) return 3;
    while (fscanf(f, "%lu", &x) == 1) {
        if (nvals == c) vals = realloc(vals, (c = 2 * c + 64) * 8);
        vals[nvals++] = x;
    }
    signal(SIGABRT, on_abort);
    signal(SIGSEGV, on_abort);
    signal(SIGBUS, on_abort);
    signal(SIGILL, on_abort);
    h();
    finish("ok");
}
