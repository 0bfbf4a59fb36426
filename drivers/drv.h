/* Line-protocol harness shared by all drivers. One command per input line, one JSON result per output line.
 * A line "@" starts a new session: the driver drops all state (drv_reset). */
#include <stdio.h>
#include <sys/time.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>

#define MAXARG 64
static char *drv_line; static size_t drv_cap;
static char *argv_[MAXARG]; static int argc_;
static long *list_buf[MAXARG];

/* ---- output ---- */
static char *ob; static size_t on, oc;
static void o_raw(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (oc - on < 4096) { oc = oc * 2 + 65536; ob = realloc(ob, oc); }
    on += vsnprintf(ob + on, oc - on, fmt, ap);
    va_end(ap);
}
static void o_sep(void) { if (on && ob[on-1] != '[' && ob[on-1] != '\0') o_raw(","); }
static void o_i(long v) { o_sep(); o_raw("%ld", v); }
static void o_s(const char *s) { o_sep(); o_raw("\"%s\"", s); }
static void o_open(void) { o_sep(); o_raw("["); }
static void o_close(void) { o_raw("]"); }
static void o_u64(uint64_t v) { o_open(); for (int k = 0; k < 4; ++k) o_i((v >> (16*k)) & 0xffff); o_close(); }
static void o_u32(uint32_t v) { o_open(); for (int k = 0; k < 2; ++k) o_i((v >> (16*k)) & 0xffff); o_close(); }
static void o_bytes(const void *p, size_t n) { const unsigned char *b = p; o_open(); for (size_t k = 0; k < n; ++k) o_i(b[k]); o_close(); }
static void o_flush(void) {
    ob[on] = '\n'; 
    fwrite(ob, 1, on + 1, stdout); fflush(stdout); on = 0;
}

/* ---- input ---- */
/* a command the driver does not understand is a fault of the check (77); anything else it complains about, the library did */
static void bad(const char *why) {
    if (strcmp(why, "op") && strcmp(why, "missing argument") && strcmp(why, "list expected") && strcmp(why, "no result")) {
        fprintf(stderr, "ERROR: AddressSanitizer (driver): %s: %s\n", argv_[0], why); fflush(stderr); abort(); }
    fprintf(stderr, "bad command %s: %s\n", argv_[0], why); fflush(stdout); _exit(77); }
static const char *a_s(int k) { if (k >= argc_) bad("missing argument"); return argv_[k]; }
static long a_i(int k) { return strtol(a_s(k), NULL, 10); }
/* list "[1,2,3]" -> longs */
static long *a_l(int k, long *n) {
    const char *p = a_s(k); long c = 0, cap = 16; long *v = malloc(cap * sizeof(long));
    if (*p != '[') bad("list expected");
    ++p;
    while (*p && *p != ']') {
        if (c == cap) v = realloc(v, (cap *= 2) * sizeof(long));
        char *e; v[c++] = strtol(p, &e, 10); p = e; if (*p == ',') ++p;
    }
    free(list_buf[k]); list_buf[k] = v; if (n) *n = c; return v;
}
static uint64_t a_u64(int k) {      /* decimal, or list of 16-bit limbs, least significant first */
    const char *s = a_s(k);
    if (*s != '[') return strtoull(s, NULL, 10);
    long n; long *v = a_l(k, &n); uint64_t r = 0;
    for (long j = n - 1; j >= 0; --j) r = (r << 16) | (uint64_t)v[j];
    return r;
}
/* exact-size heap copy of a byte list, so that over-reads are detected */
static unsigned char *a_b(int k, size_t *n) {
    long c; long *v = a_l(k, &c); unsigned char *b = malloc(c ? c : 1);
    if (!c) { free(b); b = malloc(1); b = realloc(b, 1); }
    for (long j = 0; j < c; ++j) b[j] = (unsigned char)v[j];
    if (n) *n = c; return b;
}
#define OP(name) (!strcmp(argv_[0], name))

static void drv_reset(void);
static void drv_cmd(void);

/* A comparison promises only the sign of its result (or zero): the magnitude changes from call to call. */
static unsigned mag_n;
static inline long mag(long d) {
    long s = (d > 0) - (d < 0); mag_n = mag_n * 1664525u + 1013904223u;
    switch (mag_n >> 29) { case 0: case 1: return d; case 2: return s; case 3: return s * (1L << 32); case 4: return s * (1L << 31); case 5: return s * 0xffffffffL; case 6: return s * (1L << 48); default: return s * 0x7fffffffffffffffL; }
}
static unsigned drv_hash;                 /* of the session's commands so far: decides arbitrary choices reproducibly */
/* "plan COMPONENT n w": from here the n-th .. (n + w - 1)-th allocation fails; results become [result, allocations, failures] */
static long pl_at, pl_w, pl_total, pl_fired; static int pl_on;
/* a command that never ends dies after 6 s of processor time (20 s of wall time), whatever else the machine does */
static void cpu_limit(int sec) { struct itimerval t = { { 0, 0 }, { sec, 0 } }; setitimer(ITIMER_PROF, &t, NULL); }
int main(int argc, char **argv) {
    ssize_t len;
    (void)argc; (void)argv;
    oc = 1 << 16; ob = malloc(oc);
    while ((len = getline(&drv_line, &drv_cap, stdin)) > 0) {
        if (drv_line[len-1] == '\n') drv_line[--len] = 0;
        if (!len) continue;
        for (char *p = drv_line; *p; ++p) drv_hash = (drv_hash ^ (unsigned char)*p) * 16777619u;
        argc_ = 0;
        for (char *p = strtok(drv_line, " "); p && argc_ < MAXARG; p = strtok(NULL, " ")) argv_[argc_++] = p;
        if (!strcmp(argv_[0], "@")) { fputs("@\n", stdout); fflush(stdout); drv_hash = 0; mag_n = 0; pl_on = 0; drv_reset(); continue; }
        alarm(20); cpu_limit(6);
        on = 0;
        if (OP("plan")) { pl_at = a_i(2); pl_w = a_i(3); pl_total = 0; pl_on = 1; o_i(0); o_flush(); continue; }
        long pl_t0 = pl_total; pl_fired = 0;
        if (pl_on) o_open();
        drv_cmd();
        if (pl_on) { o_raw(",%ld,%ld]", pl_total - pl_t0, pl_fired); }
        alarm(0); cpu_limit(0);
        if (!on) bad("no result");
        o_flush();
    }
    return 0;
}

#ifdef DRV_ALLOC
/* ---- counting, failing allocator (models the environment's memory) ---- */
#include <bfdev/allocator.h>
struct blk { struct blk *next, *prev; size_t size; void *mem; };
static struct blk blks = { &blks, &blks, 0, 0 };
static long al_live, al_calls, al_fail_at, al_fired, al_sticky, al_badfree; static size_t al_last;
/* fresh memory holds arbitrary bytes: code that reads it before writing it shows different results */
static int al_junk(void) { static const unsigned char f[] = { 0xa5, 0x00, 0xff, 0x01, 0x7f }; return f[(drv_hash += 0x9e3779b9u) % sizeof f]; }
static int al_deny(size_t n) {
    ++al_calls;
    if (n > (size_t)1 << 30) return 1;       /* the environment has at most 1 GiB in one block */
    ++pl_total;
    if (pl_on && pl_total >= pl_at && pl_total < pl_at + pl_w) { ++al_fired; ++pl_fired; return 1; }
    if (al_fail_at && (al_sticky ? al_calls >= al_fail_at : al_calls == al_fail_at)) { ++al_fired; return 1; }
    return 0;
}
static struct blk *al_find(void *p) { for (struct blk *b = blks.next; b != &blks; b = b->next) if (b->mem == p) return b; return NULL; }
static void *al_get(size_t n) {
    struct blk *b = malloc(sizeof(*b)); b->mem = malloc(n ? n : 1); b->size = n;
    b->next = blks.next; b->prev = &blks; blks.next->prev = b; blks.next = b; ++al_live; al_last = n;
    return b->mem;
}
static void *al_alloc(size_t n, void *pd) { if (al_deny(n)) return NULL; void *p = al_get(n); memset(p, al_junk(), n); return p; }
static void *al_zalloc(size_t n, void *pd) { if (al_deny(n)) return NULL; void *p = al_get(n); memset(p, 0, n); return p; }
static void al_free_(void *p, void *pd) {
    if (!p) return;
    struct blk *b = al_find(p);
    if (!b) { ++al_badfree; fprintf(stderr, "ERROR: AddressSanitizer (drv): free of unknown block\n"); abort(); }
    b->next->prev = b->prev; b->prev->next = b->next; free(b->mem); free(b); --al_live;
}
static void *al_realloc(void *p, size_t n, void *pd) {
    if (al_deny(n)) return NULL;
    if (!p) { void *r = al_get(n); memset(r, al_junk(), n); return r; }
    struct blk *b = al_find(p);
    if (!b) { fprintf(stderr, "ERROR: AddressSanitizer (drv): realloc of unknown block\n"); abort(); }
    void *q = al_get(n); size_t m = b->size < n ? b->size : n;
    memset(q, al_junk(), n); memcpy(q, p, m); al_free_(p, pd); return q;
}
static bfdev_alloc_ops_t al_ops = { .alloc = al_alloc, .zalloc = al_zalloc, .realloc = al_realloc, .free = al_free_ };
static bfdev_alloc_t al_test = { .ops = &al_ops, .pdata = NULL };
static void al_reset(void) { while (blks.next != &blks) al_free_(blks.next->mem, NULL); al_live = al_calls = al_fail_at = al_fired = al_sticky = 0; }
/* arm: the k-th allocation from now fails (0: none); sticky: and every later one */
static void al_arm(long k, int sticky) { al_calls = 0; al_fail_at = k; al_fired = 0; al_sticky = sticky; }
static long al_disarm(void) { long f = al_fired; al_fail_at = al_fired = al_calls = al_sticky = 0; return f; }
#endif
