/* Controlled concurrency for the real code.  The code under test is compiled with -fsanitize=thread but linked
 * against the hooks below instead of the sanitizer's run time: every access to a registered shared region is a
 * scheduling point.  "Threads" are coroutines; one step lets one thread perform its next shared access and run on
 * to just before the following one.  All interleavings of a program are enumerated by restarting it. */
#include "drv.h"

#define MAXT 4
#define MAXSTEP 600
typedef struct { int op; long a, b; } cop_t;
/* supplied by the component */
static void c_setup(void);                         /* fresh shared objects */
static void c_op(int t, const cop_t *o);           /* run one operation, finish with c_ret */
static void c_final(void);                         /* append the final contents with h_put */

static struct { char *lo, *hi; } reg_[8]; static int nreg;
static void c_region(void *p, size_t n) { reg_[nreg].lo = p; reg_[nreg++].hi = (char *)p + n; }

static cop_t prog[MAXT][16]; static int plen[MAXT], nthr;
/* a coroutine is its stack pointer; callee-saved registers live on its stack (x86-64) */
static void *main_ctx, *thr_ctx[MAXT];
void c_switch(void **save, void **load);
__asm__(".text\n.globl c_switch\nc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
        " mov %rsp,(%rdi)\n mov (%rsi),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static char stacks[MAXT][65536] __attribute__((aligned(64)));
static int cur = -1, fin[MAXT], called[MAXT], pos[MAXT];
static long hist[2048]; static int hn;
static void h_put(long v) { if (hn < 2048) hist[hn++] = v; }
/* events: length, then 0 t op a b | 1 t results.. | 2 contents.. */
static int h_mark;
static void h_begin(void) { h_mark = hn; h_put(0); }
static void h_end(void) { hist[h_mark] = hn - h_mark - 1; }
static void c_called(void) {
    if (called[cur]) return;
    const cop_t *o = &prog[cur][pos[cur]];
    called[cur] = 1; h_begin(); h_put(0); h_put(cur); h_put(o->op); h_put(o->a); h_put(o->b); h_end();
}
static void c_ret(int n, const long *v) {
    c_called(); h_begin(); h_put(1); h_put(cur); for (int k = 0; k < n; ++k) h_put(v[k]); h_end();
}
static void c_ret1(long v) { c_ret(1, &v); }
static void c_point(void *p) {
    if (cur < 0) return;
    for (int k = 0; k < nreg; ++k) if ((char *)p >= reg_[k].lo && (char *)p < reg_[k].hi) {
        int t = cur; c_switch(&thr_ctx[t], &main_ctx); c_called(); return; }
}
static void thr_main(void) {
    int t = cur;
    for (pos[t] = 0; pos[t] < plen[t]; ++pos[t]) { called[t] = 0; c_op(t, &prog[t][pos[t]]); }
    fin[t] = 1; c_switch(&thr_ctx[t], &main_ctx);
}
static int sched[MAXSTEP], nsched, enab[MAXSTEP];
static void resume(int t) { cur = t; c_switch(&main_ctx, &thr_ctx[t]); cur = -1; }
/* run the program: the first `pre' choices are given, later ones take the lowest thread (or come from `rng') */
static uint64_t rng_state;
static unsigned rnd(void) { rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull; return rng_state >> 33; }
static void run_once(int pre, int random) {
    nreg = 0; hn = 0; nsched = 0; c_setup();
    for (int t = 0; t < nthr; ++t) {
        fin[t] = 0;
        void **sp = (void **)(stacks[t] + sizeof stacks[t]) - 2; *sp = (void *)thr_main; sp -= 6; memset(sp, 0, 6 * sizeof *sp); thr_ctx[t] = sp;
        resume(t);          /* up to the first shared access */
    }
    for (;;) {
        int e = 0, t, n = 0; for (t = 0; t < nthr; ++t) if (!fin[t]) { e |= 1 << t; ++n; }
        if (!e) break;
        if (nsched >= MAXSTEP) bad("an operation does not finish");
        if (nsched < pre && (e >> sched[nsched] & 1)) t = sched[nsched];
        else if (random) { int k = rnd() % n; for (t = 0; ; ++t) if ((e >> t & 1) && !k--) break; }
        else for (t = 0; !(e >> t & 1); ++t);
        enab[nsched] = e; sched[nsched++] = t;
        resume(t);
    }
    h_begin(); h_put(2); c_final(); h_end();
}
/* ---- distinct histories ---- */
struct seen { struct seen *next; int n, ns; long *h; unsigned char *s; };
static struct seen *tab[1 << 14], *order[1 << 18]; static long nseen;
static void remember(void) {
    unsigned x = 2166136261u; for (int k = 0; k < hn; ++k) x = (x ^ (unsigned)hist[k]) * 16777619u;
    struct seen **b = &tab[(x ^ x >> 15) & ((1 << 14) - 1)];
    for (struct seen *s = *b; s; s = s->next) if (s->n == hn && !memcmp(s->h, hist, hn * sizeof *hist)) return;
    if (nseen >= 1 << 18) return;
    struct seen *s = malloc(sizeof *s); s->n = hn; s->h = malloc(hn * sizeof *hist); memcpy(s->h, hist, hn * sizeof *hist);
    s->ns = nsched; s->s = malloc(nsched ? nsched : 1); for (int k = 0; k < nsched; ++k) s->s[k] = sched[k];
    s->next = *b; *b = s; order[nseen++] = s;
}
static void forget(void) {
    for (long k = 0; k < nseen; ++k) { free(order[k]->h); free(order[k]->s); free(order[k]); }
    memset(tab, 0, sizeof tab); nseen = 0;
}
static void c_parse(int k) {        /* op a b triples, -1 between threads */
    long n, *v = a_l(k, &n); nthr = 1; memset(plen, 0, sizeof plen);
    for (long i = 0; i < n; ) {
        if (v[i] == -1) { if (++nthr > MAXT) bad("op"); ++i; continue; }
        if (plen[nthr - 1] == 16) bad("op");
        prog[nthr - 1][plen[nthr - 1]++] = (cop_t){ v[i], v[i + 1], v[i + 2] }; i += 3;
    }
}
static void o_hist(const long *h, int n, const unsigned char *s, int ns) {
    o_open(); o_open(); for (int k = 0; k < ns; ++k) o_i(s[k]); o_close();
    for (int k = 0; k < n; k += h[k] + 1) { o_open(); for (int j = 1; j <= h[k]; ++j) o_i(h[k + j]); o_close(); }
    o_close();
}
/* all PROGRAM LIMIT: every interleaving (up to LIMIT runs); rand PROGRAM RUNS SEED; run PROGRAM SCHEDULE */
static void conc_cmd(void) {
    long runs = 0, complete = 1;
    alarm(600);
    c_parse(1); forget();
    if (OP("all")) {
        long limit = a_i(2); int pre = 0;
        for (;;) {
            run_once(pre, 0); remember(); ++runs;
            int d = nsched - 1, t = 0;
            for (; d >= 0; --d) { for (t = sched[d] + 1; t < nthr && !(enab[d] >> t & 1); ++t); if (t < nthr) break; }
            if (d < 0) break;
            if (runs >= limit) { complete = 0; break; }
            sched[d] = t; pre = d + 1;
        }
    } else if (OP("rand")) {
        rng_state = a_i(3) * 2654435761u + 1;
        for (long n = a_i(2); runs < n; ++runs) { run_once(0, 1); remember(); }
        complete = 0;
    } else if (OP("run")) {
        long n, *v = a_l(2, &n); if (n > MAXSTEP) n = MAXSTEP; for (long k = 0; k < n; ++k) sched[k] = v[k];
        run_once(n, 0); remember(); runs = 1;
    } else bad("op");
    o_open(); o_i(runs); o_i(complete);
    for (long k = 0; k < nseen; ++k) o_hist(order[k]->h, order[k]->n, order[k]->s, order[k]->ns);
    o_close();
}

/* ---- the hooks ---- */
typedef __INT64_TYPE__ i64; typedef __INT32_TYPE__ i32; typedef short i16; typedef signed char i8;
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { } void __tsan_func_exit(void) { }
#define RW(n) void __tsan_##n(void *p) { c_point(p); }
RW(read1) RW(read2) RW(read4) RW(read8) RW(read16) RW(write1) RW(write2) RW(write4) RW(write8) RW(write16)
RW(unaligned_read2) RW(unaligned_read4) RW(unaligned_read8) RW(unaligned_read16) RW(unaligned_write2) RW(unaligned_write4) RW(unaligned_write8) RW(unaligned_write16)
RW(volatile_read1) RW(volatile_read2) RW(volatile_read4) RW(volatile_read8) RW(volatile_read16) RW(volatile_write1) RW(volatile_write2) RW(volatile_write4) RW(volatile_write8) RW(volatile_write16)
RW(vptr_read)
void __tsan_vptr_update(void **p, void *v) { c_point(p); }
void __tsan_read_range(void *p, unsigned long n) { c_point(p); } void __tsan_write_range(void *p, unsigned long n) { c_point(p); }
#define ATOMICS(w, T) \
T __tsan_atomic##w##_load(const volatile T *p, int mo) { c_point((void *)p); return *p; } \
void __tsan_atomic##w##_store(volatile T *p, T v, int mo) { c_point((void *)p); *p = v; } \
T __tsan_atomic##w##_exchange(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; *p = v; return o; } \
T __tsan_atomic##w##_fetch_add(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; __builtin_add_overflow(o, v, (T *)p); return o; } \
T __tsan_atomic##w##_fetch_sub(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; __builtin_sub_overflow(o, v, (T *)p); return o; } \
T __tsan_atomic##w##_fetch_and(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##w##_fetch_or(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##w##_fetch_xor(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##w##_fetch_nand(volatile T *p, T v, int mo) { c_point((void *)p); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##w##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fo) { c_point((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##w##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fo) { return __tsan_atomic##w##_compare_exchange_strong(p, e, v, mo, fo); } \
T __tsan_atomic##w##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fo) { __tsan_atomic##w##_compare_exchange_strong(p, &e, v, mo, fo); return e; }
ATOMICS(8, i8) ATOMICS(16, i16) ATOMICS(32, i32) ATOMICS(64, i64)
void __tsan_atomic_thread_fence(int mo) { } void __tsan_atomic_signal_fence(int mo) { }
