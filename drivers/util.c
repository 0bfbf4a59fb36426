#include "drv.h"
#include <sys/wait.h>
#include <bfdev/prandom.h>
#include <bfdev/stringhash.h>
#include <bfdev/circle.h>
#include <bfdev/bitflags.h>
#include <bfdev/once.h>
#include <bfdev/action.h>
#include <bfdev/callback.h>
#include <bfdev/guards.h>
#include <bfdev/scnprintf.h>
#include <bfdev/macro.h>
#include <bfdev/mhelper.h>
#include <bfdev/size.h>
#include <bfdev/time.h>
#include <bfdev/bitops.h>
#include <bfdev/const.h>
#include <bfdev/bug.h>
#include <bfdev/container.h>
#include <bfdev/struct.h>
#include <bfdev/typecheck.h>
#include <bfdev/stringify.h>
static bfdev_prandom_t gen;
static void drv_reset(void) { memset(&gen, 0xa5, sizeof gen); }

#define IDX(X) X(0) X(1) X(31) X(32) X(63)
#define IDX2(X) X(64) X(127)
struct flagged { int pad; unsigned long word; long guard; };
#define PL(i) BFDEV_BITFLAGS(plain##i, i) BFDEV_BITFLAGS_ATOMIC(atomic##i, i)
#define ST(i) BFDEV_BITFLAGS_STRUCT(struct##i, struct flagged, word, i) BFDEV_BITFLAGS_STRUCT_ATOMIC(satomic##i, struct flagged, word, i)
IDX(PL) IDX2(PL) IDX(ST)
#define RUN(v, i, p) if (!strcmp(var, #v) && idx == i) { \
    if (!strcmp(op, "set")) v##i##_set(p); else if (!strcmp(op, "clr")) v##i##_clr(p); else if (!strcmp(op, "flip")) v##i##_flip(p); \
    else if (!strcmp(op, "test")) r = v##i##_test(p); else if (!strcmp(op, "test_set")) r = v##i##_test_set(p); \
    else if (!strcmp(op, "test_clr")) r = v##i##_test_clr(p); else if (!strcmp(op, "test_flip")) r = v##i##_test_flip(p); else bad("op"); return r; }
static int flag(const char *var, const char *op, int idx, unsigned long *w, struct flagged *f) {
    int r = 0;
#define R1(i) RUN(plain, i, w) RUN(atomic, i, w)
#define R2(i) RUN(struct, i, f) RUN(satomic, i, f)
    IDX(R1) IDX2(R1) IDX(R2)
    bad("op"); return 0;
}
static long acted; static int act_fn(void *d) { ++acted; return (int)(long)d; }
static int act_fn2(void *d) { ++acted; return (int)(long)d; }

static int cleaned[4], ncleaned;
static void release(int *p) { cleaned[ncleaned++] = p ? *p : -2; free(p); }
BFDEV_CLEAN_TEMPLATE(intp, int *, if (_T) release(_T))
static int *scoped(int n, int keep) {
    bfdev_clean(intp) int *p = malloc(sizeof(int));
    *p = n;
    if (keep) bfdev_clean_return(p);
    return NULL;
}
static int once_body; static void once_fn(int by) { once_body += by; }
static long sum(int n, ...) { va_list a; long r = 0, m = 1; va_start(a, n); while (n--) { r += m * va_arg(a, int); m *= 10; } va_end(a); return r; }
#define ID(x) x
static long pairs1(int a) { return a; }
static long pairs2(int a, int b) { return a * 10 + b; }
static long decl2(BFDEV_MMAP_DECLN(2, BFDEV_MARGFN_DECL, int, long)) { return __arg2 * 10 + __arg1; }

static int alerts;
static int hook(bfdev_log_message_t *msg, void *pd) { (void)pd; if (msg->level != BFDEV_LEVEL_ALERT || !strstr(msg->buff, "util.c") || !strstr(msg->buff, "warned")) bad("report"); ++alerts; return 0; }
static void alert_write(int fd, int r) { int v[2] = { r, alerts }; if (write(fd, v, sizeof v) != sizeof v) _exit(9); }
static int alert_fd; static void on_abort(int sig) { (void)sig; alert_write(alert_fd, -1); _exit(7); }
static int warned(int bug, int c) { return bug ? BFDEV_BUG_ON(c) : BFDEV_WARN_ON(c); }
struct holder { char lead[3]; int first; struct { long x, y; } in; const char last; };
struct grouped { int before; bfdev_struct_group(pair, int x; int y;); bfdev_struct_group_attr(packed, __attribute__((packed)), char c; long l;); int after; };
static void drv_cmd(void) {
    size_t n = 0; long c = 0;
    if (OP("init")) { BFDEV_DEFINE_PRANDOM(fresh); static int flip; gen = fresh; if (flip ^= 1) bfdev_prandom_init(&gen); o_i(0); }
    else if (OP("seed")) { bfdev_prandom_seed(&gen, a_u64(1)); o_i(0); }
    else if (OP("u32")) o_u32(bfdev_prandom_value(&gen));
    else if (OP("u64")) o_u64(bfdev_prandom_u64(&gen));
    else if (OP("long")) o_u64(bfdev_prandom_long(&gen));
    else if (OP("pjw")) { unsigned char *m = a_b(1, &n); char *z = malloc(n + 1); memcpy(z, m, n); z[n] = 0; o_u64(bfdev_pjwhash(z)); free(z); free(m); }
    else if (OP("circle") || OP("free")) {
        unsigned long h = a_i(1), t = a_i(2), z = 1ul << a_i(3); int hi = h, ti = t, zi = z;
        if (BFDEV_CIRCLE_CNT(h, t, z) != (unsigned long)BFDEV_CIRCLE_CNT(hi, ti, zi) || BFDEV_CIRCLE_SPACE(h, t, z) != (unsigned long)BFDEV_CIRCLE_SPACE(hi, ti, zi)) bad("int and long indexes differ");
        o_open(); o_i(BFDEV_CIRCLE_CNT(h, t, z)); o_i(BFDEV_CIRCLE_SPACE(h, t, z));
        if (OP("circle")) { o_i(BFDEV_CIRCLE_CNT_END(h, t, z)); o_i(BFDEV_CIRCLE_SPACE_END(h, t, z)); }
        o_close(); }
    else if (OP("flag")) {
        const char *var = a_s(1); int idx = a_i(3), r; long *b = a_l(4, &c);
        unsigned long *w = calloc(2, sizeof *w); struct flagged *f = calloc(1, sizeof *f);
        if (var[0] == 's') { free(w); w = &f->word; f->guard = -1; }
        for (long k = 0; k < c; ++k) w[b[k] / 64] |= 1ul << (b[k] % 64);
        r = flag(var, a_s(2), idx, w, f);
        o_open(); o_i(r); o_open(); for (int k = 0; k < (var[0] == 's' ? 64 : 128); ++k) if (w[k / 64] >> (k % 64) & 1) o_i(k); o_close(); o_close();
        if (var[0] == 's' && (f->pad || f->guard != -1)) bad("a neighbour of the flag word changed");
        if (var[0] != 's') free(w);
        free(f); }
    else if (OP("action")) {
        long *q = a_l(1, &c); bfdev_action_t act; memset(&act, 0, sizeof act);
        o_open();
        for (long k = 0; k + 1 < c; k += 2) {
            void *d = (void *)q[k + 1];
            if (q[k] == 1) { if (q[k + 1] & 1) bfdev_action_init(&act, act_fn, d); else { act = BFDEV_ACTION_INIT(act_fn2, d); } }
            else if (q[k] == 2) bfdev_action_update(&act, d);
            else if (q[k] == 3) bfdev_action_clear(&act);
            else { acted = 0; int r = bfdev_action_call(&act); o_i(r == -BFDEV_ENODATA && !acted ? -61 : r); if (acted > 1) bad("called twice"); }
        }
        o_close(); }
    else if (OP("once")) {          /* a fresh once-guard per script is not possible in one process: each length has its own, used once per process */
        long *q = a_l(1, &c), i; int pid, fd[2]; char out[256]; ssize_t got;
        if (c > 64 || pipe(fd)) bad("op");
        fflush(stdout);
        if (!(pid = fork())) {
            for (i = 0; i < c; ++i) {
                once_body = 0;
                int ret = BFDEV_DO_ONCE_ON(q[i], once_fn, 1) ? 1 : 0;
                out[i] = once_body; out[64 + i] = BFDEV_DO_ONCE_DONE(q[i]) ? 1 : 0; out[128 + i] = ret;
            }
            got = write(fd[1], out, 192); _exit(got != 192);
        }
        close(fd[1]); got = read(fd[0], out, 192); close(fd[0]);
        if (got != 192) bad("once");
        o_open(); for (int p = 0; p < 3; ++p) { o_open(); for (i = 0; i < c; ++i) o_i(out[64 * p + i]); o_close(); } o_close(); }
    else if (OP("clean")) {
        ncleaned = 0; int *p = scoped(a_i(1), a_i(2));
        o_open(); o_i(p ? *p : -1); o_open(); for (int k = 0; k < ncleaned; ++k) o_i(cleaned[k]); o_close(); o_close(); free(p); }
    else if (OP("scn") || OP("scnbad")) {
        size_t z = a_i(1); char *b = malloc(z ? z : 1), *t = NULL; int r; memset(b, 0x5a, z);
        if (OP("scn")) { unsigned char *m = a_b(2, &n); t = malloc(n + 1); memcpy(t, m, n); t[n] = 0; free(m); r = bfdev_scnprintf(b, z, "%s", t); }
        else { wchar_t w[2] = { 0x7ffffff0, 0 }; r = bfdev_scnprintf(b, z, "%ls", (void *)w); }
        o_open(); o_i(r); o_bytes(b, z ? strlen(b) : 0); o_close(); free(b); free(t); }
    else if (OP("swap")) { long x = a_i(1), y = a_i(2); signed char sx = x, sy = y; bfdev_swap(x, y); bfdev_swap(sx, sy); if (sx != x || sy != y) bad("swap of chars"); o_open(); o_i(x); o_i(y); o_close(); }
    else if (OP("cmp")) o_i(bfdev_cmp(a_i(1)));
    else if (OP("time")) {
        bfdev_time_t x = a_u64(1), y = a_u64(2);
        o_open(); o_i(bfdev_time_compare(x, y)); o_i(bfdev_time_after(x, y)); o_i(bfdev_time_before(x, y)); o_i(bfdev_time_after_equal(x, y)); o_i(bfdev_time_before_equal(x, y)); o_close(); }
    else if (OP("shift")) { uint64_t x = a_u64(1), y = a_u64(2); o_open(); o_u64(bfdev_time_add(x, y)); o_u64(bfdev_time_sub(x, y)); o_close(); }
    else if (OP("bitno")) {
        unsigned long v = a_i(1);
#define FAM(F) o_i(F##_U8(v)); o_i(F##_U16(v)); o_i(F##_U32(v)); o_i(F##_U64(v)); o_i(F##_CHAR(v)); o_i(F##_SHORT(v)); o_i(F##_INT(v)); o_i(F##_LONG(v)); o_i(F##_LONG_LONG(v));
        o_open(); FAM(BFDEV_BITS_DIV) FAM(BFDEV_BITS_MOD) FAM(BFDEV_BITS_TO) o_close(); }
    else if (OP("bit")) { if (BFDEV_BITUL(a_i(1)) != BFDEV_BITULL(a_i(1))) bad("long and long long bits differ"); o_u64(BFDEV_BITUL(a_i(1))); }
    else if (OP("assert")) {
        int fd[2], pid, st, v[2] = { 0, 0 }, bug = a_i(1), cond = a_i(2) * 8;
        if (pipe(fd)) bad("op");
        fflush(stdout);
        if (!(pid = fork())) {
            bfdev_log_default.write = hook; bfdev_log_default.record_level = BFDEV_LEVEL_DEBUG; alerts = 0; alert_fd = fd[1];
            signal(SIGABRT, on_abort);
            alert_write(fd[1], warned(bug, cond)); _exit(0);
        }
        close(fd[1]); if (read(fd[0], v, sizeof v) != sizeof v) bad("no answer"); close(fd[0]);
        waitpid(pid, &st, 0);
        o_open(); o_i(v[0]); o_i(v[1]); o_i(WIFEXITED(st) && WEXITSTATUS(st) == 7); o_close(); }
    else if (OP("member")) {
        static struct holder h[4]; int k = a_i(1) & 3, there = a_i(2);
        struct holder *b = &h[k]; int *f = there ? &b->first : NULL; const char *lp = &b->last; const struct holder *cb; long *yp = &b->in.y; struct holder *sb;
        cb = bfdev_container_of_const(lp, struct holder, last);
        if (cb != b || bfdev_container_of(yp, struct holder, in.y) != b || bfdev_container_of(&b->first, struct holder, first) != b) bad("container");
        sb = bfdev_container_of_safe(f, struct holder, first);
        o_open(); o_i(cb - h); o_i(sb ? sb - h : -1); o_close(); }
    else if (OP("group")) {
        struct grouped g; memset(&g, 0x5a, sizeof g);
        g.x = a_i(1); g.pair.y = a_i(2); g.packed.c = a_i(3); g.l = -1;
        if (g.before != 0x5a5a5a5a || g.after != 0x5a5a5a5a || g.packed.l != -1 || g.c != a_i(3)) bad("group");
        o_open(); o_i(g.x); o_i(g.y); o_i(g.packed.c); o_i(g.pair.x); o_i(g.pair.y); o_i(bfdev_struct_field(struct grouped, x)); o_i(bfdev_struct_field(struct grouped, pair)); o_i(sizeof(((struct grouped *)0)->packed) + 7); o_close(); }
    else if (OP("repeat")) o_u64(BFDEV_REPEAT_BYTE(a_i(1)));
    else if (OP("consts")) {
        o_open();
        o_open(); o_i(BFDEV_COUNT_ARGS()); o_i(BFDEV_COUNT_ARGS(a)); o_i(BFDEV_COUNT_ARGS(a, b)); o_i(BFDEV_COUNT_ARGS(a, b, c)); o_i(BFDEV_COUNT_ARGS(a, b, c, d));
        o_i(BFDEV_COUNT_ARGS(a, b, c, d, e)); o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f)); o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g)); o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h));
        o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i)); o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j)); o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j, k));
        o_i(BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j, k, l)); o_close();
        static const unsigned long long sz[] = {
            BFDEV_SZ_1Byte, BFDEV_SZ_2Byte, BFDEV_SZ_4Byte, BFDEV_SZ_8Byte, BFDEV_SZ_16Byte, BFDEV_SZ_32Byte, BFDEV_SZ_64Byte, BFDEV_SZ_128Byte, BFDEV_SZ_256Byte, BFDEV_SZ_512Byte,
            BFDEV_SZ_1KiB, BFDEV_SZ_2KiB, BFDEV_SZ_4KiB, BFDEV_SZ_8KiB, BFDEV_SZ_16KiB, BFDEV_SZ_32KiB, BFDEV_SZ_64KiB, BFDEV_SZ_128KiB, BFDEV_SZ_256KiB, BFDEV_SZ_512KiB,
            BFDEV_SZ_1MiB, BFDEV_SZ_2MiB, BFDEV_SZ_4MiB, BFDEV_SZ_8MiB, BFDEV_SZ_16MiB, BFDEV_SZ_32MiB, BFDEV_SZ_64MiB, BFDEV_SZ_128MiB, BFDEV_SZ_256MiB, BFDEV_SZ_512MiB,
            BFDEV_SZ_1GiB, BFDEV_SZ_2GiB, BFDEV_SZ_4GiB, BFDEV_SZ_8GiB, BFDEV_SZ_16GiB, BFDEV_SZ_32GiB, BFDEV_SZ_64GiB, BFDEV_SZ_128GiB, BFDEV_SZ_256GiB, BFDEV_SZ_512GiB };
        o_open(); for (size_t k = 0; k < sizeof sz / sizeof *sz; ++k) o_i(sz[k] & (sz[k] - 1) ? -1 : __builtin_ctzll(sz[k])); o_close();
        if (BFDEV_MMAP_SPLITN(1, pairs1, 7) != 7 || sum(2, BFDEV_MMAP_ARGN(2, pairs2, 1, 2, 3, 4)) != 12 + 340 || decl2(4, 2) != 42) bad("argument mapping");
        o_open(); o_i(sum(1, BFDEV_MMAP_SPLITN(1, ID, 1))); o_i(sum(2, BFDEV_MMAP_SPLITN(2, ID, 1, 2))); o_i(sum(3, BFDEV_MMAP_SPLITN(3, ID, 1, 2, 3)));
        o_i(sum(4, BFDEV_MMAP_SPLITN(4, ID, 1, 2, 3, 4))); o_i(sum(5, BFDEV_MMAP_SPLITN(5, ID, 1, 2, 3, 4, 5))); o_i(sum(6, BFDEV_MMAP_SPLITN(6, ID, 1, 2, 3, 4, 5, 6))); o_close();
        bfdev_cbfunc_noop();
        o_open(); o_i(((long (*)(void))bfdev_dummy_ret0)()); o_i(((long (*)(void))bfdev_dummy_ret1)()); o_close();
        int iv = 0, *ip = &iv; (void)ip;
        o_open(); o_i(bfdev_typecheck(int, iv)); o_i(bfdev_typecheck_pointer(ip)); o_i(bfdev_typecheck_func(long (*)(int), pairs1)); o_i(!strcmp(__bfdev_stringify(BFDEV_BITS_PER_U8 + 1), "(sizeof(uint8_t) * __CHAR_BIT__) + 1") || strlen(__bfdev_stringify(ID(ab))) == 2);
        o_i(bfdev_is_signed(unsigned long)); o_i(bfdev_is_signed(uint8_t)); o_i(bfdev_is_unsigned(int)); o_i(bfdev_is_unsigned(signed char)); o_close();
        o_close(); }
    else bad("op");
}
