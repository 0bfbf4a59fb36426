#define DRV_ALLOC
#include "drv.h"
#ifdef RING
#include <bfdev/ringbuf.h>
#define F(x) bfdev_ringbuf_##x
#define DEFINE_S(n,t,s) BFDEV_DEFINE_RINGBUF(n,t,s)
#define DEFINE_SR(n,t,s,r) BFDEV_DEFINE_RINGBUF_RECORD(n,t,s,r)
#define DEFINE_D(n,t) BFDEV_DEFINE_RINGBUF_DYNAMIC(n,t)
#define DEFINE_DR(n,t,r) BFDEV_DEFINE_RINGBUF_DYNAMIC_RECORD(n,t,r)
#define INIT_S BFDEV_RINGBUF_INIT
#define INIT_D BFDEV_RINGBUF_DYNAMIC_INIT
#else
#include <bfdev/fifo.h>
#define F(x) bfdev_fifo_##x
#define DEFINE_S(n,t,s) BFDEV_DEFINE_FIFO(n,t,s)
#define DEFINE_SR(n,t,s,r) BFDEV_DEFINE_FIFO_RECORD(n,t,s,r)
#define DEFINE_D(n,t) BFDEV_DEFINE_FIFO_DYNAMIC(n,t)
#define DEFINE_DR(n,t,r) BFDEV_DEFINE_FIFO_DYNAMIC_RECORD(n,t,r)
#define INIT_S BFDEV_FIFO_INIT
#define INIT_D BFDEV_FIFO_DYNAMIC_INIT
#endif
#include <bfdev/circle.h>

typedef struct { unsigned char b[12]; } s12;
typedef unsigned char u8;
static void putv(void *p, long v, size_t cell) { u8 *b = p; for (size_t k = 0; k < cell; ++k) b[k] = (u8)(v + 37*k); }
static long getv(const void *p, size_t cell) { const u8 *b = p; long v = b[0]; for (size_t k = 0; k < cell; ++k) if (b[k] != (u8)(v + 37*k)) return -999; return v; }
static int alloced;

#define PROJ(f) do { o_i(F(len)(f)); o_i(!!F(check_empty)(f)); o_i(!!F(check_full)(f)); } while (0)
#define BODY(f, T, DYN) \
    long n; \
    if (OP("alloc") || OP("halloc")) { if (!DYN) bad("alloc"); if (alloced) F(free)(f); alloced = 0; int r = F(alloc)(f, &al_test, a_u64(1)); alloced = !r; o_i(r == 0 ? (long)F(size)(f) : r == -BFDEV_EINVAL ? -1 : r == -BFDEV_ENOMEM ? -2 : r); o_i(al_live); if (!r && F(esize)(f) != sizeof(T)) o_i(-9); } \
    else if (OP("oomalloc")) { if (alloced) F(free)(f); alloced = 0; al_arm(1, 0); int r = F(alloc)(f, &al_test, a_u64(1)); al_disarm(); alloced = !r; o_i(r == 0 ? 0 : r == -BFDEV_ENOMEM ? -2 : r); o_i(al_live); } \
    else if (OP("free")) { F(free)(f); alloced = 0; o_i(0); o_i(al_live); } \
    else { \
    if (OP("put")) { T x; putv(&x, a_i(1), sizeof(T)); o_i(F(put)(f, x)); } \
    else if (OP("get")) { T x; memset(&x, 0xee, sizeof x); long r = F(get)(f, &x); o_i(r); o_i(r ? getv(&x, sizeof(T)) : -1); } \
    else if (OP("peek")) { T x; memset(&x, 0xee, sizeof x); long r = F(peek)(f, &x); o_i(r); o_i(r ? getv(&x, sizeof(T)) : -1); } \
    else if (OP("in")) { long *v = a_l(1, &n); T *b = malloc(n * sizeof(T) + !n); for (long k = 0; k < n; ++k) putv(b + k, v[k], sizeof(T)); o_i(F(in)(f, b, n)); free(b); } \
    else if (OP("out") || OP("outpeek")) { long m = a_i(1); T *b = malloc((m + 1) * sizeof(T)); memset(b, 0xee, (m + 1) * sizeof(T)); \
        long r; if (OP("out")) r = F(out)(f, b, m); else r = F(out_peek)(f, b, m); \
        o_i(r); o_open(); for (long k = 0; k < r && k < m; ++k) o_i(getv(b + k, sizeof(T))); o_close(); \
        int clean = 1; for (size_t k = (r < m ? r : m) * sizeof(T); k < (m + 1) * sizeof(T); ++k) if (((u8 *)b)[k] != 0xee) clean = 0; \
        if (!clean) o_i(-77); free(b); } \
    else if (OP("pump")) { alarm(300); cpu_limit(200); F(reset)(f); size_t z = F(size)(f), rc = F(recsize)(f), m = z - rc; T *b = malloc(m * sizeof(T)), *c = malloc(m * sizeof(T)); memset(b, 0x3c, m * sizeof(T)); \
        uint64_t left = (1ull << 32) - a_i(1); long ok = 0; \
        while (left) { size_t k = left < z ? left - rc : m; b[0] = b[k - 1]; ((u8 *)b)[0] = (u8)left; if (F(in)(f, b, k) != k || F(out)(f, c, k) != k || ((u8 *)c)[0] != (u8)left || memcmp(b, c, left < z || left == 1ull << 32 ? k * sizeof(T) : 1)) { ok = 1; break; } left -= k + rc; } \
        o_i(ok); free(b); free(c); } \
    else if (OP("reset")) { F(reset)(f); o_i(0); } \
    else if (OP("homing")) { F(homing)(f); o_i(0); } \
    else bad("op"); \
    PROJ(f); }

#define KS(name, T, size) static DEFINE_S(name, T, size); static void name##_new(void) { static int used; if (used++) name = INIT_S(&name); memset(name.buff, 0x5a, sizeof name.buff); } static void name##_cmd(void) { BODY(&name, T, 0) }
#define KSR(name, T, size, r) static DEFINE_SR(name, T, size, r); static void name##_new(void) { static int used; if (used++) name = INIT_S(&name); memset(name.buff, 0x5a, sizeof name.buff); } static void name##_cmd(void) { BODY(&name, T, 0) }
#define KD(name, T) static DEFINE_D(name, T); static void name##_new(void) { static int used; if (used++) name = INIT_D(&name); } static void name##_cmd(void) { BODY(&name, T, 1) }
#define KDR(name, T, r) static DEFINE_DR(name, T, r); static void name##_new(void) { static int used; if (used++) name = INIT_D(&name); } static void name##_cmd(void) { BODY(&name, T, 1) }
KS(c2, u8, 2) KS(c4, u8, 4) KS(c8, u8, 8) KS(c64, u8, 64)
KS(i4, uint32_t, 4) KS(i8, uint32_t, 8) KS(l2, uint64_t, 2) KS(s8, s12, 8)
KD(dc, u8) KD(di, uint32_t) KD(ds, s12)
KSR(r8, u8, 8, 1) KSR(r16, u8, 16, 1) KSR(r64, u8, 64, 1) KSR(r16x2, u8, 16, 2) KSR(r512, u8, 512, 2) KSR(r64x4, u8, 64, 4)
KDR(d1, u8, 1) KDR(d2, u8, 2) KDR(d3, u8, 3)
KSR(w8, uint32_t, 8, 1) KSR(h16, uint16_t, 16, 2) KSR(x8, s12, 8, 1) KSR(y16, s12, 16, 3) KDR(dw, uint32_t, 1) KDR(dx, s12, 2)
#define TAB X(w8) X(h16) X(x8) X(y16) X(dw) X(dx) X(c2) X(c4) X(c8) X(c64) X(i4) X(i8) X(l2) X(s8) X(dc) X(di) X(ds) X(r8) X(r16) X(r64) X(r16x2) X(r512) X(r64x4) X(d1) X(d2) X(d3)
static void (*cmd)(void);
static void drv_reset(void) { cmd = NULL; alloced = 0; al_reset(); }
static void drv_cmd(void) {
    o_raw("[");
    if (OP("new")) {
#define X(n) if (!strcmp(a_s(1), #n)) { n##_new(); cmd = n##_cmd; }
        TAB
        if (!cmd) bad("kind");
        o_i(0); o_i(0);
    } else if (OP("circle")) {     /* head tail size */
        unsigned long h = a_i(1), t = a_i(2), s = a_i(3);
        o_i(BFDEV_CIRCLE_CNT(h, t, s)); o_i(BFDEV_CIRCLE_SPACE(h, t, s));
        o_i(BFDEV_CIRCLE_CNT_END(h, t, s));
        o_i(BFDEV_CIRCLE_SPACE_END(h, t, s));
    } else cmd();
    o_raw("]");
}
