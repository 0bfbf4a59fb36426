/* the integer helpers, each applied to operands given as bytes (least significant first) */
#include "drv.h"
#include <stdbool.h>
#include <limits.h>
#include <bfdev/config.h>
#include <bfdev/compiler.h>
#include <bfdev/math.h>
#include <bfdev/align.h>
#include <bfdev/minmax.h>
#include <bfdev/log2.h>
#include <bfdev/overflow.h>
#include <bfdev/dword.h>
#include <bfdev/bcd.h>
#include <bfdev/swab.h>
#include <bfdev/byteorder.h>
#include <bfdev/unaligned.h>
#include <bfdev/bitfield.h>
#include <bfdev/hash.h>
#include <bfdev/jhash.h>
#include <bfdev/bits.h>

#define UNSIG(X) X(u8, uint8_t) X(u16, uint16_t) X(u32, uint32_t) X(u64, uint64_t)
#define SIG(X) X(s8, int8_t) X(s16, int16_t) X(s32, int32_t) X(s64, int64_t)
static void take(int k, void *p, size_t w) {
    size_t n; unsigned char *b = a_b(k, &n);
    if (n != w) bad("op");
    memcpy(p, b, w); free(b);
}
#define GET(type, v, k) type v; take(k, &v, sizeof(v))
#define OUT(v) do { typeof(v) v_ = (v); o_bytes(&v_, sizeof(v_)); } while (0)
#define OUT8(e) do { typeof(e) e_ = (e); unsigned long long q_ = (unsigned long long)e_; o_bytes(&q_, 8); } while (0)
#define FLAG(e) do { o_open(); o_i((e) ? 1 : 0); o_close(); } while (0)
#define IS(k, n) (!strcmp(a_s(k), #n))

static void drv_reset(void) { }

/* ---- forms for operands known to the compiler ---- */
struct klog { unsigned long long v; long l1, l2; bool p; unsigned long long up, down; };
static struct klog kl[256]; static int nkl;
#define K(x) do { kl[nkl].v = (x); kl[nkl].l1 = bfdev_ilog2(x); kl[nkl].l2 = bfdev_ilog2_const(x); kl[nkl].p = bfdev_pow2_check(x); \
    kl[nkl].up = (x) <= 1ULL << 63 ? bfdev_pow2_roundup(x) : 0; kl[nkl].down = bfdev_pow2_rounddown(x); ++nkl; } while (0)
#define K3(n) K((1ULL << (n)) - 1); K(1ULL << (n)); K((1ULL << (n)) + 1)
#define K8(n) K3(n); K3((n) + 1); K3((n) + 2); K3((n) + 3); K3((n) + 4); K3((n) + 5); K3((n) + 6); K3((n) + 7)
#define PLAIN __attribute__((noinline, no_sanitize("undefined", "address")))
PLAIN static void klog_low(void) { K8(0); K8(8); K8(16); K8(24); }
PLAIN static void klog_high(void) { K8(32); K8(40); K8(48); K8(56); K(0xffffffffffffffffULL); }
#define KSWAP(x) do { \
    if (v == (x)) { o_open(); OUT((uint16_t)bfdev_swab16(x)); OUT((uint32_t)bfdev_swab32(x)); OUT((uint64_t)bfdev_swab64(x)); \
        OUT((uint32_t)bfdev_swahb32(x)); OUT((uint32_t)bfdev_swahw32(x)); OUT((uint64_t)bfdev_swahb64(x)); \
        OUT((uint64_t)bfdev_swahw64(x)); OUT((uint64_t)bfdev_swahl64(x)); o_close(); return; } } while (0)
static void kswap(uint64_t v) {
    KSWAP(0ULL); KSWAP(0x0102030405060708ULL); KSWAP(0xf1e2d3c4b5a69788ULL); KSWAP(0xffffffffffffffffULL); KSWAP(0x80000000000000ffULL);
    bad("op");
}
static int kbcd(int bin, uint8_t *o) {          /* the compiler sees each value */
#define KB(n) case n: o[0] = bfdev_bin2bcd(n); o[1] = bfdev_bcd2bin(((n) / 10) * 16 + (n) % 10); return 1;
#define KB10(n) KB(n) KB(n + 1) KB(n + 2) KB(n + 3) KB(n + 4) KB(n + 5) KB(n + 6) KB(n + 7) KB(n + 8) KB(n + 9)
    switch (bin) { KB10(0) KB10(10) KB10(20) KB10(30) KB10(40) KB10(50) KB10(60) KB10(70) KB10(80) KB10(90) }
    return 0;
}

/* ---- one function per type ---- */
#define ARITH(n, T) \
static void arith_##n(void) { \
    GET(T, a, 2); GET(T, b, 3); T d; o_open(); \
    if (OP("add")) { FLAG(bfdev_overflow_check_add(a, b, &d)); OUT(d); OUT((T)bfdev_overflow_add_type(T, a, b)); OUT((T)bfdev_overflow_add(a, b)); OUT((T)bfdev_overflow_add_##n(a, b)); } \
    else if (OP("sub")) { FLAG(bfdev_overflow_check_sub(a, b, &d)); OUT(d); OUT((T)bfdev_overflow_sub_type(T, a, b)); OUT((T)bfdev_overflow_sub(a, b)); OUT((T)bfdev_overflow_sub_##n(a, b)); } \
    else { FLAG(bfdev_overflow_check_mul(a, b, &d)); OUT(d); OUT((T)bfdev_overflow_mul_type(T, a, b)); OUT((T)bfdev_overflow_mul(a, b)); OUT((T)bfdev_overflow_mul_##n(a, b)); } \
    o_close(); \
} \
static void near_##n(void) { GET(T, a, 2); GET(T, b, 3); o_open(); OUT8(BFDEV_DIV_ROUND_CLOSEST(a, b)); o_close(); } \
static void minmax_##n(void) { \
    GET(T, a, 2); GET(T, b, 3); GET(T, c, 4); T d; o_open(); \
    OUT((T)bfdev_min(a, b)); OUT((T)bfdev_max(a, b)); OUT((T)bfdev_clamp(a, b, c)); \
    d = a; bfdev_min_adj(d, b); OUT(d); d = a; bfdev_max_adj(d, b); OUT(d); d = a; bfdev_clamp_adj(d, b, c); OUT(d); \
    o_close(); \
}
UNSIG(ARITH) SIG(ARITH)

#define NATS(n, T) \
static void round_##n(void) { GET(T, a, 2); GET(T, b, 3); o_open(); OUT8(bfdev_round_up(a, b)); OUT8(bfdev_round_down(a, b)); o_close(); } \
static void divup_##n(void) { GET(T, a, 2); GET(T, b, 3); o_open(); OUT8(BFDEV_DIV_ROUND_UP(a, b)); o_close(); } \
static void log_##n(void) { \
    GET(T, a, 2); o_open(); \
    o_open(); o_i(bfdev_ilog2(a)); o_i(bfdev_ilog2_dynamic(a)); o_i(bfdev_ilog2_64_dynamic(a)); o_close(); \
    FLAG(bfdev_pow2_check(a)); \
    OUT8(bfdev_pow2_roundup(a)); OUT8(bfdev_pow2_roundup_dynamic(a)); OUT8(bfdev_pow2_rounddown(a)); OUT8(bfdev_pow2_rounddown_dynamic(a)); \
    o_close(); \
} \
static void field_##n(void) { \
    GET(T, m, 2); GET(T, reg, 3); GET(T, val, 4); GET(uint64_t, wide, 5); o_open(); \
    OUT((T)BFDEV_FIELD_GET(m, reg)); OUT((T)BFDEV_FIELD_PREP(m, val)); \
    o_open(); o_i(BFDEV_FIELD_FIT(m, val) ? 1 : 0); o_i(BFDEV_FIELD_FIT(m, wide) ? 1 : 0); o_close(); \
    OUT((T)BFDEV_FIELD_MAX(m)); o_close(); \
}
UNSIG(NATS)

#define ALIGN(nv, V, na, A) \
static void align_##nv##_##na(void) { \
    GET(V, v, 3); GET(A, a, 4); V d; o_open(); \
    FLAG(bfdev_align_check(v, a)); OUT8(bfdev_align_low(v, a)); OUT8(bfdev_align_high(v, a)); \
    d = v; bfdev_align_low_adj(d, a); OUT(d); d = v; bfdev_align_high_adj(d, a); OUT(d); o_close(); \
}
#define AWITH(X, nv, V) X(nv, V, u8, uint8_t) X(nv, V, u16, uint16_t) X(nv, V, u32, uint32_t) X(nv, V, u64, uint64_t) X(nv, V, s32, int32_t)
#define AALL(nv, V) AWITH(ALIGN, nv, V)
UNSIG(AALL)
#define APTR(na, A) \
static void alignptr_##na(void) { \
    GET(uintptr_t, u, 2); GET(A, a, 3); char *v = (char *)u, *d; o_open(); \
    FLAG(bfdev_align_ptr_check(v, a)); OUT(bfdev_align_ptr_low(v, a)); OUT(bfdev_align_ptr_high(v, a)); \
    d = v; bfdev_align_ptr_low_adj(d, a); OUT(d); d = v; bfdev_align_ptr_high_adj(d, a); OUT(d); o_close(); \
}
UNSIG(APTR) APTR(s32, int32_t)

#define SWAP(name, T, x_, y_) \
    if (IS(1, name)) { GET(T, v, 2); T d = v; o_open(); \
        OUT((T)bfdev_##name(v)); OUT((T)bfdev_##name##_const(v)); OUT((T)bfdev_f##name(v)); OUT((T)bfdev_##name##p(&v)); bfdev_##name##s(&d); OUT(d); \
        if (IS(1, swab64)) { unsigned long l = v; OUT(bfdev_swab(l)); OUT(bfdev_swabp(&l)); bfdev_swabs(&l); OUT(l); } \
        o_close(); return; }
static void swap(void) {
    SWAP(swab16, uint16_t, , ) SWAP(swab32, uint32_t, , ) SWAP(swab64, uint64_t, , )
    SWAP(swahb32, uint32_t, , ) SWAP(swahw32, uint32_t, , ) SWAP(swahb64, uint64_t, , ) SWAP(swahw64, uint64_t, , ) SWAP(swahl64, uint64_t, , )
    bad("op");
}
/* the forms for the machine word take turns with the 64-bit ones */
#define LONGW(w, v) ((w) == 64 && __builtin_parityll(v))
#define ORDER(w, T) \
static void order_##w(void) { \
    GET(T, v, 1); T d; o_open(); \
    o_open(); OUT((T)(LONGW(w, v) ? bfdev_cpu_to_le_long(v) : bfdev_cpu_to_le##w(v))); OUT((T)(LONGW(w, v) ? bfdev_le_long_to_cpu(v) : bfdev_le##w##_to_cpu(v))); OUT((T)bfdev_cpu_to_le##w##_const(v)); OUT((T)bfdev_le##w##_to_cpu_const(v)); \
    OUT((T)bfdev_cpu_to_le##w##p(&v)); OUT((T)bfdev_le##w##_to_cpup(&v)); d = v; bfdev_cpu_to_le##w##s(&d); OUT(d); d = v; bfdev_le##w##_to_cpus(&d); OUT(d); o_close(); \
    o_open(); OUT((T)(LONGW(w, v) ? bfdev_cpu_to_be_long(v) : bfdev_cpu_to_be##w(v))); OUT((T)(LONGW(w, v) ? bfdev_be_long_to_cpu(v) : bfdev_be##w##_to_cpu(v))); OUT((T)bfdev_cpu_to_be##w##_const(v)); OUT((T)bfdev_be##w##_to_cpu_const(v)); \
    OUT((T)bfdev_cpu_to_be##w##p(&v)); OUT((T)bfdev_be##w##_to_cpup(&v)); d = v; bfdev_cpu_to_be##w##s(&d); OUT(d); d = v; bfdev_be##w##_to_cpus(&d); OUT(d); o_close(); \
    o_close(); \
} \
static void orderarr_##w(void) { \
    size_t n; T *v = (T *)a_b(2, &n), *d = malloc(n ? n : 1), *e = malloc(n ? n : 1), *f = malloc(n ? n : 1), *g = malloc(n ? n : 1); n /= sizeof(T); \
    if (w == 64 && n % 2) { bfdev_cpu_to_le_long_array((void *)d, (void *)v, n); bfdev_le_long_to_cpu_array((void *)e, (void *)v, n); \
        bfdev_cpu_to_be_long_array((void *)f, (void *)v, n); bfdev_be_long_to_cpu_array((void *)g, (void *)v, n); } \
    else { bfdev_cpu_to_le##w##_array(d, v, n); bfdev_le##w##_to_cpu_array(e, v, n); bfdev_cpu_to_be##w##_array(f, v, n); bfdev_be##w##_to_cpu_array(g, v, n); } \
    o_open(); o_bytes(d, n * sizeof(T)); o_bytes(e, n * sizeof(T)); o_bytes(f, n * sizeof(T)); o_bytes(g, n * sizeof(T)); o_close(); free(d); free(e); free(f); free(g); free(v); \
} \
static void poke_##w(void) { \
    size_t n; unsigned char *b = a_b(1, &n); long at = a_i(2); GET(T, v, 3); \
    if (IS(4, le)) bfdev_unaligned_set_le##w(b + at, v); else if (IS(4, be)) bfdev_unaligned_set_be##w(b + at, v); \
    else if (IS(4, native)) bfdev_unaligned_set_u##w(b + at, v); \
    else if (w == 32) bfdev_unaligned_set_uint(b + at, v); else if (w == 64) bfdev_unaligned_set_ulong(b + at, v); else bfdev_unaligned_set_u16(b + at, v); \
    o_bytes(b, n); free(b); \
} \
static void peek_##w(void) { \
    size_t n; unsigned char *b = a_b(1, &n); long at = a_i(2); o_open(); \
    OUT((T)bfdev_unaligned_get_u##w(b + at)); \
    OUT((T)(w == 16 ? bfdev_unaligned_get_u16(b + at) : w == 32 ? bfdev_unaligned_get_uint(b + at) : bfdev_unaligned_get_ulong(w == 64 ? b + at : (void *)&n))); \
    OUT((T)bfdev_unaligned_get_le##w(b + at)); OUT((T)bfdev_unaligned_get_be##w(b + at)); o_close(); free(b); \
}
ORDER(16, uint16_t) ORDER(32, uint32_t) ORDER(64, uint64_t)

static void drv_cmd(void) {
#define GO(f, n) { f##_##n(); return; }
#define D1(n, T) if (IS(1, n)) { if (OP("near")) GO(near, n) if (OP("minmax")) GO(minmax, n) GO(arith, n) }
    if (OP("add") || OP("sub") || OP("mul") || OP("near") || OP("minmax")) { UNSIG(D1) SIG(D1) bad("op"); }
#define D2(n, T) if (IS(1, n)) { if (OP("round")) GO(round, n) if (OP("divup")) GO(divup, n) if (OP("log")) GO(log, n) GO(field, n) }
    if (OP("round") || OP("divup") || OP("log") || OP("field")) { UNSIG(D2) bad("op"); }
#define D3(nv, V, na, A) if (IS(1, nv) && IS(2, na)) GO(align_##nv, na)
#define D4(nv, V) AWITH(D3, nv, V)
    if (OP("align")) { UNSIG(D4) bad("op"); }
#define D5(na, A) if (IS(1, na)) GO(alignptr, na)
    if (OP("alignptr")) { UNSIG(D5) D5(s32, int32_t) bad("op"); }
    if (OP("klog")) {
        if (!nkl) { klog_low(); klog_high(); }
        GET(uint64_t, v, 1);
        for (int i = 0; i < nkl; ++i) if (kl[i].v == v) {
            o_open(); o_open(); o_i(kl[i].l1); o_i(kl[i].l2); o_close(); FLAG(kl[i].p); OUT8(kl[i].up); OUT8(kl[i].down); o_close(); return; }
        bad("op");
    }
    if (OP("swap")) { swap(); return; }
    if (OP("kswap")) { GET(uint64_t, v, 1); kswap(v); return; }
    if (OP("swaparr")) {
        size_t n; unsigned char *b = a_b(2, &n); long w = a_i(1);
        if (w == 2) bfdev_swab16_array((void *)b, n / 2); else if (w == 4) bfdev_swab32_array((void *)b, n / 4);
        else if (n & 8) bfdev_swab_array((void *)b, n / 8); else bfdev_swab64_array((void *)b, n / 8);
        o_bytes(b, n); free(b); return;
    }
    if (OP("order")) { long n; a_l(1, &n); if (n == 2) GO(order, 16) if (n == 4) GO(order, 32) GO(order, 64) }
    if (OP("orderarr")) { long n = a_i(1); if (n == 2) GO(orderarr, 16) if (n == 4) GO(orderarr, 32) GO(orderarr, 64) }
    if (OP("poke")) { long n; a_l(3, &n); if (n == 2) GO(poke, 16) if (n == 4) GO(poke, 32) GO(poke, 64) }
    if (OP("peek")) { long n = a_i(3); if (n == 2) GO(peek, 16) if (n == 4) GO(peek, 32) GO(peek, 64) }
    if (OP("net")) {
        long n; a_l(1, &n); o_open();
        if (n == 2) { GET(uint16_t, v, 1); OUT((uint16_t)bfdev_htons_const(v)); OUT((uint16_t)bfdev_ntohs_const(v)); }
        else { GET(uint32_t, v, 1); OUT((uint32_t)bfdev_htonl_const(v)); OUT((uint32_t)bfdev_ntohl_const(v)); }
        o_close(); return;
    }
    if (OP("bcd")) {
        volatile int bin = a_i(1), bcd = (bin / 10) * 16 + bin % 10; uint8_t k[2];
        if (!kbcd(bin, k)) bad("op");
        o_open();
        o_i(bfdev_bin2bcd(bin)); o_i(bfdev_bin2bcd_const(bin)); o_i(k[0]);
        o_i(bfdev_bcd2bin(bcd)); o_i(bfdev_bcd2bin_const(bcd)); o_i(k[1]);
        o_close(); return;
    }
    if (OP("hash")) {
        long n, bits = a_i(2); a_l(1, &n); o_open();
        if (n == 4) { GET(uint32_t, v, 1); OUT((uint32_t)bfdev_hashv32(v)); OUT((uint32_t)bfdev_hash32(v, bits)); }
        else { GET(uint64_t, v, 1); OUT((uint64_t)bfdev_hashv64(v)); OUT((uint64_t)bfdev_hash64(v, bits)); OUT((uint64_t)bfdev_hashvl(v)); OUT((uint64_t)bfdev_hashl(v, bits)); }
        o_close(); return;
    }
    if (OP("jhash")) {
        size_t n; unsigned char *b = a_b(1, &n); long off = a_i(3);
        unsigned char *buf = malloc(n + off + !(n + off)); memcpy(buf + off, b, n);      /* ends with the block */
        o_u32(bfdev_jhash(buf + off, n, (uint32_t)a_u64(2))); free(buf); free(b); return;
    }
    if (OP("bit")) {
        long n = a_i(1); GET(uint64_t, v, 2); o_open();
        OUT8(BFDEV_BIT(n)); OUT8(BFDEV_BIT_ULL(n)); OUT8(BFDEV_BIT_SHIFT(n, v)); OUT8(BFDEV_BIT_SHIFT_ULL(n, v)); o_close(); return;
    }
    if (OP("range")) { long hi = a_i(1), lo = a_i(2); o_open(); OUT8(BFDEV_BIT_RANGE(hi, lo)); OUT8(BFDEV_BIT_RANGE_ULL(hi, lo)); o_close(); return; }
    if (OP("mask")) { unsigned int n = a_i(1); o_open(); OUT8(BFDEV_BIT_LOW_MASK(n)); OUT8(BFDEV_BIT_HIGH_MASK(n)); o_close(); return; }
    if (OP("dadd") || OP("dsub")) {
        bfdev_uw_t a[2], b[2], h, l; take(1, a, 16); take(2, b, 16);
        if (OP("dadd")) bfdev_dword_addd(h, l, a[1], a[0], b[1], b[0]); else bfdev_sub_ddmmss(h, l, a[1], a[0], b[1], b[0]);
        o_open(); OUT8(l); OUT8(h); o_close(); return;
    }
    if (OP("dmul")) { GET(bfdev_uw_t, a, 1); GET(bfdev_uw_t, b, 2); bfdev_uw_t h, l; bfdev_umul_ppmm(h, l, a, b); o_open(); OUT8(l); OUT8(h); o_close(); return; }
    if (OP("dqr")) {
        bfdev_uw_t n[2], quot, rem; take(1, n, 16); GET(bfdev_uw_t, d, 2);
        bfdev_udiv_qrnnd(quot, rem, n[1], n[0], d); o_open(); OUT8(quot); OUT8(rem); o_close(); return;
    }
    if (OP("ddiv")) {
        bfdev_uw_t n[2], quot[2], q[2], rem, r; take(1, n, 16); GET(bfdev_uw_t, d, 2);
        bfdev_dword_udiv(quot, &rem, n, d); bfdev_dword_udiv(q, NULL, n, d); bfdev_dword_udiv(NULL, &r, n, d);
        o_open(); o_bytes(quot, 16); OUT8(rem); o_bytes(q, 16); OUT8(r); o_close(); return;
    }
    if (OP("ddivd")) {
        bfdev_uw_t n[2], d[2], quot[2], q[2], rem[2] = { 7, ~0UL }, r[2] = { 7, ~0UL }; take(1, n, 16); take(2, d, 16);
        bfdev_dword_udivd(quot, rem, n, d); bfdev_dword_udivd(q, NULL, n, d); bfdev_dword_udivd(NULL, r, n, d);
        o_open(); o_bytes(quot, 16); o_bytes(rem, 16); o_bytes(q, 16); o_bytes(r, 16); o_close(); return;
    }
    bad("op");
}
