#include "drv.h"
#include "bits.h"
#include <bfdev/popcount.h>
#include <bfdev/bitrev.h>
#include <bfdev/bitops-endian.h>
#define bfdev_bit_test_change_le bfdev_bit_atomic_test_change_le      /* the plain little-endian form does not exist */
static void drv_reset(void) { memset(reg, 0, sizeof reg); }
static volatile unsigned vlen, voff; static volatile uint64_t vval; static uint64_t cval;
enum { FIRST, LAST, NEXT, PREV, EACH, EACHR, EACHC, EACHRC, EACHF, EACHRF, NAND, PAND };
static unsigned off; static int zr;
#define WALK(m, init) { unsigned i = init, c = 0; m(i, cur[1], L) { if (++c > 1000) bad("endless walk"); o_i(i); } } break
AI void body(int op, const unsigned L) {
    if (op >= EACH && op < NAND) o_open();
    if (zr) switch (op) {
    case FIRST: o_i(bfdev_find_first_zero(cur[1], L)); break;
    case LAST: o_i(bfdev_find_last_zero(cur[1], L)); break;
    case NEXT: o_i(bfdev_find_next_zero(cur[1], L, off)); break;
    case PREV: o_i(bfdev_find_prev_zero(cur[1], L, off)); break;
    case EACH: WALK(bfdev_for_each_zero, 0);
    case EACHR: WALK(bfdev_for_each_zero_reverse, 0);
    case EACHC: WALK(bfdev_for_each_zero_continue, off);
    case EACHRC: WALK(bfdev_for_each_zero_reverse_continue, off);
    case EACHF: WALK(bfdev_for_each_zero_form, off);
    case EACHRF: WALK(bfdev_for_each_zero_reverse_form, off);
    } else switch (op) {
    case FIRST: o_i(bfdev_find_first_bit(cur[1], L)); break;
    case LAST: o_i(bfdev_find_last_bit(cur[1], L)); break;
    case NEXT: o_i(bfdev_find_next_bit(cur[1], L, off)); break;
    case PREV: o_i(bfdev_find_prev_bit(cur[1], L, off)); break;
    case EACH: WALK(bfdev_for_each_bit, 0);
    case EACHR: WALK(bfdev_for_each_bit_reverse, 0);
    case EACHC: WALK(bfdev_for_each_bit_continue, off);
    case EACHRC: WALK(bfdev_for_each_bit_reverse_continue, off);
    case EACHF: WALK(bfdev_for_each_bit_form, off);
    case EACHRF: WALK(bfdev_for_each_bit_reverse_form, off);
    case NAND: o_i(bfdev_find_next_and_bit(cur[1], cur[2], L, off)); break;
    case PAND: o_i(bfdev_find_prev_and_bit(cur[1], cur[2], L, off)); break;
    }
    if (op >= EACH && op < NAND) o_close();
}
static void run(int op, unsigned len, int k) {
    take(BFDEV_BITS_TO_LONG(len));
    if (!k) { vlen = len; body(op, vlen); give(0); return; }
    switch (len) {
#define X(n) case n: body(op, n); give(0); return;
    LENS(X)
#undef X
    }
    bad("constant length");
}
static uint64_t val(int k) { long n, *v = a_l(k, &n); uint64_t x = 0; for (long j = 0; j < n; ++j) x |= 1ull << v[j]; vval = x; return vval; }
static void o_val(uint64_t v) { o_open(); for (int i = 0; i < 64; ++i) if (v >> i & 1) o_i(i); o_close(); }
#define W4(c, m8, m16, m32, m64) switch (w) { case 8: r = m8((uint8_t)v); break; case 16: r = m16((uint16_t)v); break; case 32: r = m32((uint32_t)v); break; case 64: r = m64((uint64_t)v); break; default: bad("width"); }
#define R4(f) switch (w) { case 8: r = f##8((uint8_t)v, sh); break; case 16: r = f##16((uint16_t)v, sh); break; case 32: r = f##32((uint32_t)v, sh); break; case 64: r = f##64(v, sh); break; default: bad("width"); }
#define V3(f) (k == 0 ? ({ W4(0, f##8_dynamic, f##16_dynamic, f##32_dynamic, f##64_dynamic) r; }) : k == 1 ? ({ W4(0, f##8_const, f##16_const, f##32_const, f##64_const) r; }) : ({ W4(0, f##8, f##16, f##32, f##64) r; }))
static int flip;
static long nth(unsigned int (*f)(unsigned long, unsigned int), unsigned int (*g)(unsigned long, unsigned int *), uint64_t v, unsigned n) {
    unsigned r = f(v, n), p = n, q = g(v, &p);
    if (r != q) return -1;
    return r < 64 ? (long)r : 64;
}
static void drv_cmd(void) {
    static const char *sn[] = { "first", "last", "next", "prev", "each", "each_rev", "each_cont", "each_rev_cont", "each_form", "each_rev_form" };
    if (OP("init")) { for (int i = 1; i <= 2; ++i) load(i, i); o_i(0); return; }
    for (unsigned i = 0; i < sizeof sn / sizeof *sn; ++i) if (OP(sn[i])) { zr = a_i(1); voff = argc_ > 4 ? a_i(4) : 0; off = voff; run(i, a_i(2), a_i(3)); return; }
    if (OP("next_and") || OP("prev_and")) { zr = 0; voff = a_i(3); off = voff; run(OP("next_and") ? NAND : PAND, a_i(1), a_i(2)); return; }
    if (OP("sfirst") || OP("slast") || OP("snext") || OP("sprev")) { unsigned L = a_i(2); unsigned long inv = a_i(1) ? ~0ul : 0; take(BFDEV_BITS_TO_LONG(L)); unsigned r;
        if (OP("sfirst")) r = bfdev_comp_find_first_bit(cur[1], L, inv, true);
        else if (OP("slast")) r = bfdev_comp_find_last_bit(cur[1], L, inv, true);
        else if (OP("snext")) r = bfdev_comp_find_next_bit(cur[1], NULL, L, a_i(3), inv, true);
        else r = bfdev_comp_find_prev_bit(cur[1], NULL, L, a_i(3), inv, true);
        give(0); o_i(r); return; }
    uint64_t v, r = 0; unsigned w, sh; int k;
    if (OP("popcount") || OP("parity") || OP("bitrev")) { w = a_i(1); v = val(2); k = a_i(3);
        if (OP("popcount")) o_i(V3(bfdev_popcount)); else if (OP("parity")) o_i(V3(bfdev_popparity)); else o_val(V3(bfdev_bitrev)); return; }
    if (OP("rol") || OP("ror")) { w = a_i(1); v = val(2); sh = a_i(3); if (OP("rol")) { R4(bfdev_rol) } else { R4(bfdev_ror) } o_val(r); return; }
#define WOP(n) if (OP(#n)) { v = val(1); o_i(a_i(2) ? bfdev_##n##64(v) : bfdev_##n(v)); return; }
    WOP(ffs) WOP(fls) WOP(ffz) WOP(flz) WOP(ffsuf) WOP(flsuf) WOP(ffzuf) WOP(flzuf) WOP(ctz) WOP(clz)
#define NOP(n) if (OP(#n)) { v = val(1); o_i(a_i(3) ? nth(bfdev_##n##64, bfdev_##n##p64, v, a_i(2)) : nth(bfdev_##n, bfdev_##n##p, v, a_i(2))); return; }
    NOP(ffns) NOP(flns) NOP(ffnz) NOP(flnz)
    /* single bits: i atomic [val] */
    unsigned b = a_i(1); int at = a_i(2), c = argc_ > 3 ? a_i(3) : 0; long old = 0;
    take(b / 64 + 1); (void)flip; (void)cval;
#define BOP(n, ...) if (OP(#n)) { switch (at) { \
    case 0: bfdev_bit_##n(cur[1], b, ##__VA_ARGS__); break; case 1: bfdev_bit_atomic_##n(cur[1], b, ##__VA_ARGS__); break; \
    case 2: bfdev_bit_##n##_le(cur[1], b, ##__VA_ARGS__); break; case 3: bfdev_bit_atomic_##n##_le(cur[1], b, ##__VA_ARGS__); break; \
    case 4: bfdev_bit_##n##_be(cur[1], b, ##__VA_ARGS__); break; case 5: bfdev_bit_atomic_##n##_be(cur[1], b, ##__VA_ARGS__); break; } goto done; }
#define TOP(n, ...) if (OP(#n)) { old = at == 0 ? bfdev_bit_##n(cur[1], b, ##__VA_ARGS__) : at == 1 ? bfdev_bit_atomic_##n(cur[1], b, ##__VA_ARGS__) : \
    at == 2 ? bfdev_bit_##n##_le(cur[1], b, ##__VA_ARGS__) : at == 3 ? bfdev_bit_atomic_##n##_le(cur[1], b, ##__VA_ARGS__) : \
    at == 4 ? bfdev_bit_##n##_be(cur[1], b, ##__VA_ARGS__) : bfdev_bit_atomic_##n##_be(cur[1], b, ##__VA_ARGS__); goto done; }
    BOP(set) BOP(clr) BOP(flip) BOP(change, c) TOP(test) TOP(test_set) TOP(test_clr) TOP(test_flip) TOP(test_change, c)
    bad("op");
done:
    give(1); o_open(); o_i(old); o_reg(1); o_close();
}
