#define DRV_ALLOC
#include "drv.h"
#include "bits.h"
static void drv_reset(void) { al_reset(); memset(reg, 0, sizeof reg); }
enum { AND, ANDNOT, OR, XOR, SHL, SHR, COMPL, COPY, ZERO, FILL, EMPTY, FULL, EQUAL, OREQ, INTER, SET, CLR };
static int d, x, y, z; static volatile unsigned vlen, vstart; static unsigned sh;
AI long body(int op, const unsigned L) {
    switch (op) {
    case AND: return bfdev_bitmap_and(cur[d], cur[x], cur[y], L);
    case ANDNOT: return bfdev_bitmap_andnot(cur[d], cur[x], cur[y], L);
    case OR: bfdev_bitmap_or(cur[d], cur[x], cur[y], L); return 0;
    case XOR: bfdev_bitmap_xor(cur[d], cur[x], cur[y], L); return 0;
    case SHL: bfdev_bitmap_shl(cur[d], cur[x], sh, L); return 0;
    case SHR: bfdev_bitmap_shr(cur[d], cur[x], sh, L); return 0;
    case COMPL: bfdev_bitmap_complement(cur[d], cur[x], L); return 0;
    case COPY: bfdev_bitmap_copy(cur[d], cur[x], L); return 0;
    case ZERO: bfdev_bitmap_zero(cur[d], L); return 0;
    case FILL: bfdev_bitmap_fill(cur[d], L); return 0;
    case EMPTY: return bfdev_bitmap_empty(cur[d], L);
    case FULL: return bfdev_bitmap_full(cur[d], L);
    case EQUAL: return bfdev_bitmap_equal(cur[x], cur[y], L);
    case OREQ: return bfdev_bitmap_or_equal(cur[x], cur[y], cur[z], L);
    case INTER: return bfdev_bitmap_intersects(cur[x], cur[y], L);
    }
    return -1;
}
static long run(int op, unsigned len, int k) {
    if (!k) { vlen = len; return body(op, vlen); }
    switch (len) {
#define X(n) case n: return body(op, n);
    LENS(X)
#undef X
    }
    bad("constant length"); return 0;
}
AI void body2(int op, const unsigned S, const unsigned L) { if (op == SET) bfdev_bitmap_set(cur[d], S, L); else bfdev_bitmap_clr(cur[d], S, L); }
AI void mid2(int op, const unsigned S, unsigned len) {
    switch (len) {
#define X(n) case n: body2(op, S, n); return;
    LENS(X)
#undef X
    }
    bad("constant length");
}
static void run2(int op, unsigned st, unsigned len, int k) {
    if (!k) { vstart = st; vlen = len; unsigned a = vstart, b = vlen; body2(op, a, b); return; }
    switch (st) {
    case 0: mid2(op, 0, len); return; case 1: mid2(op, 1, len); return; case 8: mid2(op, 8, len); return; case 16: mid2(op, 16, len); return;
    case 63: mid2(op, 63, len); return; case 64: mid2(op, 64, len); return; case 65: mid2(op, 65, len); return; case 120: mid2(op, 120, len); return;
    }
    bad("constant start");
}
static int op_of(void) {
    static const char *n[] = { "and", "andnot", "or", "xor", "shl", "shr", "complement", "copy", "zero", "fill", "empty", "full", "equal", "or_equal", "intersects", "set", "clr" };
    for (unsigned i = 0; i < sizeof n / sizeof *n; ++i) if (OP(n[i])) return i;
    return -1;
}
static void drv_cmd(void) {
    int op = op_of(); unsigned len; long r; d = x = y = z = 1;
    if (OP("init")) { for (int i = 1; i <= 4; ++i) load(i, i); o_i(0); return; }
    if (OP("alloc") || OP("zalloc")) { int zr = OP("zalloc"), ok = 1; len = a_i(1);
        unsigned long *m = zr ? bfdev_bitmap_zalloc(&al_test, len) : bfdev_bitmap_alloc(&al_test, len);
        if (m && zr) for (unsigned i = 0; i < len; ++i) ok &= !(m[i / 64] >> (i % 64) & 1);
        if (m && len) memset(m, 0x5a, BFDEV_BITS_TO_LONG(len) * 8);
        if (m) bfdev_bitmap_free(&al_test, m);
        o_open(); o_i(!!m); if (zr) o_i(ok); o_i(al_live); o_close(); return; }
    if (OP("replace")) { len = a_i(5); d = a_i(1); take(BFDEV_BITS_TO_LONG(len));
        bfdev_bitmap_comp_replace(cur[d], cur[a_i(2)], cur[a_i(3)], cur[a_i(4)], len); give(d); o_open(); o_i(0); o_reg(d); o_close(); return; }
    switch (op) {
    case AND: case ANDNOT: case OR: case XOR: d = a_i(1); x = a_i(2); y = a_i(3); len = a_i(4);
        take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(5)); break;
    case SHL: case SHR: d = a_i(1); x = a_i(2); sh = a_i(3); len = a_i(4); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(5)); break;
    case COMPL: case COPY: d = a_i(1); x = a_i(2); len = a_i(3); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(4)); break;
    case ZERO: case FILL: d = a_i(1); len = a_i(2); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(3)); break;
    case SET: case CLR: d = a_i(1); len = a_i(3); take(BFDEV_BITS_TO_LONG(a_i(2) + len)); run2(op, a_i(2), len, a_i(4)); r = 0; break;
    case EMPTY: case FULL: d = a_i(1); len = a_i(2); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(3)); give(0); o_i(r); return;
    case EQUAL: case INTER: x = a_i(1); y = a_i(2); len = a_i(3); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(4)); give(0); o_i(r); return;
    case OREQ: x = a_i(1); y = a_i(2); z = a_i(3); len = a_i(4); take(BFDEV_BITS_TO_LONG(len)); r = run(op, len, a_i(5)); give(0); o_i(r); return;
    default: bad("op"); return;
    }
    give(d); o_open(); o_i(r); o_reg(d); o_close();
}
