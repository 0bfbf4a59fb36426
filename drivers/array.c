#define DRV_ALLOC
#include "drv.h"
#include <bfdev/array.h>
static bfdev_array_t *A; static size_t cell;
static void drv_reset(void) { al_arm(0,0); if (A) { free(A); A = NULL; } al_reset(); }
static void put(void *p, long v) { v %= 251; unsigned char *b = p; for (size_t k = 0; k < cell; ++k) b[k] = (unsigned char)(v + 37*k); }
static long get(const void *p) { const unsigned char *b = p; long v = b[0]; for (size_t k = 0; k < cell; ++k) if (b[k] != (unsigned char)(v + 37*k)) return -999; return v; }
static void vals(const void *p, long n) { o_open(); if (!p) o_i(-1); else for (long k = 0; k < n; ++k) o_i(get((const char *)p + k*cell)); o_close(); }
static void one(long v) { o_open(); o_i(v); o_close(); }
static void proj(void) {
    unsigned long n = bfdev_array_index(A);
    o_i(n); o_i(bfdev_array_size(A)); o_open();
    for (unsigned long k = 0; k < n; ++k) { void *p = bfdev_array_data(A, k); o_i(p ? get(p) : -998); }
    o_close();
}
static int code(int r) { return r ? (r < 0 ? -2 : -3) : 0; }
static void call(int b) {
    const char *op = argv_[b];
#define IS(x) !strcmp(op, x)
    if (IS("push")) { long n = a_i(b+1), v = a_i(b+2); char *p = bfdev_array_push(A, n); if (p) for (long k = 0; k < n; ++k) put(p + k*cell, v + k); one((p || (!n && !A->data)) ? 1 : -1); }
    else if (IS("pop")) { long n = a_i(b+1); unsigned long i = bfdev_array_index(A); void *p = bfdev_array_pop(A, n); if (!p && n == 0) { o_open(); o_close(); } else vals(p, n); (void)i; }
    else if (IS("peek")) { long n = a_i(b+1); void *p = bfdev_array_peek(A, n); if (!p && n == 0) { o_open(); o_close(); } else vals(p, n); }
    else if (IS("data")) { void *p = bfdev_array_data(A, a_i(b+1)); vals(p, 1); }
    else if (IS("resize")) { long n = a_i(b+1), v = a_i(b+2); long i = bfdev_array_index(A); int r = bfdev_array_resize(A, n); if (!r) for (long k = i; k < n; ++k) put(bfdev_array_data(A, k), v + k - i); one(code(r)); }
    else if (IS("reserve")) one(code(bfdev_array_reserve(A, a_i(b+1))));
    else if (IS("reset")) { bfdev_array_reset(A); one(0); }
    else if (IS("hpush")) one(bfdev_array_push(A, a_u64(b+1)) ? 1 : -1);
    else if (IS("hpop")) one(bfdev_array_pop(A, a_u64(b+1)) ? 1 : -1);
    else if (IS("hpeek")) one(bfdev_array_peek(A, a_u64(b+1)) ? 1 : -1);
    else if (IS("hdata")) one(bfdev_array_data(A, a_u64(b+1)) ? 1 : -1);
    else if (IS("hresize")) one(code(bfdev_array_resize(A, a_u64(b+1))));
    else if (IS("hreserve")) one(code(bfdev_array_reserve(A, a_u64(b+1))));
    else bad("op");
}
static void drv_cmd(void) {
    o_raw("[");
    if (OP("new")) { cell = a_i(1); A = malloc(sizeof *A); if (cell & 1) { BFDEV_DEFINE_ARRAY(fresh, &al_test, cell); *A = fresh; } else bfdev_array_init(A, &al_test, cell); one(0); proj(); }
    else if (OP("release")) { bfdev_array_release(A); one(0); proj(); o_i(al_live); }
    else if (OP("oom")) {
        al_arm(1, 0); size_t m = on; call(1); long f = al_disarm();
        char *t = strndup(ob + m, on - m); on = m; one(f); o_raw(",%s", t); free(t); proj();
    } else { call(0); proj(); }
    o_raw("]");
}
