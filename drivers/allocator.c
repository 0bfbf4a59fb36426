#include "drv.h"
#include <bfdev/allocator.h>
#define NB 512
static struct { unsigned char *p; size_t n; } b[NB];
static bfdev_alloc_t A, *al; static bfdev_alloc_ops_t O; static int fail, mark; static struct { int f; size_t n; } lg[64]; static int nl;
static void rec(int f, size_t n, void *p) { if (p != &mark) bad("pdata"); if (nl < 64) { lg[nl].f = f; lg[nl++].n = n; } }
static void *c_alloc(size_t n, void *p) { rec(1, n, p); return fail || n > 1000000 ? NULL : malloc(n); }
static void *c_zalloc(size_t n, void *p) { rec(2, n, p); return fail || n > 1000000 ? NULL : calloc(1, n); }
static void *c_realloc(const void *o, size_t n, void *p) { rec(3, n, p); return fail || n > 1000000 ? NULL : realloc((void *)o, n); }
static void c_free(const void *o, void *p) { rec(4, 0, p); free((void *)o); }
static void drop(void) { for (int i = 0; i < NB; ++i) if (b[i].p) { free(b[i].p); b[i].p = NULL; } }
static void drv_reset(void) { drop(); memset(&bfdev_alloc_default, 0, sizeof(bfdev_alloc_default)); memset(&bfdev_alloc_default_ops, 0, sizeof(bfdev_alloc_default_ops)); fail = 0; }
static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 1); }
static void out(int got, int ok) { o_open(); o_open(); for (int i = 0; i < nl; ++i) { o_open(); o_i(lg[i].f); o_i(lg[i].n); o_close(); } o_close(); o_i(got); o_i(ok); o_close(); }
static void fill(int id) { for (size_t i = 0; i < b[id].n; ++i) b[id].p[i] = pat(id, i); }
static void made(int id, unsigned char *p, size_t n, bool z) { int ok = 1;
    if (p) { b[id].p = p; b[id].n = n; if (z) for (size_t i = 0; i < n; ++i) if (p[i]) ok = 0; fill(id); } out(!!p, ok); }
static void redo(int id, unsigned char *p, size_t n) { int ok = 1; bool had = b[id].p != NULL;
    if (!n && had && !p) { b[id].p = NULL; out(0, 1); return; }
    if (!p) { for (size_t i = 0; had && i < b[id].n; ++i) if (b[id].p[i] != pat(id, i)) ok = 0; out(0, ok); return; }
    for (size_t i = 0; had && i < b[id].n && i < n; ++i) if (p[i] != pat(id, i)) ok = 0;
    b[id].p = p; b[id].n = n; fill(id); out(1, ok); }
static void drv_cmd(void) {
    int id = argc_ > 1 ? a_i(1) : 0; nl = 0; fail = 0;
    if (OP("new")) { int m = a_i(2);
        if (id & 1) O = BFDEV_ALLOC_OPS_INIT(m & 1 ? c_alloc : NULL, m & 2 ? c_zalloc : NULL, m & 4 ? c_realloc : NULL, m & 8 ? c_free : NULL);
        else bfdev_alloc_ops_init(&O, m & 1 ? c_alloc : NULL, m & 2 ? c_zalloc : NULL, m & 4 ? c_realloc : NULL, m & 8 ? c_free : NULL);
        switch (id) {
        case 0: al = NULL; break;
        case 1: bfdev_alloc_init(&A, NULL, &mark); al = &A; break;
        case 2: bfdev_alloc_init(&A, &O, &mark); al = &A; break;
        case 3: bfdev_alloc_default = BFDEV_ALLOC_INIT(&O, &mark); al = NULL; break;
        case 4: bfdev_alloc_default_ops = O; A = BFDEV_ALLOC_INIT(NULL, &mark); al = &A; break; }
        o_i(0); }
    else if (OP("malloc")) { fail = a_i(3); made(id, bfdev_malloc(al, a_i(2)), a_i(2), false); }
    else if (OP("zalloc")) { fail = a_i(3); made(id, bfdev_zalloc(al, a_i(2)), a_i(2), true); }
    else if (OP("realloc")) { fail = a_i(3); redo(id, bfdev_realloc(al, b[id].p, a_i(2)), a_i(2)); }
    else if (OP("free")) { bfdev_free(al, b[id].p); b[id].p = NULL; out(-1, 1); }
    else if (OP("amalloc") || OP("azalloc")) { fail = a_i(4); size_t x = a_u64(2), y = a_u64(3); bool z = OP("azalloc"); size_t n; bool ov = __builtin_mul_overflow(x, y, &n);
        unsigned char *p = z ? bfdev_zalloc_array(al, x, y) : bfdev_malloc_array(al, x, y); made(id, p, ov ? 0 : n, z); }
    else if (OP("arealloc")) { fail = a_i(4); size_t x = a_u64(2), y = a_u64(3), n; bool ov = __builtin_mul_overflow(x, y, &n);
        unsigned char *p = bfdev_realloc_array(al, b[id].p, x, y); if (ov && p) { b[id].p = NULL; out(1, 0); return; } redo(id, p, ov ? 1 : n); }
    else if (OP("end")) { drop(); o_i(0); }
    else bad("op");
}
