#define DRV_ALLOC
#include "drv.h"
#include <bfdev/matrix.h>
#include <bfdev/errno.h>
static bfdev_matrix_t m[4];
static void drv_reset(void) { al_reset(); for (int i = 0; i < 4; ++i) if (i & 1) { BFDEV_DEFINE_MATRIX(fresh, &al_test); m[i] = fresh; } else bfdev_matrix_init(&m[i], &al_test); }
static BFDEV_MATRIX_TYPE *words(int k, long *n) {
    unsigned char *b = (unsigned char *)a_b(k, n); BFDEV_MATRIX_TYPE *w = malloc(*n ? *n : 1); *n /= 8;
    for (long j = 0; j < *n; ++j) { w[j] = 0; for (int t = 8; t--;) w[j] = w[j] << 8 | b[8 * j + t]; }
    free(b); return w;
}
static void put(unsigned char *b, BFDEV_MATRIX_TYPE x) { for (int t = 0; t < 8; ++t) b[t] = x >> (8 * t); }
static void out(int r, int i) {
    al_disarm(); unsigned long n = (unsigned long)m[i].row * m[i].col; const BFDEV_MATRIX_TYPE *v = m[i].value.data; if (bfdev_array_index(&m[i].value) != n) bad("cell count");
    unsigned char *b = malloc(8 * n + 1); for (unsigned long j = 0; j < n; ++j) put(b + 8 * j, v[j]);
    o_open(); o_i(r == -BFDEV_ENOMEM ? -1 : r == -BFDEV_EINVAL ? -2 : r); o_i(m[i].row); o_i(m[i].col); o_bytes(b, 8 * n); o_close(); free(b);
}
static void drv_cmd(void) {
    int i = a_i(1), r; long n;
#define M(k) (&m[a_i(k)])
    if (OP("arm")) { al_arm(i, 1); o_i(0); }
    else if (OP("import")) { BFDEV_MATRIX_TYPE *w = words(4, &n); r = bfdev_matrix_import(M(1), w, a_i(2), a_i(3)); free(w); out(r, i); }
    else if (OP("add")) { r = bfdev_matrix_add(M(1), M(2), M(3)); out(r, i); }
    else if (OP("sub")) { r = bfdev_matrix_sub(M(1), M(2), M(3)); out(r, i); }
    else if (OP("mul")) { r = bfdev_matrix_mul(M(1), M(2), M(3)); out(r, i); }
    else if (OP("trans")) { r = bfdev_matrix_trans(M(1), M(2)); out(r, i); }
    else if (OP("set")) { r = bfdev_matrix_set(M(1), M(2)); out(r, i); }
    else if (OP("data")) { const BFDEV_MATRIX_TYPE *d = bfdev_matrix_data(M(1), a_i(2), a_i(3)); unsigned char b[8]; if (d) put(b, *d); o_bytes(b, d ? 8 : 0); }
    else if (OP("release")) { bfdev_matrix_release(M(1)); out(0, i); }
    else if (OP("huge")) {
        BFDEV_MATRIX_TYPE w = 1, *z = calloc(65536, 8); bfdev_matrix_t a, b; int q;
        bfdev_matrix_init(&a, &al_test); bfdev_matrix_init(&b, &al_test);
        r = bfdev_matrix_import(M(1), &w, 65536, 65536);
        if (bfdev_matrix_import(&a, z, 65536, 1) || bfdev_matrix_import(&b, z, 1, 65536)) bad("import of a long matrix");
        q = bfdev_matrix_mul(M(1), &a, &b); if (q != r) r = 1;
        bfdev_matrix_release(&a); bfdev_matrix_release(&b); free(z); out(r, i); }
    else if (OP("live")) { for (int k = 1; k < 4; ++k) bfdev_matrix_release(&m[k]); al_disarm(); o_i(al_live); }
    else bad("op");
}
