#define DRV_ALLOC
#include "drv.h"
#include <bfdev/levenshtein.h>
#include <limits.h>
static void drv_reset(void) { al_reset(); }
static void drv_cmd(void) {
    if (!OP("dist")) bad("op");
    long n, m, k; char *x = a_b(1, &n), *y = a_b(2, &m); long *w = a_l(3, &k); unsigned r, q;
    al_arm(a_i(4), 1); r = bfdev_levenshtein_len(&al_test, x, y, n, m, w[0], w[1], w[2], w[3]); al_disarm();
    if (al_live) bad("blocks left allocated");
    if (!pl_on && !memchr(x, 0, n) && !memchr(y, 0, m)) {                         /* the same as terminated strings */
        char *xs = malloc(n + 1), *ys = malloc(m + 1); memcpy(xs, x, n); xs[n] = 0; memcpy(ys, y, m); ys[m] = 0;
        al_arm(a_i(4), 1); q = bfdev_levenshtein(&al_test, xs, ys, w[0], w[1], w[2], w[3]); al_disarm();
        if (al_live) bad("blocks left allocated"); if (q != r) bad("string and length variants differ");
        free(xs); free(ys);
    }
    free(x); free(y); o_i(r == UINT_MAX ? -1 : (long)r);
}
