#include "conc.h"
#include <bfdev/refcount.h>
#include "atomic_ops.h"
/* one atomic word (a reference count as well), initially 1, and a bit array of two words, initially 0 */
static struct { long w, bits[2]; } sh;
static long rep[MAXT][8]; static int nrep[MAXT];
void bfdev_refcnt_report(bfdev_refcnt_t *ref, bfdev_refcnt_saturation_t type) {
    if (nrep[cur] < 8) rep[cur][nrep[cur]++] = (long *)ref == &sh.w ? (long)type : -1;
}
static void drv_reset(void) { }
static void c_setup(void) { memset(&sh, 0, sizeof sh); sh.w = 1; c_region(&sh, sizeof sh); }
/* words as four 16-bit limbs; a flag is a single number */
static int limbs(long x, long *v) { for (int k = 0; k < 4; ++k) v[k] = (unsigned long)x >> 16 * k & 0xffff; return 4; }
static int flag(int op, int k) {
    return (op >= OP_bset && op <= OP_btest_change) || (k == 0 && (op == OP_try_cmpxchg || op == OP_rsub_test || op == OP_rdec_test || op == OP_rfetch_sub_test
        || op == OP_rfetch_dec_test || op == OP_raddnz_test || op == OP_rincnz_test || op == OP_rfetch_addnz_test || op == OP_rfetch_incnz_test));
}
static void c_op(int t, const cop_t *o) {
    long v[2], r[32]; int n, m = 0;
    nrep[t] = 0;
    n = atomic_op(o->op, &sh.w, sh.bits, o->a, o->b, v);
    if (n < 0) bad("op");
    for (int k = 0; k < n; ++k) if (flag(o->op, k)) r[m++] = v[k]; else m += limbs(v[k], r + m);
    for (int k = 0; k < nrep[t]; ++k) r[m++] = rep[t][k];
    c_ret(m, r);
}
static void c_final(void) { long r[4]; for (int j = 0; j < 3; ++j) { limbs(j ? sh.bits[j - 1] : sh.w, r); for (int k = 0; k < 4; ++k) h_put(r[k]); } }
static void drv_cmd(void) { conc_cmd(); }
