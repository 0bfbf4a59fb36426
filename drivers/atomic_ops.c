/* compiled with the access hooks: atomic words, atomic bits, reference counts.  One operation: result words into v[]. */
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#include <bfdev/bitops.h>
#include <bfdev/refcount.h>
#include "atomic_ops.h"
typedef bfdev_refcnt_t R;
int atomic_op(int op, long *w, long *bits, long a, long b, long *v) {
    R *r = (R *)w; unsigned long *u = (unsigned long *)bits; bfdev_atomic_t old = 0x5a5a;
#define VOID(name) case OP_##name: bfdev_atomic_##name(w, a); return 0;
#define WORD(name) case OP_##name: v[0] = bfdev_atomic_##name(w, a); return 1;
#define BIT(name) case OP_b##name: bfdev_bit_atomic_##name(u, a); return 0;
#define BITT(name) case OP_b##name: v[0] = bfdev_bit_atomic_##name(u, a); return 1;
    switch (op) {
    case OP_read: v[0] = bfdev_atomic_read(w); return 1;
    VOID(write) VOID(add) VOID(sub) VOID(and) VOID(or) VOID(xor)
    WORD(fetch_add) WORD(fetch_sub) WORD(fetch_and) WORD(fetch_or) WORD(fetch_xor)
    WORD(add_fetch) WORD(sub_fetch) WORD(and_fetch) WORD(or_fetch) WORD(xor_fetch)
    case OP_xchg: v[0] = bfdev_xchg(w, a); return 1;
    case OP_cmpxchg: v[0] = bfdev_cmpxchg(w, a, b); return 1;
    case OP_try_cmpxchg: old = a; v[0] = bfdev_try_cmpxchg(w, &old, b); v[1] = old; return 2;
    BIT(set) BIT(clr) BIT(flip) BITT(test) BITT(test_set) BITT(test_clr) BITT(test_flip)
    case OP_bchange: bfdev_bit_atomic_change(u, a, b); return 0;
    case OP_btest_change: v[0] = bfdev_bit_atomic_test_change(u, a, b); return 1;
    case OP_rget: v[0] = bfdev_refcnt_get(r); return 1;
    case OP_rset: bfdev_refcnt_set(r, a); return 0;
#define RV(name) case OP_r##name: bfdev_refcnt_##name(r, a); return 0;
#define RI(name) case OP_r##name: bfdev_refcnt_##name(r); return 0;
#define RVT(name) case OP_r##name: v[0] = bfdev_refcnt_##name(r, a); return 1;
#define RIT(name) case OP_r##name: v[0] = bfdev_refcnt_##name(r); return 1;
#define RF(name) case OP_r##name: bfdev_refcnt_##name(r, a, &old); v[0] = old; return 1;
#define RFI(name) case OP_r##name: bfdev_refcnt_##name(r, &old); v[0] = old; return 1;
#define RFT(name) case OP_r##name: v[0] = bfdev_refcnt_##name(r, a, &old); v[1] = old; return 2;
#define RFIT(name) case OP_r##name: v[0] = bfdev_refcnt_##name(r, &old); v[1] = old; return 2;
    RV(add) RI(inc) RF(fetch_add) RFI(fetch_inc)
    RV(sub) RI(dec) RVT(sub_test) RIT(dec_test) RF(fetch_sub) RFI(fetch_dec) RFT(fetch_sub_test) RFIT(fetch_dec_test)
    RV(addnz) RI(incnz) RVT(addnz_test) RIT(incnz_test) RF(fetch_addnz) RFI(fetch_incnz) RFT(fetch_addnz_test) RFIT(fetch_incnz_test)
    }
    return -1;
}
