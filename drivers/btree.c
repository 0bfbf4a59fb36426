#define DRV_ALLOC
#include "drv.h"
#include <bfdev/btree.h>
static bfdev_btree_root_t R; static bfdev_btree_layout_t cust; static bfdev_btree_ops_t ops; static int flip;
static long pdtag;
static void drv_reset(void) { al_reset(); memset(&R, 0, sizeof R); flip = 0; }
static int clash(bfdev_btree_root_t *r, void *c, void *v) { if (r != &R || r->pdata != &pdtag) abort(); return 7000 + 10 * (long)c + (long)v; }
static void *rem(bfdev_btree_root_t *r, void *v) { if (r != &R || r->pdata != &pdtag) abort(); return (long)v % 5 ? NULL : (void *)((long)v + 100000); }
/* key words in order-preserving steps: the unit, or spread over the whole range of the word */
static uintptr_t lead, rest;
static void K(uintptr_t *w, long k) { unsigned n = R.layout->keylen; while (n--) { w[n] = n ? (k & 3) * rest : k * lead; if (n) k >>= 2; } }
static long U(const uintptr_t *w) { long k = 0; for (unsigned n = 0; n < R.layout->keylen; ++n) { uintptr_t m = n ? rest : lead; if (w[n] % m) return -1; k = k << 2 | (n ? w[n] / m : 0), k = n ? k : (long)(w[0] / m); } return k; }
static long budget;
static void dump(bfdev_btree_node_t *n, unsigned h) {
    o_open();
    for (unsigned i = 0; i < R.layout->keynum && n->block[R.layout->ptrindex + i] && budget-- > 0; ++i) {
        void *v = (void *)n->block[R.layout->ptrindex + i];
        o_open(); o_i(U(&n->block[i * R.layout->keylen])); if (h > 1) dump(v, h - 1); else o_i((long)v); o_close();
    }
    o_close();
}
static long rel[100000], nrel; static void relcb(void *v, void *pd) { if (pd != &nrel) abort(); if (nrel < 100000) rel[nrel++] = (long)v; }
#define PUT() do { if (++c > 3000) break; o_open(); o_i(U(key)); o_i((long)val); o_close(); } while (0)
#define LOOP(m, ...) do { long c = 0; o_open(); m(&R, key, val, ##__VA_ARGS__) { if (++c > 3000) break; o_open(); o_i(U(key)); o_i((long)val); o_close(); } o_close(); } while (0)
static void drv_cmd(void) {
    uintptr_t key[4] = { 0 }, tk[4] = { 0 }; void *val, *tv;
    if (OP("new")) { long l = a_i(1); int full = argc_ > 4 && a_i(4); lead = full ? UINTPTR_MAX / 4095 : 1; rest = full ? UINTPTR_MAX / 3 : 1;
        static const struct { int len, num; } cu[] = { {2, 5}, {1, 4}, {3, 7} };
        ops = (bfdev_btree_ops_t){ .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find, .clash = a_i(2) ? clash : NULL, .remove = a_i(3) ? rem : NULL };
        if (l >= 3) cust = (bfdev_btree_layout_t){ .keylen = cu[l - 3].len, .keynum = cu[l - 3].num, .ptrindex = cu[l - 3].len * cu[l - 3].num, .nodesize = (cu[l - 3].len + 1) * cu[l - 3].num * sizeof(uintptr_t) };
        bfdev_btree_init(&R, l == 0 ? &bfdev_btree_layout64 : l == 1 ? &bfdev_btree_layout32 : l == 2 ? &bfdev_btree_layoutptr : &cust, &ops, &pdtag);
        R.alloc = &al_test; o_i(0); }
    else if (OP("insert")) { K(key, a_i(1)); al_arm(a_i(3), 0); int r = bfdev_btree_insert(&R, key, (void *)a_i(2)); long f = al_disarm(); o_open(); o_i(r); o_i(f); o_close(); }
    else if (OP("update")) { K(key, a_i(1)); o_i(bfdev_btree_update(&R, key, (void *)a_i(2))); }
    else if (OP("remove")) { K(key, a_i(1)); o_i((long)bfdev_btree_remove(&R, key)); }
    else if (OP("lookup")) { K(key, a_i(1)); o_i((long)bfdev_btree_lookup(&R, key)); }
    else if (OP("first") || OP("last") || OP("next") || OP("prev")) {
        if (OP("next") || OP("prev")) K(key, a_i(1));
        val = OP("first") ? bfdev_btree_first(&R, key) : OP("last") ? bfdev_btree_last(&R, key) : OP("next") ? bfdev_btree_next(&R, key) : bfdev_btree_prev(&R, key);
        o_open(); o_i(val ? U(key) : 0); o_i((long)val); o_close(); }
    else if (OP("drain")) { long c = 0; o_open();
        if (a_i(1)) { bfdev_btree_for_each_reverse_safe(&R, key, val, tk, tv) { PUT(); bfdev_btree_remove(&R, key); } }
        else bfdev_btree_for_each_safe(&R, key, val, tk, tv) { PUT(); bfdev_btree_remove(&R, key); }
        o_close(); }
    else if (OP("release")) { nrel = 0; bfdev_btree_release(&R, relcb, &nrel); o_open(); o_open(); for (long i = 0; i < nrel; ++i) o_i(rel[i]); o_close(); o_i(al_live); o_close(); }
    else if (OP("dump")) { long x = a_i(1); flip ^= 1; budget = 5000;
        o_open(); o_i(R.height); if (R.height && R.height < 12) dump(R.node, R.height); else { o_open(); o_close(); } o_i(al_live);
        o_open();
        if (flip) { LOOP(bfdev_btree_for_each); LOOP(bfdev_btree_for_each_reverse); } else { LOOP(bfdev_btree_for_each_safe, tk, tv); LOOP(bfdev_btree_for_each_reverse_safe, tk, tv); }
        if (!x) { for (int i = 0; i < 4; ++i) { o_open(); o_close(); } }
        else {
#define AT() (K(key, x), val = bfdev_btree_lookup(&R, key))
            if (flip) { AT(); LOOP(bfdev_btree_for_each_from); AT(); LOOP(bfdev_btree_for_each_continue); AT(); LOOP(bfdev_btree_for_each_reverse_from); AT(); LOOP(bfdev_btree_for_each_reverse_continue); }
            else { AT(); LOOP(bfdev_btree_for_each_from_safe, tk, tv); AT(); LOOP(bfdev_btree_for_each_continue_safe, tk, tv); AT(); LOOP(bfdev_btree_for_each_reverse_from_safe, tk, tv); AT(); LOOP(bfdev_btree_for_each_reverse_continue_safe, tk, tv); }
        }
        o_close(); o_i(0); o_close(); }
    else bad("op");
}
