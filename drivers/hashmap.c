#define DRV_ALLOC
#include "drv.h"
#include <bfdev/hashmap.h>
#define NN 4096
struct el { int pad; bfdev_hlist_node_t h; long key; };
static struct el E[NN + 1];
static bfdev_hashmap_t H; static int hsel, mode, hook, flip, tbits;
static BFDEV_DEFINE_HASHTBL(t2, 2); static BFDEV_DEFINE_HASHTBL(t4, 4); static BFDEV_DEFINE_HASHTBL(t16, 16);
static BFDEV_DECLARE_HASHTBL(t64, 64);
static void drv_reset(void) { al_reset(); flip = 0; memset(E, 0x5a, sizeof(E)); }
static unsigned long hv(long key) { return hsel == 0 ? (unsigned long)key : hsel == 1 ? 42 : hsel == 2 ? key % 3 : hsel == 3 ? key << 40 : (unsigned long)key * 0x1111111111111111ul; }
#define EL(n) bfdev_container_of(n, struct el, h)
#define ID(n) ((n) ? EL(n) - E : 0)
static unsigned long h_key(const void *k, void *p) { if (p != &H) bad("pdata"); return hv(*(const long *)k); }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *p) { if (p != &H) bad("pdata"); return hv(EL(n)->key); }
static long h_equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { if (p != &H) bad("pdata"); return EL(a)->key - EL(b)->key; }
static long h_find(const bfdev_hlist_node_t *n, const void *k, void *p) { if (p != &H) bad("pdata"); return mag(EL(n)->key - *(const long *)k); }
static bool h_hook(const bfdev_hashmap_t *m, void *p) { if (p != &H || m != &H) bad("pdata"); return hook; }
static const bfdev_hashmap_ops_t o0 = { .hash_key = h_key, .hash_node = h_node, .equal = h_equal, .find = h_find },
    o1 = { .hash_key = h_key, .hash_node = h_node, .equal = h_equal, .find = h_find, .extend = h_hook, .shrink = h_hook };
static long so[NN * 2]; static int ns;
static int lcmp(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return (x > y) - (x < y); }
static void put(struct el *e) { if (ns < NN * 2) so[ns++] = (e - E) * 10000 + e->key; }
static void out(void) { qsort(so, ns, sizeof(*so), lcmp); o_open(); for (int i = 0; i < ns; ++i) o_i(so[i]); o_close(); ns = 0; }
static bfdev_hlist_head_t *tb(void) { return tbits == 1 ? t2 : tbits == 2 ? t4 : tbits == 4 ? t16 : t64; }
static void res(long r, bfdev_hlist_node_t *o, long f) { o_open(); o_i(r); o_i(ID(o)); o_i(f); o_i(H.used); o_i(H.capacity); o_close(); }
#define S (1ul << tbits)
static void drv_cmd(void) {
    bfdev_hlist_node_t *p, *o = NULL, *t; struct el *e, *te; unsigned long i; long r;
    if (OP("new")) { mode = a_i(1); hsel = a_i(2); if (flip ^= 1) bfdev_hashmap_init(&H, &al_test, mode ? &o1 : &o0, &H); else { BFDEV_DEFINE_HASHMAP(fresh, &al_test, mode ? &o1 : &o0, &H); H = fresh; } o_i(0); }
    else if (OP("insert")) { e = &E[a_i(1)]; e->key = a_i(2); int st = a_i(3); hook = a_i(4); flip ^= 1; al_arm(a_i(5), 0);
        /* the wrappers for add and append do not report the existing node: look it up instead */
        if (st == 0 && flip) { r = bfdev_hashmap_add(&H, &e->h); al_disarm(); o = r == -BFDEV_EEXIST ? bfdev_hashmap_find(&H, &e->key) : NULL; res(r, o, r == -BFDEV_ENOMEM); return; }
        if (flip) r = st == 1 ? bfdev_hashmap_set(&H, &e->h, &o) : st == 2 ? bfdev_hashmap_update(&H, &e->h, &o) : bfdev_hashmap_append(&H, &e->h);
        else r = bfdev_hashmap_insert(&H, &e->h, &o, st);
        long f = al_disarm(); res(r, o, f);
        if (!r && o) memset(EL(o), 0x5a, sizeof(*e)); }
    else if (OP("del")) { long k = a_i(1); hook = a_i(2); al_arm(a_i(3), 0); r = bfdev_hashmap_del(&H, &k, &o); long f = al_disarm(); res(r, o, f); if (!r) memset(EL(o), 0x5a, sizeof(*e)); }
    else if (OP("find")) { long k = a_i(1); o_i(ID(bfdev_hashmap_find(&H, &k))); }
    else if (OP("dump")) { o_open();
        if (flip ^= 1) { bfdev_hashmap_for_each(p, &H, i) put(EL(p)); out(); bfdev_hashmap_for_each_entry(e, &H, h, i) put(e); out(); }
        else { bfdev_hashmap_for_each_safe(p, t, &H, i) put(EL(p)); out(); bfdev_hashmap_for_each_entry_safe(e, te, &H, h, i) put(e); out(); }
        o_close(); }
    else if (OP("release")) { bfdev_hashmap_release(&H); o_i(al_live); }
    else if (OP("tnew")) { tbits = a_i(1); hsel = a_i(2); if (tbits == 6) memset(t64, 0x5a, sizeof(t64));
        static int used; if (used++ || tbits == 6) bfdev_hashtbl_init(tb(), S); o_i(0); }
    else if (OP("tadd")) { e = &E[a_i(1)]; e->key = a_i(2); i = bfdev_hashtbl_index(S, hv(e->key)); bfdev_hashtbl_add(tb(), S, &e->h, hv(e->key)); o_i(i); }
    else if (OP("tdel")) { e = &E[a_i(1)]; bfdev_hashtbl_del(&e->h); memset(e, 0x5a, sizeof(*e)); o_i(0); }
    else if (OP("tempty")) o_i(bfdev_hashtbl_empty(tb(), S));
    else if (OP("tfind")) { i = bfdev_hashtbl_index(S, hv(a_i(1))); flip = (flip + 1) & 3; o_open(); unsigned long ii = i + (flip & 1 ? S : 0);
        if (flip == 0) bfdev_hashtbl_for_each_idx(p, tb(), S, ii) o_i(ID(p));
        if (flip == 1) bfdev_hashtbl_for_each_idx_safe(p, t, tb(), S, ii) o_i(ID(p));
        if (flip == 2) bfdev_hashtbl_for_each_idx_entry(e, tb(), S, h, ii) o_i(e - E);
        if (flip == 3) bfdev_hashtbl_for_each_idx_entry_safe(e, te, tb(), S, h, ii) o_i(e - E);
        o_close(); }
    else if (OP("tdump")) { flip ^= 1; o_open(); if (flip) bfdev_hashtbl_for_each(p, tb(), S, i) o_i(ID(p)); else bfdev_hashtbl_for_each_entry(e, tb(), S, h, i) o_i(e - E); o_close(); }
    else if (OP("tdrain")) { flip ^= 1; long d = a_i(1); o_open();
        if (flip) bfdev_hashtbl_for_each_safe(p, t, tb(), S, i) { o_i(ID(p)); if (ID(p) % 2 == d) { e = EL(p); bfdev_hashtbl_del(p); memset(e, 0x5a, sizeof(*e)); } }
        else bfdev_hashtbl_for_each_entry_safe(e, te, tb(), S, h, i) { o_i(e - E); if ((e - E) % 2 == d) { bfdev_hashtbl_del(&e->h); memset(e, 0x5a, sizeof(*e)); } }
        o_close(); }
    else bad("op");
}
