#define DRV_ALLOC
#include "drv.h"
#include <bfdev/cache.h>
#define NT 2000
static int tag[NT]; static bfdev_cache_head_t *c; static int hsel, flip; static bfdev_cache_algo_t x; static int xreg;
static unsigned long hv(const void *t, void *p) { unsigned long k = *(const int *)t; if (p != &hsel) bad("pdata"); return hsel == 0 ? k : hsel == 1 ? 7 : k * 0x1000193ul; }
static long cmp(const void *d, const void *t, void *p) { if (p != &hsel || !d) bad("pdata"); return mag(*(const int *)d - *(const int *)t); }
static const bfdev_cache_ops_t ops = { .hash = hv, .find = cmp };
static void drv_reset(void) { al_reset(); c = NULL; flip = 0; for (int i = 0; i < NT; ++i) tag[i] = i; if (xreg) bfdev_cache_unregister(&x); xreg = 0; }
static bfdev_cache_node_t *by_tag(int t) { for (unsigned long i = 0; i < c->size; ++i) { bfdev_cache_node_t *n = c->nodes[i]; if (n->status != BFDEV_CACHE_FREED && *(const int *)n->tag == t) return n; } return NULL; }
/* never called: the extra algorithm only exercises the registry */
static bool f1(bfdev_cache_head_t *h) { return h; } static bfdev_cache_node_t *f2(bfdev_cache_head_t *h) { return (void *)h; }
static void f3(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { (void)h; (void)n; } static void f4(bfdev_cache_head_t *h) { (void)h; }
static bfdev_cache_head_t *f5(const bfdev_alloc_t *a, unsigned long z) { (void)a; (void)z; return NULL; }
static int cnt(bfdev_list_head_t *h, unsigned st) { int k = 0; bfdev_cache_node_t *n; bfdev_list_for_each_entry(n, h, list) { if (n->status != st) return -100; if (++k > NT) return -1; } return k; }
static void drv_cmd(void) {
    bfdev_cache_node_t *n; long r;
    if (OP("new")) { static const char *nm[] = { "lru", "lfu", "none" }; char nb[8]; strcpy(nb, nm[a_i(1)]); hsel = argc_ > 5 ? a_i(5) : 0;
        al_arm(a_i(4), 0); c = bfdev_cache_create(nb, &al_test, &ops, a_i(2), a_i(3), &hsel); al_disarm();
        if (!c && al_live) bad("leak"); o_i(c ? (long)c->size : 0); }
    else if (OP("obtain")) { int t = a_i(1); long f = a_i(2); long h = c->hits, m = c->misses, v = c->starve; static int old[NT];
        for (unsigned long i = 0; i < c->size; ++i) old[i] = c->nodes[i]->status == BFDEV_CACHE_MANAGED ? *(const int *)c->nodes[i]->tag : 0;
        bool res = by_tag(t); flip ^= 1;
        n = flip && f != 2 ? (f == 0 ? bfdev_cache_try_get(c, &tag[t]) : f == 1 ? bfdev_cache_get(c, &tag[t]) : bfdev_cache_cumulative(c, &tag[t])) : bfdev_cache_obtain(c, &tag[t], f);
        o_open();
        if (n) { if (n->index >= c->size || c->nodes[n->index] != n) bad("index"); n->data = (void *)&tag[t]; o_i(*(const int *)n->tag); o_i(n->status); o_i(n->refcnt); o_i(res ? 0 : old[n->index]); }
        else { o_i(0); o_i(0); o_i(0); o_i(0); }
        o_i(c->hits - h); o_i(c->misses - m); o_i(c->starve - v); o_close(); }
    else if (OP("put") || OP("del") || OP("set")) { n = by_tag(a_i(1)); if (!n || (OP("set") && a_i(2) != a_i(1) && by_tag(a_i(2)))) { o_i(-1); return; }
        if (OP("put")) r = (long)bfdev_cache_put(c, n); else if (OP("del")) r = bfdev_cache_del(c, n);
        else { r = bfdev_cache_set(c, n, &tag[a_i(2)]); if (!r) n->data = &tag[a_i(2)]; }
        o_i(r); }
    else if (OP("idle")) { n = NULL; for (unsigned long i = 0; i < c->size && !n; ++i) if (c->nodes[i]->status == BFDEV_CACHE_FREED) n = c->nodes[i];
        o_open(); if (n) { o_i((long)bfdev_cache_put(c, n)); o_i(bfdev_cache_del(c, n)); o_i(bfdev_cache_set(c, n, &tag[1])); } else { o_i(0); o_i(0); o_i(0); } o_close(); }
    else if (OP("commit")) { long k = c->changed; bfdev_cache_committed(c); o_i(c->changed - k); }
    else if (OP("reset")) { bfdev_cache_reset(c); o_open(); o_i(c->hits); o_i(c->misses); o_i(c->starve); o_i(c->changed); o_i(c->used); o_i(c->pending); o_i(c->flags); o_close(); }
    else if (OP("dump")) { o_open(); o_open();
        for (int t = 0; t < NT; ++t) if ((n = by_tag(t))) { o_open(); o_i(t); o_i(n->status); o_i(n->refcnt); o_close(); }
        o_close(); o_i(c->used); o_i(c->pending); o_i(bfdev_cache_dirty_test(c)); o_i(bfdev_cache_starving_test(c));
        o_i(cnt(&c->using, BFDEV_CACHE_USING)); o_i(cnt(&c->freed, BFDEV_CACHE_FREED)); o_i(cnt(&c->changing, BFDEV_CACHE_PENDING));
        o_open(); for (int t = 0; t < NT; ++t) if ((n = bfdev_cache_find(c, &tag[t]))) o_i(*(const int *)n->tag == t ? t : -t); o_close(); o_close(); }
    else if (OP("destroy")) { bfdev_cache_destroy(c); c = NULL; o_i(al_live); }
    else if (OP("regs")) o_i(0);
    else if (OP("reg")) { bfdev_cache_algo_t l = { .name = "lru", .starving = f1, .obtain = f2, .get = f3, .put = f3, .reset = f4, .create = f5, .destroy = f4 };
        if (a_i(1) == 0) { /* each required member missing in turn */
            for (r = 0; r < 8; ++r) { bfdev_cache_algo_t y = l; y.name = "y"; if (r == 0) y.name = NULL; if (r == 1) y.starving = NULL; if (r == 2) y.obtain = NULL; if (r == 3) y.get = NULL;
                if (r == 4) y.put = NULL; if (r == 5) y.reset = NULL; if (r == 6) y.create = NULL; if (r == 7) y.destroy = NULL;
                long q = bfdev_cache_register(&y); if (q != -22) { o_i(q); return; } }
            o_i(-22); }
        else if (a_i(1) == 1) { if (!xreg) { x = l; x.name = "x"; } r = bfdev_cache_register(&x); if (!r) xreg = 1; o_i(r); }
        else if (a_i(1) == 2) o_i(bfdev_cache_register(&l));
        else if (a_i(1) == 3) { r = bfdev_cache_unregister(&x); if (!r) xreg = 0; o_i(r); }
        else o_i(bfdev_cache_unregister(&l)); }
    else bad("op");
}
