#define DRV_ALLOC
#include "drv.h"
#include <bfdev/skiplist.h>
static long left; /* coin flips still won */
int rand(void) { return left-- > 0 ? 0 : RAND_MAX; }
struct el { long id, key; };
static struct el *N; static long nn; static bfdev_skip_head_t *H; static int flip;
static void drv_reset(void) { al_reset(); free(N); N = NULL; H = NULL; flip = 0; }
static long find(const void *node, void *pd) { return mag(((struct el *)node)->key - *(long *)pd); }
static long cmp(const void *a, const void *b, void *pd) { if (pd != &nn) abort(); return mag(((struct el *)a)->key - ((struct el *)b)->key); }
static long id(bfdev_skip_node_t *n) { return ((struct el *)n->key)->id; }
static long rel[1000], nrel; static void relcb(void *v, void *pd) { if (pd != &nrel) abort(); if (nrel < 1000) rel[nrel++] = ((struct el *)v)->id; }
static void orel(void) { o_open(); for (long i = 0; i < nrel; ++i) o_i(rel[i]); o_close(); }
#define LOOP(m, ...) do { long c = 0; o_open(); m(p, ##__VA_ARGS__) { if (++c > nn + 2) break; o_i(id(p)); } o_close(); } while (0)
static void drv_cmd(void) {
    bfdev_skip_node_t *p, *t; 
    if (OP("new")) { long *k = a_l(2, &nn); N = calloc(nn + 1, sizeof *N); for (long i = 1; i <= nn; ++i) { N[i].id = i; N[i].key = k[i - 1]; }
        al_arm(a_i(3), 0); H = bfdev_skiplist_create(&al_test, a_i(1)); al_disarm(); o_i(!!H); }
    else if (OP("insert")) { left = a_i(2) - 1; al_arm(a_i(3), 0); int r = bfdev_skiplist_insert(H, &N[a_i(1)], cmp, &nn); al_disarm(); o_open(); o_i(r); o_i(al_live); o_close(); }
    else if (OP("find")) { long v = a_i(1); p = bfdev_skiplist_find(H, find, &v); o_i(p ? id(p) : 0); }
    else if (OP("delete")) { long v = a_i(1), b = al_live, c = 0; char *seen = calloc(1, nn + 1);
        bfdev_skiplist_for_each(p, H, 0) if (++c <= nn) seen[id(p)] = 1;
        bfdev_skiplist_delete(H, find, &v); c = 0;
        bfdev_skiplist_for_each(p, H, 0) if (++c <= nn) seen[id(p)] ^= 1; else break;
        long x = 0, cnt = 0; for (long i = 1; i <= nn; ++i) if (seen[i]) x = i, ++cnt;
        o_i(cnt > 1 || b - al_live != cnt ? -1 : x); free(seen); }
    else if (OP("reset") || OP("destroy")) { nrel = 0; flip ^= 1; bool d = OP("destroy");
        if (d) bfdev_skiplist_destroy(H, relcb, &nrel), H = NULL; else bfdev_skiplist_reset(H, relcb, &nrel);
        o_open(); orel(); o_i(al_live); o_close(); }
    else if (OP("dump")) { long x = a_i(1), l = a_i(2); flip ^= 1; bfdev_skip_node_t *at = NULL; long c = 0;
        o_open(); o_open();
        for (int i = 0; i < H->levels; ++i) if (flip) LOOP(bfdev_skiplist_for_each, H, i); else LOOP(bfdev_skiplist_for_each_safe, t, H, i);
        o_close(); o_open();
        for (int i = 0; i < H->levels; ++i) if (flip) LOOP(bfdev_skiplist_for_each_reverse, H, i); else LOOP(bfdev_skiplist_for_each_reverse_safe, t, H, i);
        o_close();
        bfdev_skiplist_for_each(p, H, l) { if (++c > nn + 2) break; if (id(p) == x) at = p; }
        o_open();
        if (!at) { for (int i = 0; i < 4; ++i) { o_open(); o_close(); } }
        else if (flip) { p = at; LOOP(bfdev_skiplist_for_each_from, H, l); p = at; LOOP(bfdev_skiplist_for_each_continue, H, l);
            p = at; LOOP(bfdev_skiplist_for_each_reverse_from, H, l); p = at; LOOP(bfdev_skiplist_for_each_reverse_continue, H, l); }
        else { p = at; LOOP(bfdev_skiplist_for_each_from_safe, t, H, l); p = at; LOOP(bfdev_skiplist_for_each_continue_safe, t, H, l);
            p = at; LOOP(bfdev_skiplist_for_each_reverse_from_safe, t, H, l); p = at; LOOP(bfdev_skiplist_for_each_reverse_continue_safe, t, H, l); }
        o_close(); o_i(al_live); o_close(); }
    else bad("op");
}
