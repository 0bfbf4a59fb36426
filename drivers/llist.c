#include "conc.h"
#include <bfdev/llist.h>
int ops_add(bfdev_slist_head_t *, bfdev_slist_head_t *), ops_split(bfdev_slist_head_t *, bfdev_slist_head_t *, bfdev_slist_head_t *);
bfdev_slist_head_t *ops_del(bfdev_slist_head_t *), *ops_destroy(bfdev_slist_head_t *);
/* the consumer overwrites the links of what it took */
/* operations: 1 add node a | 2 add the batch a..b (a in front) | 3 delete the first | 4 detach everything | 5 add back the node this thread deleted last */
#define NODES 32
static struct { bfdev_slist_head_t head, node[NODES], wild; } sh;
static int last[MAXT];
static long id(bfdev_slist_head_t *p) { return !p ? 0 : p >= sh.node && p < sh.node + NODES ? p - sh.node : -7; }
static void drv_reset(void) { }
static void c_setup(void) {
    memset(&sh, 0, sizeof sh); for (int k = 0; k < NODES; ++k) sh.node[k].next = &sh.wild;
    memset(last, 0, sizeof last);
    c_region(&sh, sizeof sh);
}
static int chain(bfdev_slist_head_t *p, long *v) {
    int n = 0;
    while (p && n < NODES + 1) { v[n] = id(p); if (v[n++] <= 0) break; p = p->next; }
    return n;
}
static void c_op(int t, const cop_t *o) {
    long v[NODES + 2]; bfdev_slist_head_t *p;
    switch (o->op) {
    case 1: c_ret1(ops_add(&sh.head, &sh.node[o->a])); break;
    case 2: for (long k = o->a; k < o->b; ++k) sh.node[k].next = &sh.node[k + 1];
        c_ret1(ops_split(&sh.head, &sh.node[o->a], &sh.node[o->b])); break;
    case 3: p = ops_del(&sh.head); last[t] = id(p); if (p) p->next = &sh.wild; c_ret1(id(p)); break;
    case 4: { p = ops_destroy(&sh.head); int n = chain(p, v); for (int k = 0; k < n && v[k] > 0; ++k) sh.node[v[k]].next = &sh.wild; c_ret(n, v); break; }
    case 5: prog[t][pos[t]].a = last[t]; if (!last[t]) { c_ret1(-1); break; }
        c_ret1(ops_add(&sh.head, &sh.node[last[t]])); break;
    default: bad("op");
    }
}
static void c_final(void) { long v[NODES + 2]; int n = chain(sh.head.next, v); for (int k = 0; k < n; ++k) h_put(v[k]); }
static void drv_cmd(void) { conc_cmd(); }
