#include "drv.h"
#include <bfdev/heap.h>
struct node { long id, key; bfdev_heap_node_t n; };
static bfdev_heap_root_t R; static struct node *N; static long nn, desc; static int flip;
#define E(p) bfdev_heap_entry(p, struct node, n)
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd) { if (pd != &desc) abort(); long d = E(a)->key - E(b)->key; return mag(desc ? -d : d); }
static long id(bfdev_heap_node_t *p) { return p ? E(p)->id : 0; }
static long left; static void dump(bfdev_heap_node_t *p) {
    if (!p || left-- <= 0) return;
    o_open(); o_i(id(p)); o_i(id(p->parent)); o_i(1); o_i(id(p->left)); o_i(id(p->right)); o_i(0); o_close();
    dump(p->left); dump(p->right);
}
#define CAP (nn + 3)
#define KILL(p) (p)->left = BFDEV_POISON_HPNODE1, (p)->right = BFDEV_POISON_HPNODE2, (p)->parent = BFDEV_POISON_HPNODE3
static void drv_cmd(void) {
    bfdev_heap_node_t *pos, *tmp; struct node *e, *te; unsigned long ix; long c = 0;
    if (OP("pop")) { pos = BFDEV_HEAP_ROOT_NODE(&R); long i = id(pos); bfdev_heap_delete(&R, pos, cmp, &desc); o_i(i); return; }
    o_raw("[");
#define LOOP(m, ...) do { c = 0; o_open(); m(pos, ##__VA_ARGS__) { if (++c > CAP) break; o_i(id(pos)); } o_close(); } while (0)
#define LOOPE(m, ...) do { c = 0; o_open(); m(e, ##__VA_ARGS__) { if (++c > CAP) break; o_i(e->id); } o_close(); } while (0)
    if (OP("new")) { desc = a_i(1); long *k = a_l(2, &nn); N = calloc(nn + 1, sizeof *N); if (nn & 1) { BFDEV_HEAP_ROOT(fresh); R = fresh; } else bfdev_heap_init(&R); for (long i = 1; i <= nn; ++i) { N[i].id = i; N[i].key = k[i - 1]; } }
    else if (OP("insert")) bfdev_heap_insert(&R, &N[a_i(1)].n, cmp, &desc);
    else if (OP("delete")) bfdev_heap_delete(&R, &N[a_i(1)].n, cmp, &desc);
    else if (OP("dump")) { long x = a_i(1); flip ^= 1;
        o_open(); left = nn + 1; dump(R.node); o_close(); o_open();
        if (flip) LOOP(bfdev_heap_for_each, &ix, &R); else LOOPE(bfdev_heap_for_each_entry, &ix, &R, n);
        o_open(); for (long i = 1; i <= (long)BFDEV_HEAP_ROOT_COUNT(&R) + 1 && i < 2 * CAP; ++i) o_i(id(bfdev_heap_find(&R, i))); o_close();
        if (flip) { pos = bfdev_heap_first(&R, &ix); LOOP(bfdev_heap_for_each_from, &ix, &R); } else { e = bfdev_heap_first_entry(&R, &ix, struct node, n); LOOPE(bfdev_heap_for_each_entry_from, &ix, &R, n); }
        pos = bfdev_heap_first(&R, &ix); if (!pos) { o_open(); o_close(); } else if (flip) LOOP(bfdev_heap_for_each_continue, &ix, &R); else LOOPE(bfdev_heap_for_each_entry_continue, &ix, &R, n);
        if (flip) LOOP(bfdev_heap_post_for_each, &R); else LOOPE(bfdev_heap_post_for_each_entry, &R, n);
        if (!x) { o_open(); o_close(); o_open(); o_close(); }
        else if (flip) { pos = &N[x].n; LOOP(bfdev_heap_post_for_each_from); pos = &N[x].n; LOOP(bfdev_heap_post_for_each_continue); }
        else { e = &N[x]; LOOPE(bfdev_heap_post_for_each_entry_from, n); e = &N[x]; LOOPE(bfdev_heap_post_for_each_entry_continue, n); }
        o_close(); }
    else if (OP("destroy")) { flip = a_i(1) & 1; o_open(); left = nn + 1; dump(R.node); o_close(); o_open();
        if (a_i(1) >= 2) {          /* the walk stopped and taken up again, twice */
            long stop = a_i(1) - 1, done = 0; bfdev_heap_node_t *keep = NULL; struct node *ke = NULL;
            if (flip) { bfdev_heap_post_for_each_safe(pos, tmp, &R) { if (done == stop) break; if (++c > CAP) break; o_i(id(pos)); KILL(pos); ++done; }
                if (pos) bfdev_heap_post_for_each_safe_from(pos, tmp) { if (done == 2 * stop) break; if (++c > CAP) break; o_i(id(pos)); KILL(pos); ++done; }
                if (pos) { o_i(id(pos)); keep = pos; bfdev_heap_post_for_each_safe_continue(pos, tmp) { if (++c > CAP) break; o_i(id(pos)); KILL(pos); } KILL(keep); } }
            else { bfdev_heap_post_for_each_entry_safe(e, te, &R, n) { if (done == stop) break; if (++c > CAP) break; o_i(e->id); KILL(&e->n); ++done; }
                if (e) bfdev_heap_post_for_each_entry_from_safe(e, te, n) { if (done == 2 * stop) break; if (++c > CAP) break; o_i(e->id); KILL(&e->n); ++done; }
                if (e) { o_i(e->id); ke = e; bfdev_heap_post_for_each_entry_continue_safe(e, te, n) { if (++c > CAP) break; o_i(e->id); KILL(&e->n); } KILL(&ke->n); } } }
        else if (flip) bfdev_heap_post_for_each_safe(pos, tmp, &R) { if (++c > CAP) break; o_i(id(pos)); KILL(pos); }
        else bfdev_heap_post_for_each_entry_safe(e, te, &R, n) { if (++c > CAP) break; o_i(e->id); KILL(&e->n); }
        o_close(); bfdev_heap_init(&R); }
    else bad("op");
    o_i(R.node ? E(R.node)->key : -1000); o_i(BFDEV_HEAP_ROOT_COUNT(&R)); o_i(bfdev_heap_empty_root(&R));
    o_raw("]");
}
