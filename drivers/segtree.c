#include "drv.h"
#include <bfdev/segtree.h>
/* type 0: the library's unsigned long tree; type 1: one generated by the definition macro over signed int */
struct iseg { bfdev_rb_node_t rb; int a, b, sub; };
#define IA(n) ((n)->a)
#define IB(n) ((n)->b)
BFDEV_SEGTREE_DEFINE(static __attribute__((unused)), it, struct iseg, rb, int, sub, IA, IB);
struct node { long id; bfdev_segtree_node_t u; struct iseg i; };
static bfdev_rb_root_cached_t R; static struct node *N; static long nn, type, scale; static int flip;
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
#define UID(p) ((p) ? bfdev_container_of(p, struct node, u)->id : 0)
#define IID(p) ((p) ? bfdev_container_of(p, struct node, i)->id : 0)
/* the spec's small endpoints are spread over the type's range in an order-preserving way */
#define KU (scale == 2 ? (1UL << 54) + 1 : ~0UL / 7)
#define KI (scale == 2 ? 4294967 : 600000001)
static unsigned long U(long v) { return scale >= 2 ? v * KU : scale ? ~0UL - 1000 + v : (unsigned long)v; }
static int I(long v) { return scale >= 2 ? (v - (scale == 2 ? 500 : 3)) * KI : scale ? (int)v - 3 : (int)v; }
static long UU(unsigned long u) { return scale >= 2 ? u % KU ? -1 : (long)(u / KU) : (long)(u - U(0)); }
static long UI(int u) { return scale >= 2 ? u % KI ? -1 : u / KI + (scale == 2 ? 500 : 3) : (long)u + (scale ? 3 : 0); }
static long left; 
static long rid(bfdev_rb_node_t *p) { return !p ? 0 : type ? bfdev_container_of(p, struct node, i.rb)->id : bfdev_container_of(p, struct node, u.node)->id; }
static void dump(bfdev_rb_node_t *p) {
    if (!p || left-- <= 0) return;
    struct node *n = &N[rid(p)];
    o_open(); o_i(n->id); o_i(rid(p->parent)); o_i(p->color); o_i(rid(p->left)); o_i(rid(p->right)); o_i(type ? UI(n->i.sub) : UU(n->u.subtree)); o_close();
    dump(p->left); dump(p->right);
}
static void drv_cmd(void) {
    o_raw("["); long c = 0;
    if (OP("new")) { type = a_i(1); scale = a_i(2); const char *p = a_s(3) + 1; N = calloc(500, sizeof *N); nn = 0; bfdev_rb_cache_init(&R);
        while (*p == '[' || *p == ',') { if (*p == ',') ++p; char *e; long x = strtol(p + 1, &e, 10), y = strtol(e + 1, &e, 10); p = e + 1;
            ++nn; if (nn > 499) bad("many"); N[nn].id = nn; N[nn].u.start = U(x); N[nn].u.end = U(y); N[nn].i.a = I(x); N[nn].i.b = I(y); } }
    else if (OP("insert")) { struct node *x = &N[a_i(1)]; if (type) it_insert(&R, &x->i); else { x->u.subtree = 12345; bfdev_segtree_insert(&R, &x->u); } }
    else if (OP("delete")) { struct node *x = &N[a_i(1)]; if (type) it_delete(&R, &x->i); else bfdev_segtree_delete(&R, &x->u); }
    else if (OP("query")) { long lo = a_i(1), hi = a_i(2); flip = (flip + 1) % 4;
        if (type) { for (struct iseg *p = it_first(&R, I(lo), I(hi)); p; p = it_next(p, I(lo), I(hi))) { if (++c > nn) break; o_i(IID(p)); } }
        else if (flip == 0) { bfdev_segtree_node_t *p; bfdev_segtree_for_each(p, U(lo), U(hi), &R) { if (++c > nn) break; o_i(UID(p)); } }
        else if (flip == 1) { struct node *e; bfdev_segtree_for_each_entry(e, U(lo), U(hi), &R, u) { if (++c > nn) break; o_i(e->id); } }
        else if (flip == 3) { bfdev_segtree_node_t *p = R.root.node ? bfdev_container_of(R.root.node, bfdev_segtree_node_t, node) : NULL;    /* the first match below a given node */
            if (p) p = p->subtree >= U(lo) ? bfdev_segtree_search(p, U(lo), U(hi)) : NULL;
            bfdev_segtree_for_each_form(p, U(lo), U(hi)) { if (++c > nn) break; o_i(UID(p)); } }
        else { struct node *e = bfdev_segtree_first_entry(&R, U(lo), U(hi), struct node, u); bfdev_segtree_for_each_entry_from(e, U(lo), U(hi), u) { if (++c > nn) break; o_i(e->id); } } }
    else if (OP("resume")) { long lo = a_i(1), hi = a_i(2); struct node *e = &N[a_i(3)]; flip = (flip + 1) % 3;
        if (type) { for (struct iseg *p = it_next(&e->i, I(lo), I(hi)); p; p = it_next(p, I(lo), I(hi))) { if (++c > nn) break; o_i(IID(p)); } }
        else if (flip) { bfdev_segtree_node_t *p = &e->u; bfdev_segtree_for_each_continue(p, U(lo), U(hi)) { if (++c > nn) break; o_i(UID(p)); } }
        else { bfdev_segtree_for_each_entry_continue(e, U(lo), U(hi), u) { if (++c > nn) break; o_i(e->id); } } }
    else if (OP("dump")) { o_open(); left = nn + 1; dump(R.root.node); o_close(); o_i(rid(bfdev_rb_cached_first(&R))); }
    else bad("op");
    o_raw("]");
}
