#include "drv.h"
#include <bfdev/rbtree.h>
struct node { long id, key, val, max; bfdev_rb_node_t n; };
static bfdev_rb_root_cached_t R; static struct node *N; static long nn, kind, desc;
static int flip;
#define VAL(x) ((x)->val)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, augcb, struct node, n, long, max, VAL);
#define E(p) bfdev_rb_entry(p, struct node, n)
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd) { if (pd != &desc) abort(); long d = E(a)->key - E(b)->key; return mag(desc ? -d : d); }
static long find(const bfdev_rb_node_t *a, const void *key) { long d = E(a)->key - *(const long *)key; return mag(desc ? -d : d); }
static long id(bfdev_rb_node_t *p) { return p ? E(p)->id : 0; }
static long left; static void dump(bfdev_rb_node_t *p) {
    if (!p || left-- <= 0) return;
    o_open(); o_i(id(p)); o_i(id(p->parent)); o_i(p->color); o_i(id(p->left)); o_i(id(p->right)); o_i(kind >= 2 ? E(p)->max : 0); o_close();
    dump(p->left); dump(p->right);
}
#define CAP (nn + 3)
#define LOOP(m, ...) do { long c = 0; o_open(); if (flip) { m(pos, ##__VA_ARGS__) { if (++c > CAP) break; o_i(id(pos)); } } 
#define LOOPE(m, ...) else { m(e, ##__VA_ARGS__) { if (++c > CAP) break; o_i(e->id); } } o_close(); } while (0)
static void drv_cmd(void) {
    long ret = 0; bfdev_rb_root_t *root = &R.root; int isdump = 0;
    o_raw("[");
    if (OP("new")) { kind = a_i(1); desc = a_i(2); long *k = a_l(3, &nn); N = calloc(nn + 1, sizeof *N); if (nn & 1) { BFDEV_RB_ROOT_CACHED(fresh); R = fresh; } else bfdev_rb_cache_init(&R); if (kind % 2 == 0) bfdev_rb_init(&R.root);
        for (long i = 1; i <= nn; ++i) { N[i].id = i; N[i].key = k[i - 1]; N[i].val = ((k[i - 1] * 37) % 101 + 101) % 101; } }
    else if (OP("insert")) { struct node *x = &N[a_i(1)]; x->max = x->val;
        switch (kind) {
        case 0: ret = bfdev_rb_insert(root, &x->n, cmp, &desc); break;
        case 1: ret = bfdev_rb_cached_insert(&R, &x->n, cmp, &desc); break;
        case 2: ret = bfdev_rb_insert_augmented(root, &x->n, cmp, &desc, &augcb); break;
        case 3: ret = bfdev_rb_cached_insert_augmented(&R, &x->n, cmp, &desc, &augcb); break; } }
    else if (OP("finsert")) { struct node *x = &N[a_i(1)]; bfdev_rb_node_t *parent, **link; bool lm = 7; x->max = x->val;
        bfdev_rb_node_t *f; flip ^= 1;
        if (kind & 1) f = bfdev_rb_cached_find_last(&R, &x->key, find, &parent, &link, &lm); else f = bfdev_rb_find_last(root, &x->key, find, &parent, &link, flip ? &lm : NULL);
        ret = id(f);
        if (!f) {
            if (kind >= 2) for (bfdev_rb_node_t *p = parent; p; p = p->parent) if (E(p)->max < x->val) E(p)->max = x->val;   /* caller's part of an augmented link */
            switch (kind) {
            case 0: bfdev_rb_insert_node(root, parent, link, &x->n); break;
            case 1: bfdev_rb_cached_insert_node(&R, parent, link, &x->n, lm); break;
            case 2: bfdev_rb_insert_node_augmented(root, parent, link, &x->n, &augcb); break;
            case 3: bfdev_rb_cached_insert_node_augmented(&R, parent, link, &x->n, lm, &augcb); break; } } }
    else if (OP("find")) { long k = a_i(1); ret = id(kind & 1 ? bfdev_rb_cached_find(&R, &k, find) : bfdev_rb_find(root, &k, find)); }
    else if (OP("delete")) { struct node *x = &N[a_i(1)];
        switch (kind) {
        case 0: bfdev_rb_delete(root, &x->n); break;
        case 1: ret = id(bfdev_rb_cached_delete(&R, &x->n)); break;
        case 2: bfdev_rb_delete_augmented(root, &x->n, &augcb); break;
        case 3: ret = id(bfdev_rb_cached_delete_augmented(&R, &x->n, &augcb)); break; } }
    else if (OP("replace")) { struct node *x = &N[a_i(1)], *y = &N[a_i(2)]; y->max = x->max; if (kind & 1) bfdev_rb_cached_replace(&R, &x->n, &y->n); else bfdev_rb_replace(root, &x->n, &y->n); memset(&x->n, 0, sizeof x->n); }
    else if (OP("dump")) { isdump = 1; bfdev_rb_node_t *pos, *x = a_i(1) ? &N[a_i(1)].n : NULL; struct node *e, *xe = a_i(1) ? &N[a_i(1)] : NULL; flip ^= 1;
        o_open(); left = nn + 1; dump(root->node); o_close(); o_open();
        if (kind & 1) {
        LOOP(bfdev_rb_cached_for_each, &R) LOOPE(bfdev_rb_cached_for_each_entry, &R, n);
        LOOP(bfdev_rb_cached_for_each_reverse, &R) LOOPE(bfdev_rb_cached_for_each_entry_reverse, &R, n);
        LOOP(bfdev_rb_cached_pre_for_each, &R) LOOPE(bfdev_rb_cached_pre_for_each_entry, &R, n);
        LOOP(bfdev_rb_cached_post_for_each, &R) LOOPE(bfdev_rb_cached_post_for_each_entry, &R, n);
        } else {
        LOOP(bfdev_rb_for_each, root) LOOPE(bfdev_rb_for_each_entry, root, n);
        LOOP(bfdev_rb_for_each_reverse, root) LOOPE(bfdev_rb_for_each_entry_reverse, root, n);
        LOOP(bfdev_rb_pre_for_each, root) LOOPE(bfdev_rb_pre_for_each_entry, root, n);
        LOOP(bfdev_rb_post_for_each, root) LOOPE(bfdev_rb_post_for_each_entry, root, n);
        }
#define S pos = x; e = xe;
        if (!x) for (int i = 0; i < 8; ++i) { o_open(); o_close(); }
        else {
        S LOOP(bfdev_rb_for_each_from) LOOPE(bfdev_rb_for_each_entry_from, n);
        S LOOP(bfdev_rb_for_each_continue) LOOPE(bfdev_rb_for_each_entry_continue, n);
        S LOOP(bfdev_rb_for_each_reverse_from) LOOPE(bfdev_rb_for_each_entry_reverse_from, n);
        S LOOP(bfdev_rb_for_each_reverse_continue) LOOPE(bfdev_rb_for_each_entry_reverse_continue, n);
        S LOOP(bfdev_rb_pre_for_each_from) LOOPE(bfdev_rb_pre_for_each_entry_from, n);
        S LOOP(bfdev_rb_pre_for_each_continue) LOOPE(bfdev_rb_pre_for_each_entry_continue, n);
        S LOOP(bfdev_rb_post_for_each_from) LOOPE(bfdev_rb_post_for_each_entry_from, n);
        S LOOP(bfdev_rb_post_for_each_continue) LOOPE(bfdev_rb_post_for_each_entry_continue, n); }
        o_close(); }
    else if (OP("destroy")) { isdump = 1; bfdev_rb_node_t *pos, *tmp; struct node *e, *te; long c = 0; flip = a_i(1) & 1;
        o_open(); left = nn + 1; dump(root->node); o_close(); o_open();
#define KILL(p) (p)->left = BFDEV_POISON_RBNODE1, (p)->right = BFDEV_POISON_RBNODE2, (p)->parent = BFDEV_POISON_RBNODE3
        if (a_i(1) >= 2) {          /* the walk stopped and taken up again, twice */
            long stop = a_i(1) - 1, done = 0; bfdev_rb_node_t *keep = NULL; struct node *ke = NULL;
            if (flip) { bfdev_rb_post_for_each_safe(pos, tmp, root) { if (done == stop) break; if (++c > CAP) break; o_i(id(pos)); KILL(pos); ++done; }
                if (pos) bfdev_rb_post_for_each_safe_from(pos, tmp) { if (done == 2 * stop) break; if (++c > CAP) break; o_i(id(pos)); KILL(pos); ++done; }
                if (pos) { o_i(id(pos)); keep = pos; bfdev_rb_post_for_each_safe_continue(pos, tmp) { if (++c > CAP) break; o_i(id(pos)); KILL(pos); } KILL(keep); } }
            else { bfdev_rb_post_for_each_entry_safe(e, te, root, n) { if (done == stop) break; if (++c > CAP) break; o_i(e->id); KILL(&e->n); ++done; }
                if (e) bfdev_rb_post_for_each_entry_from_safe(e, te, n) { if (done == 2 * stop) break; if (++c > CAP) break; o_i(e->id); KILL(&e->n); ++done; }
                if (e) { o_i(e->id); ke = e; bfdev_rb_post_for_each_entry_continue_safe(e, te, n) { if (++c > CAP) break; o_i(e->id); KILL(&e->n); } KILL(&ke->n); } } }
        else if (kind == 0 && flip) bfdev_rb_post_for_each_safe(pos, tmp, root) { if (++c > CAP) break; o_i(id(pos)); KILL(pos); }
        else if (kind & 1 && flip) bfdev_rb_cached_post_for_each_safe(pos, tmp, &R) { if (++c > CAP) break; o_i(id(pos)); KILL(pos); }
        else if (kind & 1) bfdev_rb_cached_post_for_each_entry_safe(e, te, &R, n) { if (++c > CAP) break; o_i(e->id); KILL(&e->n); }
        else bfdev_rb_post_for_each_entry_safe(e, te, root, n) { if (++c > CAP) break; o_i(e->id); KILL(&e->n); }
        o_close(); bfdev_rb_cache_init(&R); }
    else bad("op");
    o_i(ret); o_i(id(bfdev_rb_first(root))); o_i(id(bfdev_rb_last(root))); o_i(kind & 1 ? id(bfdev_rb_cached_first(&R)) : -1); o_i(kind & 1 ? BFDEV_RB_EMPTY_ROOT_CACHED(&R) : BFDEV_RB_EMPTY_ROOT(root));
    o_raw("]");
}
