#include "drv.h"
#include <bfdev/ilist.h>
struct node { long id, prio; bfdev_ilist_node_t l; };
static bfdev_ilist_head_t H; static struct node *N; static long nn, desc; static int flip;
#define CAP 2000
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
static long cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pd) {
    long x = bfdev_ilist_entry(a, struct node, l)->prio, y = bfdev_ilist_entry(b, struct node, l)->prio;
    if (pd != &desc) abort();
    return mag(desc ? y - x : x - y);
}
static void visit(struct node *p, int del) { o_i(p->id); if (del && p->id % 2 == 0) bfdev_ilist_del(&H, &p->l); }
#define LOOP(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(bfdev_container_of(pos, struct node, l.node_list), del); }
#define LOOPE(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(e, del); }
static void walk(void) {
    long mode = a_i(1), rev = a_i(2), safe = a_i(3), n = a_i(4), del = a_i(5), cnt = 0;
    flip ^= 1;
    bfdev_list_head_t *pos = n ? &N[n].l.node_list : &H.node_list, *tmp;
    struct node *e = n ? &N[n] : NULL, *t;
    o_open();
    switch (mode * 8 + rev * 4 + safe * 2 + flip) {
    case 0: LOOP(bfdev_ilist_for_each, pos, &H) break;
    case 1: LOOPE(bfdev_ilist_for_each_entry, e, &H, l) break;
    case 2: LOOP(bfdev_ilist_for_each_safe, pos, tmp, &H) break;
    case 3: LOOPE(bfdev_ilist_for_each_entry_safe, e, t, &H, l) break;
    case 4: LOOP(bfdev_ilist_for_each_reverse, pos, &H) break;
    case 5: LOOPE(bfdev_ilist_for_each_entry_reverse, e, &H, l) break;
    case 6: LOOP(bfdev_ilist_for_each_reverse_safe, pos, tmp, &H) break;
    case 7: LOOPE(bfdev_ilist_for_each_entry_reverse_safe, e, t, &H, l) break;
    case 8: LOOP(bfdev_ilist_for_each_from, pos, &H) break;
    case 9: LOOPE(bfdev_ilist_for_each_entry_from, e, &H, l) break;
    case 10: LOOP(bfdev_ilist_for_each_from_safe, pos, tmp, &H) break;
    case 11: LOOPE(bfdev_ilist_for_each_entry_from_safe, e, t, &H, l) break;
    case 12: LOOP(bfdev_ilist_for_each_reverse_from, pos, &H) break;
    case 13: LOOPE(bfdev_ilist_for_each_entry_reverse_from, e, &H, l) break;
    case 14: LOOP(bfdev_ilist_for_each_reverse_from_safe, pos, tmp, &H) break;
    case 15: LOOPE(bfdev_ilist_for_each_entry_reverse_from_safe, e, t, &H, l) break;
    case 16: LOOP(bfdev_ilist_for_each_continue, pos, &H) break;
    case 17: LOOPE(bfdev_ilist_for_each_entry_continue, e, &H, l) break;
    case 18: LOOP(bfdev_ilist_for_each_continue_safe, pos, tmp, &H) break;
    case 19: LOOPE(bfdev_ilist_for_each_entry_continue_safe, e, t, &H, l) break;
    case 20: LOOP(bfdev_ilist_for_each_reverse_continue, pos, &H) break;
    case 21: LOOPE(bfdev_ilist_for_each_entry_reverse_continue, e, &H, l) break;
    case 22: LOOP(bfdev_ilist_for_each_reverse_continue_safe, pos, tmp, &H) break;
    case 23: LOOPE(bfdev_ilist_for_each_entry_reverse_continue_safe, e, t, &H, l) break;
    }
    o_close();
}
static void drv_cmd(void) {
    o_raw("[");
#define ONE(x) do { o_open(); o_i(x); o_close(); } while (0)
    if (OP("new")) { desc = a_i(1); long *p = a_l(2, &nn); N = calloc(nn + 1, sizeof *N); bfdev_ilist_head_init(&H);
        for (long k = 1; k <= nn; ++k) { N[k].id = k; N[k].prio = p[k - 1]; bfdev_ilist_node_init(&N[k].l); } ONE(0); }
    else if (OP("add")) { bfdev_ilist_add(&H, &N[a_i(1)].l, cmp, &desc); ONE(0); }
    else if (OP("del")) { bfdev_ilist_del(&H, &N[a_i(1)].l); ONE(0); }
    else if (OP("walk")) walk();
    else bad("op");
    bfdev_list_head_t *p; long c = 0; struct node *f;
    o_open(); for (p = H.node_list.next; p != &H.node_list && c++ < CAP; p = p->next) o_i(bfdev_container_of(p, struct node, l.node_list)->id); o_close(); c = 0;
    o_open(); for (p = H.node_list.prev; p != &H.node_list && c++ < CAP; p = p->prev) o_i(bfdev_container_of(p, struct node, l.node_list)->id); o_close();
    int emp = bfdev_ilist_head_empty(&H);
    for (int d = 0; d < 2; ++d) { o_open();
        if (!emp) { f = bfdev_container_of(bfdev_ilist_first(&H), struct node, l); p = &f->l.index_list; c = 0;
            do { if (d) p = p->prev; o_i(bfdev_container_of(p, struct node, l.index_list)->id); if (!d) p = p->next; } while (p != &f->l.index_list && c++ < CAP); }
        o_close(); }
    o_open(); for (long k = 1; k <= nn; ++k) o_i(bfdev_ilist_node_empty(&N[k].l)); o_close();
    o_open(); if (emp) { o_i(0); o_i(0); } else { o_i(bfdev_container_of(bfdev_ilist_first(&H), struct node, l)->id); o_i(bfdev_container_of(bfdev_ilist_last(&H), struct node, l)->id); } o_close();
    o_i(emp);
    o_raw("]");
}
