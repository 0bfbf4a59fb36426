#include "drv.h"
#include <bfdev/list.h>
struct node { long id; bfdev_list_head_t l; };
static bfdev_list_head_t H[3]; static struct node *N; static long nn;
static int flip;
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
static bfdev_list_head_t *anchor(int k) { long n; long *v = a_l(k, &n); return v[0] ? &N[v[1]].l : &H[v[1]]; }
#define CAP 2000
static void visit(struct node *p, int del) { o_i(p->id); if (del && p->id % 2 == 0) bfdev_list_del_init(&p->l); }
#define LOOP(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(bfdev_list_entry(pos, struct node, l), del); }
#define LOOPE(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(e, del); }
static int flip;
static void walk(void) {
    long mode = a_i(1), rev = a_i(2), safe = a_i(3), h = a_i(4), n = a_i(5), del = a_i(6), cnt = 0;
    flip ^= 1;       /* alternate between the raw and the entry form */
    bfdev_list_head_t *pos = n ? &N[n].l : &H[h], *tmp, *head = &H[h];
    struct node *e = bfdev_list_entry(pos, struct node, l), *t;
    o_open();
    switch (mode * 8 + rev * 4 + safe * 2 + flip) {
    case 0: LOOP(bfdev_list_for_each, pos, head) break;
    case 1: LOOPE(bfdev_list_for_each_entry, e, head, l) break;
    case 2: LOOP(bfdev_list_for_each_safe, pos, tmp, head) break;
    case 3: LOOPE(bfdev_list_for_each_entry_safe, e, t, head, l) break;
    case 4: LOOP(bfdev_list_for_each_reverse, pos, head) break;
    case 5: LOOPE(bfdev_list_for_each_entry_reverse, e, head, l) break;
    case 6: LOOP(bfdev_list_for_each_reverse_safe, pos, tmp, head) break;
    case 7: LOOPE(bfdev_list_for_each_entry_reverse_safe, e, t, head, l) break;
    case 8: LOOP(bfdev_list_for_each_from, pos, head) break;
    case 9: LOOPE(bfdev_list_for_each_entry_from, e, head, l) break;
    case 10: LOOP(bfdev_list_for_each_from_safe, pos, tmp, head) break;
    case 11: LOOPE(bfdev_list_for_each_entry_from_safe, e, t, head, l) break;
    case 12: LOOP(bfdev_list_for_each_reverse_from, pos, head) break;
    case 13: LOOPE(bfdev_list_for_each_entry_reverse_from, e, head, l) break;
    case 14: LOOP(bfdev_list_for_each_reverse_from_safe, pos, tmp, head) break;
    case 15: LOOPE(bfdev_list_for_each_entry_reverse_from_safe, e, t, head, l) break;
    case 16: LOOP(bfdev_list_for_each_continue, pos, head) break;
    case 17: LOOPE(bfdev_list_for_each_entry_continue, e, head, l) break;
    case 18: LOOP(bfdev_list_for_each_continue_safe, pos, tmp, head) break;
    case 19: LOOPE(bfdev_list_for_each_entry_continue_safe, e, t, head, l) break;
    case 20: LOOP(bfdev_list_for_each_reverse_continue, pos, head) break;
    case 21: LOOPE(bfdev_list_for_each_entry_reverse_continue, e, head, l) break;
    case 22: LOOP(bfdev_list_for_each_reverse_continue_safe, pos, tmp, head) break;
    case 23: LOOPE(bfdev_list_for_each_entry_reverse_continue_safe, e, t, head, l) break;
    }
    o_close();
}
static void proj(void) {
    for (int h = 1; h <= 2; ++h) {
        bfdev_list_head_t *p; int c = 0;
        o_open(); for (p = H[h].next; p != &H[h] && c++ < CAP; p = p->next) o_i(bfdev_list_entry(p, struct node, l)->id); o_close(); c = 0;
        o_open(); for (p = H[h].prev; p != &H[h] && c++ < CAP; p = p->prev) o_i(bfdev_list_entry(p, struct node, l)->id); o_close();
    }
    o_open(); o_i(bfdev_list_check_empty(&H[1])); o_i(bfdev_list_check_empty(&H[2])); o_close();
}
static long hd(struct node *e) { return e ? e->id : 0; }
static void drv_cmd(void) {
    o_raw("[");
#define ONE(x) do { o_open(); o_i(x); o_close(); } while (0)
#define ND(k) (&N[a_i(k)].l)
    if (OP("new")) { nn = a_i(1); N = calloc(nn + 1, sizeof *N); for (long k = 0; k <= nn; ++k) { N[k].id = k; bfdev_list_head_init(&N[k].l); } bfdev_list_head_init(&H[1]); bfdev_list_head_init(&H[2]); ONE(0); }
    else if (OP("add")) { bfdev_list_add(anchor(1), ND(2)); ONE(0); }
    else if (OP("addprev")) { bfdev_list_add_prev(anchor(1), ND(2)); ONE(0); }
    else if (OP("readd")) { bfdev_list_add(ND(1), ND(1)); bfdev_list_add_prev(ND(1), ND(1)); ONE(0); }
    else if (OP("del")) { bfdev_list_del(ND(1)); ONE(0); }
    else if (OP("delinit")) { bfdev_list_del_init(ND(1)); ONE(!bfdev_list_check_empty(ND(1))); }
    else if (OP("replace")) { bfdev_list_replace(ND(1), ND(2)); bfdev_list_head_init(ND(1)); ONE(0); }
    else if (OP("replaceinit")) { bfdev_list_replace_init(ND(1), ND(2)); ONE(bfdev_list_check_empty(ND(1))); }
    else if (OP("move")) { bfdev_list_move(anchor(1), ND(2)); ONE(0); }
    else if (OP("moveprev")) { bfdev_list_move_prev(anchor(1), ND(2)); ONE(0); }
    else if (OP("swap")) { bfdev_list_swap(ND(1), ND(2)); ONE(0); }
    else if (OP("splice")) { bfdev_list_splice(anchor(1), &H[a_i(2)]); bfdev_list_head_init(&H[a_i(2)]); ONE(0); }
    else if (OP("spliceprev")) { bfdev_list_splice_prev(anchor(1), &H[a_i(2)]); bfdev_list_head_init(&H[a_i(2)]); ONE(0); }
    else if (OP("spliceinit")) { bfdev_list_splice_init(anchor(1), &H[a_i(2)]); ONE(0); }
    else if (OP("splicetailinit")) { bfdev_list_splice_tail_init(anchor(1), &H[a_i(2)]); ONE(0); }
    else if (OP("walk")) walk();
    else if (OP("query")) {
        struct node *e = &N[a_i(1)]; bfdev_list_head_t *h = NULL;
        for (int k = 1; k <= 2; ++k) { bfdev_list_head_t *p; int c = 0; for (p = H[k].next; p != &H[k] && c++ < CAP; p = p->next) if (p == &e->l) h = &H[k]; }
        o_open(); 
        if (h) { o_i(bfdev_list_check_first(h, &e->l)); o_i(bfdev_list_check_end(h, &e->l)); o_i(bfdev_list_check_another(h, &e->l)); o_i(bfdev_list_check_head(h, &e->l));
          o_i(hd(bfdev_list_next_entry_or_null(e, h, l))); o_i(hd(bfdev_list_prev_entry_or_null(e, h, l))); }
        o_close();
    } else if (OP("ends")) { bfdev_list_head_t *h = &H[a_i(1)]; o_open(); o_i(hd(bfdev_list_first_entry_or_null(h, struct node, l))); o_i(hd(bfdev_list_last_entry_or_null(h, struct node, l))); o_i(bfdev_list_check_head(h, h)); o_close(); }
    else bad("op");
    proj();
    o_raw("]");
}
