#include "drv.h"
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
struct node { long id; bfdev_hlist_node_t h; bfdev_slist_head_t l; };
static bfdev_hlist_head_t HH[3]; static bfdev_slist_head_t SH[3];
static struct node *N; static long nn; static int hk, flip;
#define CAP 2000
static void drv_reset(void) { free(N); N = NULL; flip = 0; }
static int where(struct node *e) {
    for (int k = 1; k <= 2; ++k) { int c = 0;
        if (hk) { for (bfdev_hlist_node_t *p = HH[k].node; p && c++ < CAP; p = p->next) if (p == &e->h) return k; }
        else for (bfdev_slist_head_t *p = SH[k].next; p && c++ < CAP; p = p->next) if (p == &e->l) return k; }
    return 0;
}
static void visit(struct node *p, int h, int del) {
    o_i(p->id);
    if (del && p->id % 2 == 0) { if (hk) bfdev_hlist_del(&p->h); else bfdev_slist_del(&SH[h], &p->l); }
}
#define LH(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(bfdev_hlist_entry(hp, struct node, h), h, del); }
#define LS(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(bfdev_slist_entry(sp, struct node, l), h, del); }
#define LE(macro, ...) macro(__VA_ARGS__) { if (++cnt > CAP) { o_i(-555); break; } visit(e, h, del); }
static void walk(void) {
    long mode = a_i(1), safe = a_i(2), h = a_i(3), n = a_i(4), del = a_i(5), cnt = 0;
    struct node *e = n ? &N[n] : NULL, *t = NULL;
    bfdev_hlist_node_t *hp = n ? &N[n].h : NULL, *ht = NULL; bfdev_slist_head_t *sp = n ? &N[n].l : NULL, *st = NULL;
    flip ^= 1;
    o_open();
    switch ((hk ? 0 : 100) + mode * 4 + safe * 2 + flip) {
    case 0: LH(bfdev_hlist_for_each, hp, &HH[h]) break;
    case 1: LE(bfdev_hlist_for_each_entry, e, &HH[h], h) break;
    case 2: LH(bfdev_hlist_for_each_safe, hp, ht, &HH[h]) break;
    case 3: LE(bfdev_hlist_for_each_entry_safe, e, t, &HH[h], h) break;
    case 4: LH(bfdev_hlist_for_each_from, hp) break;
    case 5: LE(bfdev_hlist_for_each_entry_from, e, h) break;
    case 6: LH(bfdev_hlist_for_each_from_safe, hp, ht) break;
    case 7: LE(bfdev_hlist_for_each_entry_from_safe, e, t, h) break;
    case 8: LH(bfdev_hlist_for_each_continue, hp) break;
    case 9: LE(bfdev_hlist_for_each_entry_continue, e, h) break;
    case 10: LH(bfdev_hlist_for_each_continue_safe, hp, ht) break;
    case 11: LE(bfdev_hlist_for_each_entry_continue_safe, e, t, h) break;
    case 100: LS(bfdev_slist_for_each, sp, &SH[h]) break;
    case 101: LE(bfdev_slist_for_each_entry, e, &SH[h], l) break;
    case 102: LS(bfdev_slist_for_each_safe, sp, st, &SH[h]) break;
    case 103: LE(bfdev_slist_for_each_entry_safe, e, t, &SH[h], l) break;
    case 104: LS(bfdev_slist_for_each_from, sp) break;
    case 105: LE(bfdev_slist_for_each_entry_from, e, l) break;
    case 106: LS(bfdev_slist_for_each_from_safe, sp, st) break;
    case 107: LE(bfdev_slist_for_each_entry_from_safe, e, t, l) break;
    case 108: LS(bfdev_slist_for_each_continue, sp) break;
    case 109: LE(bfdev_slist_for_each_entry_continue, e, l) break;
    case 110: LS(bfdev_slist_for_each_continue_safe, sp, st) break;
    case 111: LE(bfdev_slist_for_each_entry_continue_safe, e, t, l) break;
    }
    o_close();
}
static void drv_cmd(void) {
    o_raw("[");
#define ONE(x) do { o_open(); o_i(x); o_close(); } while (0)
    if (OP("new")) { hk = a_s(1)[0] == 'h'; nn = a_i(2); N = calloc(nn + 1, sizeof *N); for (long k = 0; k <= nn; ++k) { N[k].id = k; bfdev_hlist_node_init(&N[k].h); bfdev_slist_head_init(&N[k].l); }
        for (int k = 1; k <= 2; ++k) { bfdev_hlist_head_init(&HH[k]); bfdev_slist_head_init(&SH[k]); } ONE(0); }
    else if (OP("headadd")) { if (hk) bfdev_hlist_head_add(&HH[a_i(1)], &N[a_i(2)].h); else bfdev_slist_add(&SH[a_i(1)], &N[a_i(2)].l); ONE(0); }
    else if (OP("nextadd")) { if (hk) bfdev_hlist_next_add(&N[a_i(1)].h, &N[a_i(2)].h); else bfdev_slist_add(&N[a_i(1)].l, &N[a_i(2)].l); ONE(0); }
    else if (OP("prevadd")) { bfdev_hlist_prev_add(&N[a_i(1)].h, &N[a_i(2)].h); ONE(0); }
    else if (OP("readd")) { struct node *e = &N[a_i(1)]; int w = where(e);
        if (hk) { if (HH[w].node == &e->h) bfdev_hlist_head_add(&HH[w], &e->h); else { struct node *p = bfdev_container_of((bfdev_hlist_node_t *)((char *)e->h.pprev - offsetof(bfdev_hlist_node_t, next)), struct node, h); bfdev_hlist_next_add(&p->h, &e->h); if (e->h.next) bfdev_hlist_prev_add(e->h.next, &e->h); } }
        else { bfdev_slist_add(&e->l, &e->l); for (bfdev_slist_head_t *p = &SH[w]; p; p = p->next) if (p->next == &e->l) { bfdev_slist_add(p, &e->l); break; } }
        ONE(0); }
    else if (OP("del")) { struct node *e = &N[a_i(1)]; if (hk) bfdev_hlist_del(&e->h); else { int w = where(e); bfdev_slist_del(&SH[w ? w : 1], &e->l); } ONE(0); }
    else if (OP("delinit")) { bfdev_hlist_del_init(&N[a_i(1)].h); ONE(0); }
    else if (OP("replace")) { struct node *e = &N[a_i(1)], *f = &N[a_i(2)]; if (hk) { bfdev_hlist_replace(&e->h, &f->h); bfdev_hlist_node_init(&e->h); } else { bfdev_slist_replace(&SH[where(e)], &e->l, &f->l); bfdev_slist_head_init(&e->l); } ONE(0); }
    else if (OP("headreplace")) { bfdev_hlist_head_replace(&HH[a_i(1)], &HH[3 - a_i(1)]); ONE(0); }
    else if (OP("query")) { struct node *e = &N[a_i(1)]; int w = where(e);
        o_open();
        if (!w) { o_i(0); o_i(0); o_i(0); o_i(hk ? bfdev_hlist_check_unhashed(&e->h) : bfdev_slist_check_end(&e->l)); }
        else if (hk) { o_i(bfdev_hlist_check_first(&HH[w], &e->h)); o_i(bfdev_hlist_check_end(&e->h)); o_i(bfdev_hlist_check_another(&HH[w], &e->h)); o_i(bfdev_hlist_check_unhashed(&e->h)); }
        else { o_i(bfdev_slist_check_first(&SH[w], &e->l)); o_i(bfdev_slist_check_end(&e->l)); o_i(bfdev_slist_check_another(&SH[w], &e->l)); o_i(0); }
        o_close(); }
    else if (OP("walk")) walk();
    else bad("op");
    for (int k = 1; k <= 2; ++k) { int c = 0; o_open();
        if (hk) for (bfdev_hlist_node_t *p = HH[k].node; p && c++ < CAP; p = p->next) o_i(bfdev_container_of(p, struct node, h)->id);
        else for (bfdev_slist_head_t *p = SH[k].next; p && c++ < CAP; p = p->next) o_i(bfdev_container_of(p, struct node, l)->id);
        o_close(); }
    o_open(); for (int k = 1; k <= 2; ++k) o_i(hk ? bfdev_hlist_check_empty(&HH[k]) : bfdev_slist_check_empty(&SH[k])); o_close();
    o_raw("]");
}
