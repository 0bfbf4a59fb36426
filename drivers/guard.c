#include "drv.h"
#include <bfdev/log.h>
#include <bfdev/list.h>
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/ilist.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#define MX 16
static long nn, reports; static char kind;
static bfdev_list_head_t L[MX]; static bfdev_slist_head_t S[MX]; static bfdev_hlist_node_t Hn[MX]; static bfdev_hlist_head_t HH;
struct node { long id, val, max; bfdev_rb_node_t r; bfdev_heap_node_t h; bfdev_ilist_node_t i; };
static struct node N[MX], N0[MX]; static bfdev_rb_root_cached_t R, R0; static bfdev_heap_root_t P, P0; static bfdev_ilist_head_t I, I0;
#define VAL(x) ((x)->val)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, augcb, struct node, r, long, max, VAL);
static int hook(bfdev_log_message_t *msg, void *pd) { (void)pd; if (msg->level > BFDEV_LEVEL_ERR || !msg->length) bad("report level"); ++reports; return 0; }
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd) { (void)pd; return bfdev_rb_entry(a, struct node, r)->id - bfdev_rb_entry(b, struct node, r)->id; }
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd) { (void)pd; return bfdev_heap_entry(a, struct node, h)->id - bfdev_heap_entry(b, struct node, h)->id; }
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pd) { (void)pd; return bfdev_ilist_entry(a, struct node, i)->id - bfdev_ilist_entry(b, struct node, i)->id; }
static void drv_reset(void) {
    memset(N, 0, sizeof N); memset(L, 0, sizeof L); memset(S, 0, sizeof S); memset(Hn, 0, sizeof Hn); memset(&HH, 0, sizeof HH); memset(&P, 0, sizeof P);
    bfdev_log_default.write = hook; bfdev_log_default.record_level = BFDEV_LEVEL_DEBUG;
}
static long lid(const void *p, const void *base, size_t sz, const void *poison) {
    if (!p) return 0;
    if (p == poison) return -1;
    size_t d = (const char *)p - (const char *)base;
    return d % sz || d / sz < 1 || d / sz > (size_t)nn ? -99 : (long)(d / sz);
}
static long pid(bfdev_hlist_node_t **pp) {
    if (pp == &HH.node) return 0;
    if ((void *)pp == BFDEV_POISON_HLIST2 || !pp) return -1;
    return lid((char *)pp - offsetof(bfdev_hlist_node_t, next), Hn, sizeof *Hn, NULL);
}
static void snap(void) { memcpy(N0, N, sizeof N); R0 = R; P0 = P; I0 = I; }
static int same(void) { return !memcmp(N0, N, sizeof N) && !memcmp(&R0, &R, sizeof R) && !memcmp(&P0, &P, sizeof P) && !memcmp(&I0, &I, sizeof I); }
static void order(bfdev_heap_node_t *p, char *seen) { if (!p) return; long id = bfdev_heap_entry(p, struct node, h)->id; if (seen[id]++) return; order(p->left, seen); order(p->right, seen); }
static bfdev_list_head_t *ilink(long l) { return l ? &N[l].i.node_list : &I.node_list; }
static void drv_cmd(void) {
    reports = 0;
    if (OP("new")) {
        nn = a_i(2); kind = a_s(1)[0];
        if (nn >= MX) bad("missing argument");
        if (kind == 'l') for (long k = 1; k <= nn; ++k) bfdev_list_head_init(&L[k]);
        if (kind == 's') for (long k = 1; k <= nn; ++k) bfdev_slist_head_init(&S[k]);
        if (kind == 'h' && a_s(1)[1] == 'e') kind = 'p', P = BFDEV_HEAP_INIT();
        if (kind == 'h') bfdev_hlist_head_init(&HH);
        bfdev_rb_cache_init(&R); bfdev_ilist_head_init(&I);
        for (long k = 1; k < MX; ++k) { N[k].id = k; N[k].val = k * 37 % 11; bfdev_ilist_node_init(&N[k].i); }
    }
    else if (OP("linsert")) bfdev_list_insert(&L[a_i(1)], &L[a_i(2)], &L[a_i(3)]);
    else if (OP("ladd")) bfdev_list_add(&L[a_i(1)], &L[a_i(2)]);
    else if (OP("laddprev")) bfdev_list_add_prev(&L[a_i(1)], &L[a_i(2)]);
    else if (OP("ldel")) bfdev_list_del(&L[a_i(1)]);
    else if (OP("hhead")) bfdev_hlist_head_add(&HH, &Hn[a_i(1)]);
    else if (OP("hnext")) bfdev_hlist_next_add(&Hn[a_i(1)], &Hn[a_i(2)]);
    else if (OP("hprev")) bfdev_hlist_prev_add(&Hn[a_i(1)], &Hn[a_i(2)]);
    else if (OP("hdel")) bfdev_hlist_del(&Hn[a_i(1)]);
    else if (OP("sadd")) bfdev_slist_add(&S[a_i(1)], &S[a_i(2)]);
    else if (OP("sdel")) bfdev_slist_del(&S[1], &S[a_i(1)]);
    else if (OP("spoil")) *(a_i(1) ? &L[a_i(2)].prev : &L[a_i(2)].next) = &L[a_i(3)];
    else if (OP("qinsert")) {
        struct node *x = &N[a_i(1)]; x->max = x->val;
        switch (kind) {
        case 't': bfdev_rb_insert(&R.root, &x->r, rcmp, NULL); break;
        case 'c': bfdev_rb_cached_insert(&R, &x->r, rcmp, NULL); break;
        case 'a': bfdev_rb_insert_augmented(&R.root, &x->r, rcmp, NULL, &augcb); break;
        case 'x': bfdev_rb_cached_insert_augmented(&R, &x->r, rcmp, NULL, &augcb); break;
        case 'p': bfdev_heap_insert(&P, &x->h, hcmp, NULL); break;
        case 'i': bfdev_ilist_add(&I, &x->i, icmp, NULL); break;
        }
    } else if (OP("qdelete")) {
        struct node *x = &N[a_i(1)]; snap();
        switch (kind) {
        case 't': bfdev_rb_delete(&R.root, &x->r); break;
        case 'c': bfdev_rb_cached_delete(&R, &x->r); break;
        case 'a': bfdev_rb_delete_augmented(&R.root, &x->r, &augcb); break;
        case 'x': bfdev_rb_cached_delete_augmented(&R, &x->r, &augcb); break;
        case 'p': bfdev_heap_delete(&P, &x->h, hcmp, NULL); break;
        case 'i': bfdev_ilist_del(&I, &x->i); break;
        }
        if (reports && !same()) { o_i(-77); return; }
    } else if (OP("qrelink")) {
        struct node *x = &N[a_i(1)]; snap();
        if (kind == 'p') {
            bfdev_heap_node_t *q = x->h.parent;
            bfdev_heap_link(&P, q, !q ? &P.node : q->left == &x->h ? &q->left : &q->right, &x->h);
        } else {
            bfdev_rb_node_t *q = x->r.parent;
            bfdev_rb_link(q, !q ? &R.root.node : q->left == &x->r ? &q->left : &q->right, &x->r);
        }
        if (!same()) { o_i(-77); return; }
    } else if (OP("qspoiltadd") || OP("qspoiltdel")) {
        bfdev_list_head_t *l = ilink(a_i(2)), keep = *l, *to = l;
        *(a_i(1) ? &l->prev : &l->next) = to; snap();
        if (OP("qspoiltadd")) bfdev_ilist_add(&I, &N[a_i(3)].i, icmp, NULL); else bfdev_ilist_del(&I, &N[a_i(3)].i);
        int ok = same(); *l = keep;
        if (!ok) { o_i(-77); return; }
    } else bad("op");
    o_raw("["); o_i(reports > 0);
    if (kind == 'l' || kind == 'h' || kind == 's') {
        o_i(kind == 'h' ? lid(HH.node, Hn, sizeof *Hn, NULL) : 0);
        o_open(); for (long k = 1; k <= nn; ++k) o_i(kind == 'l' ? lid(L[k].next, L, sizeof *L, BFDEV_POISON_LIST1) : kind == 'h' ? lid(Hn[k].next, Hn, sizeof *Hn, BFDEV_POISON_HLIST1) : lid(S[k].next, S, sizeof *S, BFDEV_POISON_SLIST)); o_close();
        o_open(); for (long k = 1; k <= nn && kind != 's'; ++k) o_i(kind == 'l' ? lid(L[k].prev, L, sizeof *L, BFDEV_POISON_LIST2) : pid(Hn[k].pprev)); o_close();
    } else if (OP("new")) { o_i(0); o_open(); o_close(); o_open(); o_close(); }
    else {
        o_open();
        if (kind == 'p') { char seen[MX] = {0}; order(P.node, seen); for (long k = 1; k <= nn; ++k) for (int j = 0; j < seen[k]; ++j) o_i(k); }
        else if (kind == 'i') { struct node *e; int c = 0; bfdev_ilist_for_each_entry(e, &I, i) { if (++c > MX) break; o_i(e->id); } }
        else { int c = 0; for (bfdev_rb_node_t *p = bfdev_rb_first(&R.root); p && ++c < MX; p = bfdev_rb_next(p)) o_i(bfdev_rb_entry(p, struct node, r)->id); }
        o_close();
    }
    o_raw("]");
}
