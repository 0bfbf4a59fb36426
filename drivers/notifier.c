#include "drv.h"
#include <bfdev/notifier.h>
struct hnd { long id, reg; bfdev_notifier_node_t n; };
static bfdev_notifier_t H; static struct hnd *N; static long nn; static long *beh; static long called[1000], nc; static int token;
static void drv_reset(void) { free(N); N = NULL; }
static bfdev_notifier_ret_t entry(void *args, void *pd) {
    struct hnd *h = pd;
    if (args != &token) abort();
    if (nc >= 99) { fprintf(stderr, "BUG: endless chain\n"); abort(); }
    called[nc++] = h->id;
    switch (beh[h->id - 1]) {
    case 1: h->reg = 0; return BFDEV_NOTIFI_RET_REMOVE;
    case 2: return BFDEV_NOTIFI_RET_STOP;
    case 3: h->reg = 0; return BFDEV_NOTIFI_RET_REMOVE | BFDEV_NOTIFI_RET_STOP;
    case 4: h->reg = 0; bfdev_notifier_unregister(&H, &h->n); return BFDEV_NOTIFI_RET_DONE;
    case 5: h->reg = 0; bfdev_notifier_unregister(&H, &h->n); return BFDEV_NOTIFI_RET_STOP;
    case 6: { long m = 0; for (long i = 0; i < nc; ++i) if (called[i] != h->id && N[called[i]].reg && called[i] > m) m = called[i];
        if (m) { N[m].reg = 0; bfdev_notifier_unregister(&H, &N[m].n); } return BFDEV_NOTIFI_RET_DONE; }
    }
    return BFDEV_NOTIFI_RET_DONE;
}
static void drv_cmd(void) {
    o_raw("["); o_open();
    if (OP("new")) { long *p = a_l(1, &nn); N = calloc(nn + 1, sizeof *N); if (nn & 1) H = BFDEV_NOTIFIER_INIT(&H); else bfdev_notifier_init(&H);
        for (long k = 1; k <= nn; ++k) { N[k].id = k; N[k].n.priority = p[k - 1]; N[k].n.entry = entry; N[k].n.pdata = &N[k]; } o_i(0); }
    else if (OP("register")) { struct hnd *h = &N[a_i(1)]; h->reg = 1; o_i(bfdev_notifier_register(&H, &h->n)); }
    else if (OP("regnull")) { static bfdev_notifier_node_t z; memset(&z, 0, sizeof z); o_i(bfdev_notifier_register(&H, &z)); }
    else if (OP("unregister")) { struct hnd *h = &N[a_i(1)]; h->reg = 0; bfdev_notifier_unregister(&H, &h->n); o_i(0); }
    else if (OP("call")) { long l = a_i(1), c = a_i(2); unsigned int num = c; beh = a_l(3, NULL); nc = 0;
        int r = bfdev_notifier_call(&H, &token, l < 0 ? ~0U : (unsigned)l, c < 0 ? NULL : &num);
        o_i(r); o_open(); for (long k = 0; k < nc; ++k) o_i(called[k]); o_close(); o_i(c < 0 ? c : (long)num); }
    else bad("op");
    o_close(); o_open();
    struct hnd *h; long c = 0; bfdev_ilist_for_each_entry(h, &H.nodes, n.list) { if (c++ > 100) break; o_i(h->id); } o_close();
    o_raw("]");
}
