#define DRV_ALLOC
#include "drv.h"
#include <bfdev/fsm.h>
#include <bfdev/errno.h>
#define MAXS 16
#define MAXT 64
static bfdev_fsm_state_t st[MAXS + 1]; static bfdev_fsm_transition_t tr[MAXT + 1], xtr[MAXS + 1];
static int sid[MAXS + 1], tid[MAXT + 1], grd[MAXT + 1], xm[MAXS + 1], xt[MAXS + 1], base[MAXS + 1];
static bfdev_fsm_t fsm; static int live;
static char lg[4096]; static size_t ln; static int calls, failat, code; static bfdev_fsm_event_t *cev;
struct pay { int p; };
static int cb(bfdev_fsm_event_t *e, const char *fmt, int a, int b, int c) {
    if (e != cev) bad("event");
    if (ln + 64 > sizeof lg) bad("endless handling");
    ln += snprintf(lg + ln, sizeof lg - ln, "%s[", ln ? "," : "");
    ln += snprintf(lg + ln, sizeof lg - ln, fmt, a, b, c); ln += snprintf(lg + ln, sizeof lg - ln, "]");
    return ++calls == failat ? code : 0;
}
static int on_enter(bfdev_fsm_event_t *e, void *d) { return cb(e, "3,%d", *(int *)d, 0, 0); }
static int on_exit_(bfdev_fsm_event_t *e, void *d) { return cb(e, "1,%d", *(int *)d, 0, 0); }
static int on_act(bfdev_fsm_event_t *e, void *d, void *c, void *n) { return cb(e, "2,%d,%d,%d", *(int *)d, *(int *)c, *(int *)n); }
static long on_guard(bfdev_fsm_event_t *e, const void *c) { return mag(((struct pay *)e->pdata)->p - *(const int *)c); }
static bfdev_fsm_transition_t *on_exc(bfdev_fsm_event_t *e, void *d) { int s = *(int *)d; if (e != cev) bad("event"); return xm[s] == 2 ? &xtr[s] : NULL; }
static int idx(const bfdev_fsm_state_t *s) { return s ? (int)(s - st) : 0; }
static const bfdev_fsm_state_t *sp(long i) { return i ? &st[i] : NULL; }
static void drv_reset(void) { al_reset(); memset(&fsm, 0, sizeof fsm); live = 0; }
static void o_log(void) { o_sep(); o_raw("[%s]", lg); }
static void report(long r) {
    bfdev_fsm_state_t *c = bfdev_fsm_curr(&fsm);
    o_open(); o_i(r); o_i(idx(c)); o_i(idx(bfdev_fsm_prev(&fsm))); o_i(c ? bfdev_fsm_finished(&fsm) : 0); o_log(); o_close();
}
static long rc(long r) {
    switch (r) { case -BFDEV_EINVAL: return -1; case -BFDEV_EOVERFLOW: return -2; case -BFDEV_ENOENT: return -3; case -BFDEV_EFAULT: return -4; case -BFDEV_ENOMEM: return -5;
    case BFDEV_FSM_CHANGED: return 100; case BFDEV_FSM_NOCHANGE: return 101; case BFDEV_FSM_SELFLOOP: return 102; case BFDEV_FSM_FINISH: return 103; }
    return r;
}
static void drv_cmd(void) {
    ln = 0; lg[0] = 0; calls = 0; failat = 0;
    if (OP("machine")) {
        long n, m; long *par = a_l(3, &n), *ent = a_l(4, &m), *fl = a_l(5, &m), *ex = a_l(6, &m), *row = a_l(7, &m); int nt = 0;
        memset(st, 0, sizeof st); memset(tr, 0, sizeof tr); if (n > MAXS || m / 7 > MAXT) bad("size");
        for (int s = 1; s <= n; ++s) {
            sid[s] = s; xm[s] = ex[s-1]; st[s].data = &sid[s]; st[s].parent = sp(par[s-1]); st[s].entry = sp(ent[s-1]);
            if (fl[s-1] & 1) st[s].enter = on_enter; if (fl[s-1] & 2) st[s].exit = on_exit_; if (xm[s]) st[s].exception = on_exc;
            st[s].trans = &tr[nt];
            for (int t = 1; t <= m / 7; ++t) { long *q = row + 7 * (t - 1); bfdev_fsm_transition_t *x;
                if (q[0] == s) { x = &tr[nt++]; ++st[s].tnum; } else if (q[0] == -s) x = &xtr[s]; else continue;
                tid[t] = t; grd[t] = q[2]; memset(x, 0, sizeof *x); x->type = q[1]; if (q[2] != -1) { x->guard = on_guard; x->cond = &grd[t]; }
                x->next = sp(q[3]); x->cross = q[4]; x->stack = q[5]; if (q[6]) x->action = on_act; x->data = &tid[t]; }
        }
        if (live) bad("machine"); live = 1;
        if (a_i(1) & 1) { BFDEV_DEFINE_FSM(fresh, &al_test, sp(a_i(1)), sp(a_i(2))); fsm = fresh; } else bfdev_fsm_init(&fsm, &al_test, sp(a_i(1)), sp(a_i(2))); report(0); return;
    }
    if (OP("reset")) { bfdev_fsm_reset(&fsm, sp(a_i(1))); report(0); return; }
    struct pay p = { a_i(2) }; bfdev_fsm_event_t ev = { .type = a_i(1), .pdata = &p }; cev = &ev; failat = a_i(3); code = a_i(4);
    if (OP("handle")) { long r; al_arm(a_i(5), 1); r = bfdev_fsm_handle(&fsm, &ev); al_disarm(); report(rc(r)); }
    else if (OP("error")) { long r = bfdev_fsm_error(&fsm, &ev); report(r); }
    else bad("op");
}
