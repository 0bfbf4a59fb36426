#define DRV_ALLOC
#include "drv.h"
#include <bfdev/textsearch.h>
#include <bfdev/errno.h>
#include <limits.h>
struct src { bfdev_ts_state_t tss; int nseg; unsigned int len[64]; char *seg[64]; };
static bfdev_ts_context_t *tsc; static struct src src[3]; static bfdev_ts_linear_t lin[3]; static char *ltext[3]; static int mode[3], patlen; static unsigned limit;
static unsigned nb(bfdev_ts_context_t *t, bfdev_ts_state_t *s, unsigned consumed, const void **dest) {
    struct src *x = s->pdata; unsigned base = 0;
    if (t != tsc || s != &x->tss) bad("next_block arguments");
    if (++limit > 10000) bad("endless search");
    for (int i = 0; i < x->nseg; base += x->len[i++])
        if (consumed < base + x->len[i]) { *dest = x->seg[i] + (consumed - base); return base + x->len[i] - consumed; }
    return 0;
}
static void sfree(struct src *x) { for (int i = 0; i < x->nseg; ++i) free(x->seg[i]); memset(x, 0, sizeof *x); }
static int prepared, uidx; static bfdev_ts_algorithm_t user[3], twin;
static const char *uname[3] = { "", "user-a", "user-b" };
static bfdev_ts_context_t *u_prep1(const bfdev_alloc_t *al, const void *p, size_t n, unsigned long f) { prepared = 1; return NULL; }
static bfdev_ts_context_t *u_prep2(const bfdev_alloc_t *al, const void *p, size_t n, unsigned long f) { prepared = 2; return NULL; }
static void u_destroy(bfdev_ts_context_t *t) { bad("user destroy"); }
static unsigned u_find(bfdev_ts_context_t *t, bfdev_ts_state_t *s) { bad("user find"); return 0; }
static const void *u_get(bfdev_ts_context_t *t) { return NULL; }
static unsigned u_len(bfdev_ts_context_t *t) { return 0; }
static int inreg[3];
static void drv_reset(void) {
    al_reset(); tsc = NULL;
    for (int i = 1; i < 3; ++i) { sfree(&src[i]); free(ltext[i]); ltext[i] = NULL; mode[i] = 0; memset(&lin[i], 0x5a, sizeof lin[i]);
        if (inreg[i]) bfdev_textsearch_unregister(&user[i]); inreg[i] = 0; }
}
static int rc(int r) { return r == -BFDEV_EINVAL ? -1 : r == -BFDEV_EALREADY ? -2 : r == -BFDEV_ENOENT ? -3 : r; }
static void o_pos(unsigned p) { if (p == UINT_MAX) o_i(-1); else o_i(p); }
static void drv_cmd(void) {
    long n, m; char *p; limit = 0;
    if (OP("create")) {
        p = a_b(2, &n); if (tsc) bad("op"); al_arm(a_i(4), 1);
        tsc = bfdev_textsearch_create(&al_test, a_s(1), p, n, a_i(3) ? BFDEV_TS_IGCASE : 0); al_disarm();
        free(p);                                                       /* the context keeps its own copy */
        if (!tsc && al_live) bad("blocks left after a failed creation");
        for (int i = 1; i < 3; ++i) { sfree(&src[i]); free(ltext[i]); ltext[i] = NULL; mode[i] = 0; }
        o_i(!!tsc); return;
    }
    if (OP("register")) { int i = a_i(1); bfdev_ts_algorithm_t u = { .name = uname[i], .prepare = i == 1 ? u_prep1 : u_prep2, .destroy = u_destroy, .find = u_find, .pattern_get = u_get, .pattern_len = u_len };
        int r; if (a_i(2)) { switch (a_i(2)) { case 1: u.name = NULL; break; case 2: u.prepare = NULL; break; case 3: u.destroy = NULL; break; case 4: u.find = NULL; break; case 5: u.pattern_get = NULL; break; case 6: u.pattern_len = NULL; }
            twin = u; r = bfdev_textsearch_register(&twin); }
        else if (inreg[i]) { twin = u; r = bfdev_textsearch_register(&twin); }
        else { user[i] = u; r = bfdev_textsearch_register(&user[i]); if (!r) inreg[i] = 1; }
        o_i(rc(r)); return; }
    if (OP("taken")) { static const char *nm[3] = { "kmp", "bm", "sunday" }; int r = 0;
        for (int i = 0; i < 3; ++i) { twin = (bfdev_ts_algorithm_t) { .name = nm[i], .prepare = u_prep1, .destroy = u_destroy, .find = u_find, .pattern_get = u_get, .pattern_len = u_len };
            int q = rc(bfdev_textsearch_register(&twin)); if (i && q != r) bad("registry"); r = q; }
        o_i(r); return; }
    if (OP("unregister")) { int r = bfdev_textsearch_unregister(&user[a_i(1)]); if (!r) inreg[a_i(1)] = 0; o_i(rc(r)); return; }
    if (OP("uses")) { prepared = 0; if (bfdev_textsearch_create(&al_test, uname[a_i(1)], "x", 1, 0)) bad("created"); if (prepared && prepared != a_i(1)) bad("wrong algorithm"); o_i(!!prepared); return; }
    if (!tsc) bad("op");
    if (OP("destroy")) { bfdev_textsearch_destroy(tsc); tsc = NULL; o_i(al_live); return; }
    if (OP("pattern")) { o_bytes(textsearch_pattern_get(tsc), bfdev_textsearch_pattern_len(tsc)); return; }
    int s = a_i(1); struct src *x = &src[s];
    if (OP("linear")) { p = a_b(2, &n); free(ltext[s]); ltext[s] = p; mode[s] = 1; o_pos(bfdev_textsearch_linear(tsc, &lin[s], p, n)); return; }
    if (OP("find")) { p = a_b(2, &n); long *g = a_l(3, &m); long b = 0; sfree(x); mode[s] = 2; x->tss.pdata = x; x->tss.offset = 77;
        for (x->nseg = 0; x->nseg < m; b += g[x->nseg++]) { x->len[x->nseg] = g[x->nseg]; x->seg[x->nseg] = malloc(g[x->nseg]); memcpy(x->seg[x->nseg], p + b, g[x->nseg]); }
        free(p); tsc->next_block = nb; o_pos(bfdev_textsearch_find(tsc, &x->tss)); return; }
    if (OP("again")) { tsc->next_block = nb; o_pos(bfdev_textsearch_find(tsc, &x->tss)); return; }
    if (OP("next")) { o_pos(bfdev_textsearch_next(tsc, mode[s] == 1 ? &lin[s].tss : &x->tss)); return; }
    bad("op");
}
