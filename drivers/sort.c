#include "drv.h"
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
#include <limits.h>
static void drv_reset(void) {}
static long style, ord; static size_t cells; static unsigned char *lo, *hi;
static long W(long x) { return ord == 0 ? x : ord == 1 ? -x : x % 3; }
static long sgn(long d) { return style == 0 ? (d > 0) - (d < 0) : style == 1 ? d : d > 0 ? LONG_MAX : d < 0 ? LONG_MIN : 0; }
static void chk(const unsigned char *p) { if (p < lo || p >= hi || (size_t)(p - lo) % cells) { fprintf(stderr, "BUG: element pointer outside the array\n"); abort(); } }
/* element layout: key, then (cells >= 2) tag low, (cells >= 3) tag high, filler derived from both */
static long key(const unsigned char *p) { return p[0]; }
static long tag(const unsigned char *p) { return cells < 2 ? -1 : p[1] + (cells < 3 ? 0 : p[2] << 8); }
static long cmp(const void *a, const void *b, void *pd) { chk(a); chk(b); if (pd != &style) abort(); return sgn(W(key(a)) - W(key(b))); }
static void put(unsigned char *p, long k, long t) { p[0] = k; if (cells > 1) p[1] = t; if (cells > 2) p[2] = t >> 8; for (size_t j = 3; j < cells; ++j) p[j] = (unsigned char)(k * 7 + t * 13 + j); }
static int okel(const unsigned char *p) { for (size_t j = 3; j < cells; ++j) if (p[j] != (unsigned char)(key(p) * 7 + tag(p) * 13 + j)) return 0; return 1; }
struct pr { long k, t; };
static int pc(const void *a, const void *b) { const struct pr *x = a, *y = b; return x->k != y->k ? (x->k > y->k) - (x->k < y->k) : (x->t > y->t) - (x->t < y->t); }
struct el { long k, t; bfdev_list_head_t l; };
static long lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pd) { if (pd != &style) abort();
    return sgn(W(bfdev_list_entry(a, struct el, l)->k) - W(bfdev_list_entry(b, struct el, l)->k)); }
static long want;
static long find(const void *p, const void *pd) { chk(p); return sgn(W(key(p)) - W(*(const long *)pd)); }
static void drv_cmd(void) {
    if (OP("sort")) { long n; cells = a_i(1); style = a_i(2); ord = a_i(3); long *v = a_l(4, &n);
        unsigned char *b = malloc(n * cells ? n * cells : 1); lo = b; hi = b + n * cells;
        for (long i = 0; i < n; ++i) put(b + i * cells, v[i], i + 1);
        int r = bfdev_sort(b, n, cells, cmp, &style);
        struct pr *p = malloc((n + 1) * sizeof *p); int ok = 1;
        o_raw("["); o_i(r); o_open(); for (long i = 0; i < n; ++i) { o_i(W(b[i * cells])); ok &= okel(b + i * cells); } o_close();
        for (long i = 0; i < n; ++i) { p[i].k = b[i * cells]; p[i].t = tag(b + i * cells); if (cells == 1) p[i].t = 0; }
        if (cells == 1) { /* no room for a tag: give equal keys their input tags in order */
            for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) if (v[j] == p[i].k) { p[i].t = j + 1; v[j] = -1; break; } } }
        qsort(p, n, sizeof *p, pc);
        o_open(); for (long i = 0; i < n; ++i) { o_open(); o_i(ok ? p[i].k : -999); o_i(p[i].t); o_close(); } o_close(); o_raw("]");
        free(p); free(b); }
    else if (OP("lsort")) { long n; style = a_i(1); ord = a_i(2); long *v = a_l(3, &n); bfdev_list_head_t head = BFDEV_LIST_HEAD_INIT(&head), *p;
        struct el *e = malloc((n + 1) * sizeof *e); for (long i = 0; i < n; ++i) { e[i].k = v[i]; e[i].t = i + 1; bfdev_list_add_prev(&head, &e[i].l); }
        bfdev_list_sort(&head, lcmp, &style);
        long c = 0; o_raw("["); o_open(); for (p = head.next; p != &head && c++ <= n; p = p->next) o_i(bfdev_list_entry(p, struct el, l)->t); o_close();
        c = 0; o_open(); for (p = head.prev; p != &head && c++ <= n; p = p->prev) o_i(bfdev_list_entry(p, struct el, l)->t); o_close(); o_raw("]"); free(e); }
    else if (OP("bsearch")) { long n; cells = a_i(1); style = a_i(2); ord = a_i(3); long *v = a_l(4, &n); want = a_i(5);
        unsigned char *b = malloc(n * cells ? n * cells : 1); lo = b; hi = b + n * cells; if (!n) { free(b); b = lo = hi = malloc(1); }
        for (long i = 0; i < n; ++i) put(b + i * cells, v[i], i + 1);
        unsigned char *r = bfdev_bsearch(b, n, cells, find, &want), *r2 = bfdev_bsearch_inline(b, n, cells, find, &want);
        o_i(r != r2 ? -2 : !r ? -1 : r < lo || r >= hi || (size_t)(r - lo) % cells ? -3 : (long)((r - lo) / cells)); free(b); }
    else bad("op");
}
