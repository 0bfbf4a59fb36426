#include "drv.h"
#include <bfdev/memalloc.h>
#include <bfdev/log.h>
#define NB 256
static bfdev_memalloc_head_t h; static char *R; static size_t RZ; static struct { unsigned char *p; size_t n; } b[NB];
static long dead[NB];
static void drv_reset(void) { memset(dead, 0, sizeof dead); free(R); R = NULL; memset(b, 0, sizeof(b)); }
static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 1); }
static void fill(int id, size_t from) { for (size_t i = from; i < b[id].n; ++i) b[id].p[i] = pat(id, i); }
static int intact(void) { for (int k = 0; k < NB; ++k) if (b[k].p) for (size_t i = 0; i < b[k].n; ++i) if (b[k].p[i] != pat(k, i)) return 0; return 1; }
/* the free list holds exactly the free chunks, and both lists link both ways */
static int lists(void) { bfdev_memalloc_chunk_t *c; long f = 0, g = 0, cap = 4000;
    bfdev_list_for_each_entry(c, &h.block_list, block) { if (!(c->usize & 1)) ++f; if (!--cap) return 0; }
    bfdev_list_for_each_entry(c, &h.free_list, free) { if (c->usize & 1) return 0; ++g; if (c->free.next->prev != &c->free || !--cap) return 0; }
    bfdev_list_for_each_entry_reverse(c, &h.free_list, free) { --g; --f; }
    bfdev_list_for_each_entry_reverse(c, &h.block_list, block) if (!(c->usize & 1)) ++f;
    return g == 0 && f >= 0 && f == (long)({ long n = 0; bfdev_list_for_each_entry(c, &h.free_list, free) ++n; n; }); }
static void res(long r) { bfdev_memalloc_chunk_t *c; long cap = 4000; int k;
    o_open(); o_open();
    bfdev_list_for_each_entry(c, &h.block_list, block) { if (!--cap) break; o_open(); o_i((char *)c - R); o_i(c->usize & ~1ul);
        for (k = 1; k < NB && b[k].p != (void *)c->data; ++k); o_i(c->usize & 1 ? (k < NB ? k : -9) : (k < NB ? -8 : 0)); o_close(); }
    o_close(); o_i(r); o_i((RZ & 1) ? (long)(h.avail & ~1ul) : (long)h.avail); o_i(intact()); o_i(lists()); o_close(); }
/* a released block counts as released as long as its old header lies in free memory (offset + 1 kept) */
static void age(void) { for (int k = 1; k < NB; ++k) if (dead[k]) { long d = dead[k] - 1, ok = 0; bfdev_memalloc_chunk_t *c;
    bfdev_list_for_each_entry(c, &h.free_list, free) { long o = (char *)c - R; if (d == o || (d >= o + 40 && d <= o + (long)(c->usize & ~1ul))) ok = 1; }
    if (!ok || b[k].p) dead[k] = 0; } }
static int mute(bfdev_log_message_t *m, void *p) { return 0; }
static void cmd(void);
static void drv_cmd(void) { bfdev_log_default.write = mute; cmd(); age(); }
static void cmd(void) {
    void *p; int id = argc_ > 1 ? a_i(1) : 0;
    if (OP("new")) { RZ = a_i(2); R = malloc(RZ); memset(R, 0xa5, RZ);
        bfdev_memalloc_init(&h, id == 0 ? bfdev_memalloc_first_fit : id == 1 ? bfdev_memalloc_best_fit : bfdev_memalloc_worst_fit, R, RZ); o_i(0); }
    else if (OP("alloc")) { size_t n = a_u64(2); p = bfdev_memalloc_alloc(&h, n); if (p) { b[id].p = p; b[id].n = n; if (n > RZ) b[id].n = 0; fill(id, 0); } res(!!p); }
    else if (OP("free")) { if (!b[id].p) { res(-1); return; } p = b[id].p; memset(p, 0xdd, b[id].n); b[id].p = NULL; dead[id] = (char *)p - R - 40 + 1; bfdev_memalloc_free(&h, p); res(1); }
    else if (OP("refree")) { if (!dead[id]) { res(-1); return; } bfdev_memalloc_free(&h, R + dead[id] - 1 + 40); res(0); }
    else if (OP("rerealloc")) { if (!dead[id]) { res(-1); return; } res(!!bfdev_memalloc_realloc(&h, R + dead[id] - 1 + 40, a_u64(2))); }
    else if (OP("realloc")) { size_t n = a_u64(2); if (!b[id].p) { res(-1); return; } p = bfdev_memalloc_realloc(&h, b[id].p, n);
        if (p) { b[id].p = p; size_t old = b[id].n; if (n > RZ) n = 0; if (n < old) old = n; b[id].n = old; if (!intact()) { res(1); return; } b[id].n = n; fill(id, old); } res(!!p); }
    else if (OP("freeall")) { for (int k = 1; k < NB; ++k) { int j = k * 101 % NB; if (b[j].p) { p = b[j].p; b[j].p = NULL; bfdev_memalloc_free(&h, p); } } memset(dead, 0, sizeof dead); res(1); }
    else bad("op");
}
