#define DRV_ALLOC
#include "drv.h"
#include <bfdev/bloom.h>
#include <bfdev/hashtbl.h>
#include <bfdev/bitops.h>
static bfdev_bloom_t *b; static int hsel; static unsigned int fn;
static void drv_reset(void) { al_reset(); b = NULL; }
static unsigned int hv(unsigned int f, const void *key, void *pdata) { unsigned int k = *(const int *)key; if (pdata != &hsel || f >= fn) bad("hash");
    switch (hsel) { case 0: return k; case 1: return 0; case 2: return ~0u - k * (f + 1); case 3: return k * 2654435761u ^ f * 0x9e3779b9u; default: return (k + 1) << (f * 5 % 32); } }
static void drv_cmd(void) {
    int k = 0; if (argc_ > 1) k = a_i(1);
    if (OP("new")) { fn = a_i(2); hsel = a_i(3); al_arm(a_i(4), 0); b = bfdev_bloom_create(&al_test, a_u64(1), hv, fn, &hsel); al_disarm(); o_i(!!b); if (!b && al_live) bad("leak"); }
    else if (OP("push") || OP("peek")) { bool r = OP("push") ? bfdev_bloom_push(b, &k) : bfdev_bloom_peek(b, &k);
        o_open(); o_i(r); for (unsigned f = 0; f < fn; ++f) o_i(bfdev_hashtbl_index(b->capacity, hv(f, &k, &hsel))); o_close(); }
    else if (OP("flush")) { bfdev_bloom_flush(b); o_i(0); }
    else if (OP("bits")) { o_open(); for (unsigned i = 0; i < b->capacity; ++i) if (bfdev_bit_test(b->bitmap, i)) o_i(i); o_close(); }
    else if (OP("destroy")) { bfdev_bloom_destroy(b); b = NULL; o_i(al_live); }
    else bad("op");
}
