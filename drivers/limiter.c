#include "drv.h"
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
#define U ((int64_t)105 << 33)
static bfdev_ratelimit_t rl; static bfdev_tokenbucket_t tb; static int bucket; static int flip;
static void drv_reset(void) { flip = 0; }
static int64_t tm(int k) { long n, *v = a_l(k, &n); if (n != 2) bad("op"); if (v[0] == -1) return INT64_MAX; return v[0] * U + v[1]; }
static void drv_cmd(void) {
    long r = 0;
    if (OP("rate")) { bucket = 0; memset(&rl, 0xa5, sizeof rl); if (flip++ & 1) rl = BFDEV_RATELIMIT_INIT(tm(1), (unsigned)a_i(2)); else bfdev_ratelimit_init(&rl, tm(1), (unsigned)a_i(2)); }
    else if (OP("bucket")) { bucket = 1; memset(&tb, 0xa5, sizeof tb); if (flip++ & 1) { BFDEV_DEFINE_TOKENBUCKET(fresh, a_i(1), (unsigned)a_i(2)); tb = fresh; } else bfdev_tokenbucket_init(&tb, a_i(1), (unsigned)a_i(2)); }
    else if (OP("call")) r = bucket ? bfdev_tokenbucket(&tb, tm(1)) : bfdev_ratelimit(&rl, tm(1));
    else if (OP("reset")) { if (bucket) bfdev_tokenbucket_reset(&tb); else bfdev_ratelimit_reset(&rl); }
    else if (OP("skip")) bfdev_tokenbucket_update(&tb, tm(1));
    else bad("op");
    o_open(); o_i(r); o_i(bucket ? tb.passed : rl.passed); o_i(bucket ? tb.missed : rl.missed); o_close();
}
