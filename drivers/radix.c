#define DRV_ALLOC
#include "drv.h"
#include <bfdev/radix.h>
#define SIZES X(0, 1) X(1, 2) X(2, 3) X(3, 4) X(4, 8) X(5, 12) X(6, 48) X(7, 100) X(8, 200) X(9, 256)
#define X(s, n) typedef struct { uint8_t b[n]; } t##s; static BFDEV_DECLARE_RADIX(r##s, t##s);
SIZES
#undef X
static int sel, flip; static long cell[] = { 1, 2, 3, 4, 8, 12, 48, 100, 200, 256 };
static void drv_reset(void) { al_reset(); flip = 0; }
/* every byte of a cell carries its value, so overlapping cells show */
static long rd(void *p) { uint8_t *b = p; if (!p) return -1; for (long i = 1; i < cell[sel]; ++i) if (b[i] != b[0]) return 1000 + i; return b[0]; }
static void wr(void *p, long v) { memset(p, v, cell[sel]); }
#define X(s, n) static void *find##s(uint64_t i) { return bfdev_radix_find(&r##s, i); } \
    static void *alloc##s(uint64_t i) { return bfdev_radix_alloc(&r##s, i); } \
    static long free##s(uint64_t i) { return bfdev_radix_free(&r##s, i); } \
    static long charge##s(uint64_t i, uint64_t z) { return bfdev_radix_charge(&r##s, i, z); } \
    static void *first##s(uint64_t *i) { return bfdev_radix_first(&r##s, i); } \
    static void *last##s(uint64_t *i) { return bfdev_radix_last(&r##s, i); } \
    static void *next##s(uint64_t *i) { return bfdev_radix_next(&r##s, i); } \
    static void *prev##s(uint64_t *i) { return bfdev_radix_prev(&r##s, i); } \
    static void release##s(void) { bfdev_radix_release(&r##s); } \
    static void init##s(void) { r##s = BFDEV_RADIX_INIT(&r##s, &al_test); } \
    static void dump##s(uint64_t x) { t##s *v, *tv; uint64_t i, ti; \
        if (flip) { LOOP(bfdev_radix_for_each(v, &r##s, &i)); LOOP(bfdev_radix_for_each_reverse(v, &r##s, &i)); } \
        else { LOOP(bfdev_radix_for_each_safe(v, &r##s, &i, tv, &ti)); LOOP(bfdev_radix_for_each_reverse_safe(v, &r##s, &i, tv, &ti)); } \
        if (!find##s(x)) { for (int k = 0; k < 4; ++k) { o_open(); o_close(); } return; } \
        AT(s); \
        if (flip) { LOOP(bfdev_radix_for_each_form(v, &r##s, &i)); AT(s); LOOP(bfdev_radix_for_each_reverse_form(v, &r##s, &i)); AT(s); \
            LOOP(bfdev_radix_for_each_continue(v, &r##s, &i)); AT(s); LOOP(bfdev_radix_for_each_reverse_continue(v, &r##s, &i)); } \
        else { tv = next##s(&ti); LOOP(bfdev_radix_for_each_form_safe(v, &r##s, &i, tv, &ti)); AT(s); \
            tv = prev##s(&ti); LOOP(bfdev_radix_for_each_reverse_form_safe(v, &r##s, &i, tv, &ti)); AT(s); \
            tv = next##s(&ti); LOOP(bfdev_radix_for_each_continue_safe(v, &r##s, &i, tv, &ti)); AT(s); \
            tv = prev##s(&ti); LOOP(bfdev_radix_for_each_reverse_continue_safe(v, &r##s, &i, tv, &ti)); } } \
    static void drain##s(int rev) { t##s *v, *tv; uint64_t i, ti; \
        if (rev) LOOPF(s, bfdev_radix_for_each_reverse_safe(v, &r##s, &i, tv, &ti)); else LOOPF(s, bfdev_radix_for_each_safe(v, &r##s, &i, tv, &ti)); }
#define CAP 3000
#define LOOP(m) do { long c = 0; o_open(); m { if (++c > CAP) break; o_open(); o_u64(i); o_i(rd(v)); o_close(); } o_close(); } while (0)
#define LOOPF(s, m) do { long c = 0; o_open(); m { if (++c > CAP) break; o_open(); o_u64(i); o_i(rd(v)); o_close(); free##s(i); } o_close(); } while (0)
#define AT(s) (i = x, ti = x, v = find##s(x))
SIZES
#undef X
#define X(s, n) { find##s, alloc##s, free##s, charge##s, first##s, last##s, next##s, prev##s, release##s, init##s, dump##s, drain##s },
static struct { void *(*find)(uint64_t), *(*alloc)(uint64_t); long (*free)(uint64_t), (*charge)(uint64_t, uint64_t);
    void *(*first)(uint64_t *), *(*last)(uint64_t *), *(*next)(uint64_t *), *(*prev)(uint64_t *), (*release)(void), (*init)(void), (*dump)(uint64_t), (*drain)(int); } V[] = { SIZES };
#define T (V[sel])
static void drv_cmd(void) {
    void *p; uint64_t i;
    if (OP("new")) { sel = a_i(1); T.init(); o_i(0); }
    else if (OP("alloc")) { i = a_u64(1); p = T.find(i); long old = rd(p); al_arm(a_i(3), 0); p = T.alloc(i); long f = al_disarm();
        if (p) { if (old >= 0) old = rd(p); wr(p, a_i(2)); }
        o_open(); o_i(!!p); o_i(old); o_i(f); o_close(); }
    else if (OP("find")) o_i(rd(T.find(a_u64(1))));
    else if (OP("free")) o_i(T.free(a_u64(1)));
    else if (OP("charge")) { /* give newly charged cells the value 0 */
        i = a_u64(1); uint64_t z = a_u64(2); long num = 256 / cell[sel]; uint64_t k, n = 0; char had[4096];
        for (k = 0; k < z && n < 4096; k += num) had[n++] = !!T.find(i + k);
        al_arm(a_i(3), 0); long r = T.charge(i, z), f = al_disarm();
        for (k = 0, n = 0; r != -75 && k < z && n < 4096; k += num, ++n) if (!had[n] && (p = T.find(i + k))) wr(p, 0);
        o_open(); o_i(r); o_i(f); o_close(); }
    else if (OP("first") || OP("last") || OP("next") || OP("prev")) { i = 0; if (argc_ > 1) i = a_u64(1);
        p = OP("first") ? T.first(&i) : OP("last") ? T.last(&i) : OP("next") ? T.next(&i) : T.prev(&i);
        o_open(); o_i(!!p); o_u64(p ? i : 0); o_i(rd(p)); o_close(); }
    else if (OP("dump")) { flip ^= 1; o_raw("["); T.dump(a_u64(1)); o_raw("]"); }
    else if (OP("drain")) T.drain(a_i(1));
    else if (OP("release")) { T.release(); o_i(al_live); }
    else bad("op");
}
