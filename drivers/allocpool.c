#include "drv.h"
#include <bfdev/allocpool.h>
#define NB 1024
static void *arena; static bfdev_allocpool_t P; static char *B; static size_t Z; static int flip;
static struct { unsigned char *p; size_t n; } b[NB];
static void drv_reset(void) { free(arena); arena = NULL; memset(b, 0, sizeof(b)); flip = 0; }
static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 1); }
static void drv_cmd(void) {
    int id = argc_ > 1 ? a_i(1) : 0;
    if (OP("new")) { Z = a_i(2); /* the pool ends at the end of the allocation, so the sanitizer guards it */
        if (posix_memalign(&arena, 4096, a_i(1) + Z + !(a_i(1) + Z))) bad("mem"); B = (char *)arena + a_i(1);
        if (flip ^= 1) { memset(&P, 0x5a, sizeof(P)); bfdev_allocpool_init(&P, B, Z); } else { BFDEV_DEFINE_ALLOCPOOL(q, B, Z); P = q; } o_i(0); }
    else if (OP("alloc")) { size_t n = a_u64(2); unsigned char *p = bfdev_allocpool_alloc(&P, n, a_i(3));
        if (p) { if (n <= Z) { b[id].p = p; b[id].n = n; for (size_t i = 0; i < n; ++i) p[i] = pat(id, i); } }
        for (int k = 0; k < NB; ++k) if (b[k].p) for (size_t i = 0; i < b[k].n; ++i) if (b[k].p[i] != pat(k, i)) { o_i(-100 - k); return; }
        o_i(p ? (char *)p - B : -1); }
    else if (OP("free")) { if (!b[id].p) { o_i(-1); return; } bfdev_allocpool_free(&P, b[id].p); b[id].p = NULL; o_i(P.count); }
    else if (OP("reset")) { bfdev_allocpool_reset(&P); memset(b, 0, sizeof(b)); o_i(P.count); }
    else bad("op");
}
