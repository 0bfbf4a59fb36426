#include "drv.h"
#include <bfdev/crc.h>
static const char *names[] = {"crc4", "crc7", "crc8", "crc16", "ccitt", "itut", "t10dif", "crc32", "crc64", "rocksoft"};
static const int width[] = {8, 8, 8, 16, 16, 16, 16, 32, 64, 64};
static int v; static uint64_t c;
static void drv_reset(void) { v = 0; c = 0; }
static void out(void) {
    if (width[v] < 64 && c >> width[v]) bad("register beyond its width");
    o_open(); if (width[v] < 16) o_i(c); else for (int i = 0; i < width[v]; i += 16) o_i((c >> i) & 0xffff); o_close();
}
static void drv_cmd(void) {
    long n = 0;
    if (OP("start")) {
        for (v = 0; v < 10 && strcmp(names[v], a_s(1)); ++v); if (v == 10) bad("op");
        long *l = a_l(2, &n); c = 0; for (long i = n; i--;) c = c << 16 | l[i]; out(); }
    else if (OP("feed")) {
        int off = a_i(1); unsigned char *m = (unsigned char *)a_b(2, &n), *p; size_t bits = a_i(3);
        p = malloc(off + n); memcpy(p + off, m, n);      /* exact end: ASAN sees any over-read */
        const void *d = p + off;
        switch (v) {
        case 0: c = bfdev_crc4(d, bits, c); break; case 1: c = bfdev_crc7(d, n, c); break; case 2: c = bfdev_crc8(d, n, c); break;
        case 3: c = bfdev_crc16(d, n, c); break; case 4: c = bfdev_crc_ccitt(d, n, c); break; case 5: c = bfdev_crc_itut(d, n, c); break;
        case 6: c = bfdev_crc_t10dif(d, n, c); break; case 7: c = bfdev_crc32(d, n, c); break; case 8: c = bfdev_crc64(d, n, c); break;
        default: c = bfdev_crc_rocksoft(d, n, c); }
        free(p); free(m); out(); }
    else bad("op");
}
