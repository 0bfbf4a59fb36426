#include "drv.h"
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <bfdev/arc4.h>
static bfdev_md5_ctx_t c5; static bfdev_sha1_ctx_t c1; static bfdev_sha2_ctx_t c2; static bfdev_arc4_ctx_t c4; static int alg;
static void drv_reset(void) { memset(&c5, 0xa5, sizeof(c5)); memset(&c1, 0x5a, sizeof(c1)); memset(&c2, 0xa5, sizeof(c2)); memset(&c4, 0x5a, sizeof(c4)); alg = 0; }
static void drv_cmd(void) {
    long n; unsigned char h[40];
    if (OP("init")) {
        const char *s = a_s(1);
        if (!strcmp(s, "md5")) alg = 0, bfdev_md5_init(&c5); else if (!strcmp(s, "sha1")) alg = 1, bfdev_sha1_init(&c1);
        else if (!strcmp(s, "sha224")) alg = 2, bfdev_sha224_init(&c2); else if (!strcmp(s, "sha256")) alg = 3, bfdev_sha256_init(&c2); else bad("op");
        o_i(0); }
    else if (OP("update")) {
        char *m = (char *)a_b(1, &n), *p; int off = a_i(2); p = malloc(n + off); memcpy(p + off, m, n);
        if (alg == 0) bfdev_md5_update(&c5, p + off, n); else if (alg == 1) bfdev_sha1_update(&c1, p + off, n); else bfdev_sha2_update(&c2, p + off, n);
        memset(p, 0xee, n + off); free(p); free(m); o_i(0); }
    else if (OP("finish")) {
        static const int len[] = {16, 20, 28, 32}; unsigned char *d = malloc(len[alg] + 1); (void)h;
        unsigned char *e = d + 1;           /* unaligned, and its end guarded */
        if (alg == 0) bfdev_md5_finish(&c5, e); else if (alg == 1) bfdev_sha1_finish(&c1, e); else if (alg == 2) bfdev_sha224_finish(&c2, e); else bfdev_sha256_finish(&c2, e);
        o_bytes(e, len[alg]); free(d); }
    else if (OP("setkey")) { unsigned char *k = (unsigned char *)a_b(1, &n); bfdev_arc4_setkey(&c4, k, n); memset(k, 0xee, n); free(k); o_i(0); }
    else if (OP("trans")) {
        unsigned char *m = (unsigned char *)a_b(1, &n), *b = a_i(2) ? m : malloc(n); bfdev_arc4_trans(&c4, b, m, n);
        o_bytes(b, n); if (b != m) free(b); free(m); }
    else bad("op");
}
