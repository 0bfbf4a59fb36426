#include "drv.h"
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>
static void drv_reset(void) { }
static void drv_cmd(void) {
    int w = a_i(1); long n = 0;
    if (OP("enc")) {
        unsigned char *m = (unsigned char *)a_b(2, &n);
        size_t len = w == 85 ? bfdev_ascii85_encode_length(n) : w == 6 ? bfdev_base64_encode_length(n) : bfdev_base32_encode_length(n);
        unsigned char *t = malloc(len); memset(t, 0xa5, len);
        if (w == 85) bfdev_ascii85_encode(t, m, &len, n);
        else if (w == 6) bfdev_base64_encode(t, m, n); else bfdev_base32_encode(t, m, n);
        o_bytes(t, len); free(t); free(m); }
    else if (OP("dec")) {
        unsigned char *t = (unsigned char *)a_b(2, &n), *e = memchr(t, '=', n);
        size_t body = e ? (size_t)(e - t) : (size_t)n, z = 0, cap, len; int r;
        for (long i = 0; i < n; ++i) z += t[i] == 'z';
        cap = w == 85 ? bfdev_ascii85_decode_length(n - z) + 4 * z : w == 6 ? bfdev_base64_decode_length(n) : bfdev_base32_decode_length(n);
        unsigned char *m = malloc(cap); memset(m, 0x5a, cap); len = 0;
        if (w == 85) r = bfdev_ascii85_decode(m, t, &len, n);
        else { r = w == 6 ? bfdev_base64_decode(m, t, n) : bfdev_base32_decode(m, t, n); len = body * w / 8; }
        if (r > 0 || (!r && len > cap)) bad("decode result");
        o_open(); o_i(r ? -1 : 0); o_bytes(m, r ? 0 : len); o_close(); free(m); free(t); }
    else if (OP("fits")) {        /* is the advertised buffer enough for this (valid) Ascii85 text? */
        unsigned char *t = (unsigned char *)a_b(2, &n), *m = malloc(4 * n + 4); size_t len;
        o_i(bfdev_ascii85_decode(m, t, &len, n) || len <= bfdev_ascii85_decode_length(n)); free(m); free(t); }
    else if (OP("lens")) { size_t k = a_i(2);
        o_open();
        o_i(w == 85 ? bfdev_ascii85_encode_length(k) : w == 6 ? bfdev_base64_encode_length(k) : bfdev_base32_encode_length(k));
        o_i(w == 85 ? bfdev_ascii85_decode_length(k) : w == 6 ? bfdev_base64_decode_length(k) : bfdev_base32_decode_length(k));
        o_close(); }
    else bad("op");
}
