#define DRV_ALLOC
#include "drv.h"
#include <bfdev/ctype.h>
#include <bfdev/string.h>
#include <bfdev/errname.h>
#include <bfdev/errptr.h>
#include <bfdev/errno.h>
#include <bfdev/uplower.h>
#define LIST(F, x) (F(isupper, x) << 0 | F(islower, x) << 1 | F(iscntrl, x) << 2 | F(ispunct, x) << 3 | F(isblank, x) << 4 | \
    F(isdigit, x) << 5 | F(isxdigit, x) << 6 | F(isspace, x) << 7 | F(isascii, x) << 8 | F(isalpha, x) << 9 | F(isalnum, x) << 10 | \
    F(isgraph, x) << 11 | F(isprint, x) << 12)
#define MACRO(name, x) (bfdev_##name(x) ? 1 : 0)
#define CONST(name, x) (bfdev_##name##_const(x) ? 1 : 0)
/* the argument is a literal: the constant form is taken when the compiler folds it */
#define K1(n) case n: return LIST(MACRO, n);
#define K8(n) K1(n) K1(n + 1) K1(n + 2) K1(n + 3) K1(n + 4) K1(n + 5) K1(n + 6) K1(n + 7)
#define K64(n) K8(n) K8(n + 8) K8(n + 16) K8(n + 24) K8(n + 32) K8(n + 40) K8(n + 48) K8(n + 56)
__attribute__((noinline, no_sanitize("undefined", "address")))
static int literal(int c) { switch (c) { K64(0) K64(64) } return 0; }
static void flags(int f) { o_open(); for (int k = 0; k < 13; ++k) o_i(f >> k & 1); o_close(); }
static void drv_reset(void) { al_reset(); }
static void drv_cmd(void) {
    size_t n = 0;
    if (OP("class")) {
        volatile int v = a_i(1); int c = v;
        o_open(); flags(LIST(MACRO, v));
        if (c >= 0 && c < 256) flags(LIST(CONST, c)); else { o_open(); o_close(); }
        if (c >= 0 && c < 128) flags(literal(c)); else { o_open(); o_close(); }
        o_open(); o_i(bfdev_toascii(c)); o_i(bfdev_tolower(c)); o_i(bfdev_toupper(c)); o_close(); o_close(); }
    else if (OP("dup") || OP("dupfail")) {
        unsigned char *m = a_b(1, &n); long k = a_i(2); char *src, *d;
        size_t have = k < 0 || (size_t)k > n ? n + 1 : (size_t)k;       /* what the function may read */
        src = malloc(have ? have : 1); if (!have) src = realloc(src, 1), src[0] = 'x';
        memcpy(src, m, have < n ? have : n); if (have > n) src[n] = 0;
        int fail = OP("dupfail"); if (fail) al_arm(1, 1);
        d = k == -1 ? bfdev_strdup(&al_test, src) : bfdev_strndup(&al_test, src, k == -2 ? (size_t)-1 : (size_t)k);
        if (fail) al_disarm();
        if (al_live != !!d) bad("block count");
        o_open(); o_i(!!d); o_bytes(d, d ? strlen(d) : 0); o_close();
        if (d) bfdev_free(&al_test, d);
        free(src); free(m); }
    else if (OP("dupnull")) {
        long k = a_i(1); char *d = k == -1 ? bfdev_strdup(&al_test, NULL) : bfdev_strndup(&al_test, NULL, (size_t)k);
        if (al_live) bad("block count");
        o_open(); o_i(!!d); o_open(); o_close(); o_close(); }
    else if (OP("strdiff")) {
        unsigned char *m = a_b(1, &n); char *z = malloc(n + 1), *r; memcpy(z, m, n); z[n] = 0;
        r = bfdev_strdiff(z, a_i(2)); o_i(r ? r - z : -1); free(z); free(m); }
    else if (OP("memdiff")) {
        unsigned char *m = a_b(1, &n); size_t k = a_i(2); if (k > n) k = n;
        char *z = malloc(k ? k : 1), *r; if (!k) z = realloc(z, 1); memcpy(z, m, k);
        r = bfdev_memdiff(z, a_i(3), k); o_i(r ? r - z : -1); free(z); free(m); }
    else if (OP("err")) {
        int e = (int)a_u64(1); const char *info = "", *nm = bfdev_errname(e, &info), *nm2 = bfdev_errname(e, NULL);
        bfdev_errname_t *f = bfdev_errname_find(e);
        if (nm != nm2 || !!f != !!nm || (f && (strcmp(f->info, info)))) bad("two answers for one code");
        o_open(); o_i(f ? f->errnum : -1); o_s(nm ? nm : ""); o_s(nm ? info : ""); o_close(); }
    else if (OP("ptr")) {
        void *p = (void *)(uintptr_t)a_u64(1); int e = BFDEV_IS_ERR(p), i = BFDEV_IS_INVAL(p);
        o_open(); o_i(e); o_i(i); o_u32(e || !p ? BFDEV_PTR_ERR(p) : 0); o_u32(BFDEV_PTR_ERR_ZERO(p));
        o_u32(e || !p ? BFDEV_PTR_INVAL(p) : 0); o_u32(BFDEV_PTR_INVAL_ZERO(p)); o_close(); }
    else if (OP("eptr")) {
        int e = (int)a_u64(1); void *p = BFDEV_ERR_PTR(e);
        o_open(); o_u64((uintptr_t)p); o_u32(BFDEV_PTR_ERR(p)); o_close(); }
    else if (OP("halves")) {
        uint64_t v = a_u64(1); uint32_t w = (uint32_t)v;
        o_open(); o_u32(bfdev_upper_32_bits(v)); o_u32(bfdev_lower_32_bits(v)); o_i(bfdev_upper_16_bits(w)); o_i(bfdev_lower_16_bits(w)); o_close(); }
    else bad("op");
}
