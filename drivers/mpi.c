#define DRV_ALLOC
#include "drv.h"
#include <bfdev/mpi.h>
#include <bfdev/errno.h>
static bfdev_mpi_t v[5];
static void drv_reset(void) { al_reset(); for (int i = 0; i < 5; ++i) if (i & 1) { BFDEV_DEFINE_MPI(fresh, &al_test); v[i] = fresh; } else bfdev_mpi_init(&v[i], &al_test); }
static BFDEV_MPI_TYPE imm(int k) { long n; unsigned char *b = (unsigned char *)a_b(k, &n); BFDEV_MPI_TYPE x = 0; for (int i = n; i--;) x = x << 8 | b[i]; free(b); return x; }
static void o_num(const bfdev_mpi_t *x) {
    bool plus; const BFDEV_MPI_TYPE *d = bfdev_mpi_data(x, &plus); unsigned long n = bfdev_mpi_length(x);
    if (!n && *d) bad("data of zero"); if (bfdev_mpi_size(x) != n * 8) bad("size");
    unsigned char *b = malloc(8 * n + 1);
    for (unsigned long i = 0; i < 8 * n; ++i) b[i] = d[i / 8] >> (8 * (i % 8));
    o_open(); o_i(plus); o_bytes(b, 8 * n); o_close(); free(b);
}
static void out(int r, int d, int e) {
    al_disarm(); o_open(); o_open(); o_i(r == -BFDEV_ENOMEM ? -1 : r == -BFDEV_EOVERFLOW ? -2 : r); o_close();
    if (!r) { o_open(); o_num(&v[d]); o_close(); if (e) { o_open(); o_num(&v[e]); o_close(); } }
    o_close();
}
static void drv_cmd(void) {
    int i = a_i(1); BFDEV_MPI_TYPE m; static const BFDEV_MPI_TYPE big[] = { 0, 1ul << 40, 1ul << 63, ~0ul };
#define V(k) (&v[a_i(k)])
    if (OP("arm")) { al_arm(i, 1); o_i(0); }
#define BIN(name) else if (OP(#name)) out(bfdev_mpi_##name(V(1), V(2), V(3)), i, 0);
    BIN(add) BIN(sub) BIN(mul) BIN(mod) BIN(and) BIN(or) BIN(xor)
#define IMM(name) else if (OP(#name)) { m = imm(3); out(bfdev_mpi_##name(V(1), V(2), m), i, 0); }
    IMM(addi) IMM(subi) IMM(muli) IMM(modi)
    else if (OP("div")) out(bfdev_mpi_div(V(1), V(2), V(3), V(4)), i, a_i(1) == a_i(2) ? 0 : a_i(2));
    else if (OP("divi")) { m = imm(4); out(bfdev_mpi_divi(V(1), V(2), V(3), m), i, a_i(1) == a_i(2) ? 0 : a_i(2)); }
    else if (OP("shl")) out(bfdev_mpi_shli(V(1), V(2), a_i(3)), i, 0);
    else if (OP("shr")) out(bfdev_mpi_shri(V(1), V(2), a_i(3)), i, 0);
    else if (OP("shrx")) out(bfdev_mpi_shri(V(1), V(2), a_i(3) == 1 ? 1ul << 32 : big[a_i(3)]), i, 0);
    else if (OP("shlx")) { int r = bfdev_mpi_shli(V(1), V(2), big[a_i(3)]); out(r == -BFDEV_EOVERFLOW ? -BFDEV_ENOMEM : r, i, 0); }
    else if (OP("bset")) out(bfdev_mpi_bseti(V(1), a_i(2)), i, 0);
    else if (OP("bclr")) out(bfdev_mpi_bclri(V(1), a_i(2)), i, 0);
    else if (OP("btest")) { o_i(bfdev_mpi_btesti(V(1), a_i(2))); al_disarm(); }
    else if (OP("cmp")) { o_i(bfdev_mpi_cmp(V(1), V(2))); al_disarm(); }
    else if (OP("cmpi")) { m = imm(2); o_i(bfdev_mpi_cmpi(V(1), m)); al_disarm(); }
    else if (OP("seti")) { m = imm(2); out(bfdev_mpi_seti(V(1), m), i, 0); }
    else if (OP("set")) out(bfdev_mpi_set(V(1), V(2)), i, 0);
    else if (OP("import")) { long n; unsigned char *b = (unsigned char *)a_b(3, &n); BFDEV_MPI_TYPE *w = malloc(n); if (n % 8) bad("op");
        for (long j = 0; j < n / 8; ++j) { w[j] = 0; for (int t = 8; t--;) w[j] = w[j] << 8 | b[8 * j + t]; }
        int r = bfdev_mpi_import(V(1), w, n / 8, a_i(2)); free(w); free(b); out(r, i, 0); }
    else if (OP("release")) { bfdev_mpi_release(V(1)); out(0, i, 0); }
    else if (OP("get")) { o_num(V(1)); al_disarm(); }
    else if (OP("live")) { for (int k = 1; k < 5; ++k) bfdev_mpi_release(&v[k]); al_disarm(); o_i(al_live); }
    else bad("op");
}
