/* Registers of NW 64-bit words, handed to the library as heap arrays of exactly the words a length needs. */
#define inline inline __attribute__((always_inline))
#include <bfdev/bitwalk.h>
#include <bfdev/bitmap.h>
#undef inline
#define AI static inline __attribute__((always_inline))
#ifndef NW
# define NW 5
#endif
static unsigned long reg[5][NW];
static unsigned long *cur[5]; static unsigned curw;
/* hand out registers with w words; the same register is the same array */
static void take(unsigned w) { if (w > NW) bad("words"); curw = w; for (int i = 1; i <= 4; ++i) { cur[i] = malloc(w * 8 + !w); memcpy(cur[i], reg[i], w * 8); } }
static void give(int d) { for (int i = 1; i <= 4; ++i) {
        if (i == d) memcpy(reg[i], cur[i], curw * 8); else if (memcmp(reg[i], cur[i], curw * 8)) bad("source changed");
        free(cur[i]); } }
static void o_reg(int d) { o_open(); for (int i = 0; i < NW * 64; ++i) if (reg[d][i / 64] >> (i % 64) & 1) o_i(i); o_close(); }
static void load(int d, int k) { long n, *v = a_l(k, &n); memset(reg[d], 0, sizeof reg[d]); for (long j = 0; j < n; ++j) reg[d][v[j] / 64] |= 1ul << (v[j] % 64); }
#define LENS(X) X(0) X(1) X(2) X(7) X(8) X(9) X(16) X(31) X(32) X(33) X(63) X(64) X(65) X(72) X(96) X(127) X(128) X(129) X(192) X(200) X(256) X(320)
