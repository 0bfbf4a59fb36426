#define DRV_ALLOC
#include "drv.h"
#include <bfdev/argv.h>
static void drv_reset(void) { al_reset(); }
static void drv_cmd(void) {
    long n; char *b = a_b(1, &n), *t = malloc(n + 1); memcpy(t, b, n); t[n] = 0; free(b);
    if (OP("count")) o_i(bfdev_argv_count(t));
    else if (OP("split")) {
        unsigned argc = 0xdead, k; char *keep = strdup(t);
        al_arm(a_i(2), 1); char **v = bfdev_argv_split(&al_test, t, a_i(3) ? &argc : NULL); al_disarm();
        if (strcmp(keep, t)) bad("source string changed"); free(keep);
        memset(t, '#', n);                                              /* the words are copies */
        o_open();
        if (v) { for (k = 0; v[k]; ++k); if (a_i(3) && argc > k) bad("count above the words");
            o_i(a_i(3) ? (long)argc : -1); o_open(); for (k = 0; v[k]; ++k) o_bytes(v[k], strlen(v[k])); o_close();
            for (k = 0; v[k]; ++k) memset(v[k], 'x', strlen(v[k])); bfdev_argv_destroy(&al_test, v); }
        o_close(); if (al_live) bad("blocks left allocated");
    } else bad("op");
    free(t);
}
