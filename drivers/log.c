#include "drv.h"
#include <locale.h>
#include <wchar.h>
#include <bfdev/log.h>
#include <bfdev/scnprintf.h>
static bfdev_log_t own, *G[3] = {0, &bfdev_log_default, &own};
static int seen_level; static char *seen; static size_t seen_len; static long ncall; static int ret_of[3], cookie[3];
static int writer(bfdev_log_message_t *m, void *p) {
    int i = (int *)p - cookie; if (i < 1 || i > 2) bad("output called with another cookie");
    ncall++; seen_level = m->level; seen_len = m->length; seen = malloc(m->length + 1); memcpy(seen, m->buff, m->length);
    if (m->buff[m->length]) bad("message is not terminated"); return ret_of[i];
}
static void drv_reset(void) {
    bfdev_log_init(&bfdev_log_default, BFDEV_LEVEL_DEFAULT, BFDEV_LEVEL_DEFAULT, BFDEV_LOG_COLOR | BFDEV_LOG_LEVEL, NULL, NULL);
    own = bfdev_log_default;
}
static char *outb, *errb; static size_t outn, errn; static FILE *so, *se;
static void cap(void) { fflush(stdout); so = stdout; se = stderr; outb = errb = NULL; stdout = open_memstream(&outb, &outn); stderr = open_memstream(&errb, &errn); ncall = 0; seen = NULL; seen_len = 0; seen_level = -1; }
static void uncap(int i, int r) {
    fclose(stdout); fclose(stderr); stdout = so; stderr = se;
    if (ncall > 1) bad("output called more than once");
    if (i && !G[i]->write) r = r < 0 ? r : 0;
    o_open(); o_i(r); o_i(seen_level); o_bytes((unsigned char *)(seen ? seen : ""), seen_len); o_bytes((unsigned char *)outb, outn); o_bytes((unsigned char *)errb, errn); o_close();
    free(seen); free(outb); free(errb);
}
static bfdev_log_t *conf(int i) { return i == 1 ? NULL : G[i]; }
#define FL(N) if (!strcmp(s, "set")) { bfdev_log_##N##_set(g); r = 0; } else if (!strcmp(s, "clr")) { bfdev_log_##N##_clr(g); r = 0; } \
    else if (!strcmp(s, "flip")) { bfdev_log_##N##_flip(g); r = 0; } else if (!strcmp(s, "test")) r = bfdev_log_##N##_test(g); \
    else if (!strcmp(s, "test_set")) r = bfdev_log_##N##_test_set(g); else if (!strcmp(s, "test_clr")) r = bfdev_log_##N##_test_clr(g); \
    else if (!strcmp(s, "test_flip")) r = bfdev_log_##N##_test_flip(g); else bad("op")
static char *cstr(int k, const char *more) { long n; unsigned char *b = (unsigned char *)a_b(k, &n); char *s = malloc(n + strlen(more) + 1); memcpy(s, b, n); strcpy(s + n, more); free(b); return s; }
#define bfdev_log_conf conf(i)
#undef bfdev_log_fmt
#define bfdev_log_fmt(f) "M: " f
#pragma GCC diagnostic ignored "-Wformat"
#pragma GCC diagnostic ignored "-Wformat-security"
static int say(int i, const char *f, ...) {
    static unsigned turn; va_list ap; int r; va_start(ap, f);
    if (++turn % 2) r = bfdev_vlog(f, ap);
    else { char *t = NULL; int q = vasprintf(&t, f, ap); if (q < 0 || strlen(t) > 300 || strchr(t, '%')) { va_end(ap); va_start(ap, f); r = bfdev_vlog_core(conf(i), f, ap); } else r = bfdev_log_core(conf(i), t); if (q >= 0) free(t); }
    va_end(ap); return r;
}
static int vscn(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = bfdev_vscnprintf(b, n, f, ap); va_end(ap); return r; }
static void drv_cmd(void) {
    int i, r = 0;
    if (OP("init")) { i = a_i(1); int o = a_i(5); ret_of[i] = o - 10; unsigned f = a_i(4);
        unsigned fl = (f & 1 ? BFDEV_LOG_COLOR : 0) | (f & 2 ? BFDEV_LOG_LEVEL : 0);
        BFDEV_DEFINE_LOG(fresh, a_i(2), a_i(3), fl, o ? writer : NULL, o ? &cookie[i] : NULL); static int flip;
        if (flip ^= 1) *G[i] = fresh; else { memset(G[i], 0xa5, sizeof fresh); bfdev_log_init(G[i], a_i(2), a_i(3), fl, o ? writer : NULL, o ? &cookie[i] : NULL); } o_i(0); }
    else if (OP("flag")) { bfdev_log_t *g = G[a_i(1)]; const char *s = a_s(3); if (a_i(2)) { FL(level); } else { FL(color); } o_i(r); }
    else if (OP("level")) { char *s = cstr(1, ""); const char *e = NULL; r = bfdev_log_level(s, a_i(2) ? NULL : &e); if (!a_i(2) && (e < s || e > s + strlen(s))) bad("end pointer outside the text"); o_open(); o_i(r); o_i(a_i(2) ? -1 : e - s); o_close(); free(s); }
    else if (OP("log")) {
        i = a_i(1); const char *k = a_s(3); int n = a_i(5); char *t, *f;
        if (!strcmp(k, "lit")) { t = cstr(4, ""); f = cstr(2, t); cap(); r = say(i, f); }
        else if (!strcmp(k, "s")) { t = cstr(4, ""); f = cstr(2, "%s"); cap(); r = say(i, f, t); }
        else if (!strcmp(k, "d")) { t = NULL; f = cstr(2, "%d"); cap(); r = say(i, f, n); }
        else if (!strcmp(k, "sd")) { t = cstr(4, ""); f = cstr(2, "[%s:%d]"); cap(); r = say(i, f, t, n); }
        else { t = cstr(4, ""); f = cstr(2, "%s%lc"); cap(); r = say(i, f, t, (wint_t)0xd800); }
        uncap(i, r); free(t); free(f); }
    else if (OP("macro")) {
        i = a_i(1); int lv = a_i(2), n = a_i(4); if (a_i(3) != BFDEV_LOGLEVEL_MAX) bad("op"); cap();
        switch (lv) {
        case 0: r = bfdev_log_emerg("%d", n); break; case 1: r = bfdev_log_alert("%d", n); break; case 2: r = bfdev_log_crit("%d", n); break;
        case 3: r = bfdev_log_err("%d", n); break; case 4: r = bfdev_log_warn("%d", n); break; case 5: r = bfdev_log_notice("%d", n); break;
        case 6: r = bfdev_log_info("%d", n); break; case 7: r = bfdev_log_debug("%d", n); break; default: r = bfdev_log(BFDEV_DEFAULT "M: %d", n); }
        uncap(i, r); }
    else if (OP("scn")) {
        long size = a_i(1); int n = a_i(4); const char *k = a_s(2); char *t = cstr(3, ""), *b = malloc(size); memset(b, 0xa5, size);
        r = !strcmp(k, "d") ? bfdev_scnprintf(b, size, "%d", n) : !strcmp(k, "sd") ? bfdev_scnprintf(b, size, "[%s:%d]", t, n)
            : !strcmp(k, "fail") ? bfdev_scnprintf(b, size, "%s%lc", t, (wint_t)0xd800) : !strcmp(k, "lit") ? bfdev_scnprintf(b, size, t, t) : vscn(b, size, "%s", t);
        if (r < 0 || (size ? r >= size : r)) bad("count beyond the buffer"); if (size && strlen(b) != r) bad("count is not the stored length");
        o_open(); o_i(r); o_bytes((unsigned char *)b, r); o_close(); free(t); free(b); }
    else bad("op");
}
