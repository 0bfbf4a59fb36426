#include "drv.h"
#include <bfdev/respool.h>
#define MAXID 8192
struct res { int id, key; bfdev_respool_node_t node; };
static struct res *own[MAXID]; static bfdev_respool_t pool1, *pool; static int rel[MAXID], nrel, tag; static void *want;
BFDEV_DEFINE_RESPOOL(pool0);
static void drv_reset(void) { for (int i = 0; i < MAXID; ++i) { free(own[i]); own[i] = NULL; } bfdev_respool_init(&pool0); pool = NULL; }
static long on_find(bfdev_respool_node_t *n, void *p) { if (!p || *(int *)p < 0) bad("find data"); return mag(bfdev_container_of(n, struct res, node)->key - *(int *)p); }
static void on_release(bfdev_respool_node_t *n, void *p) {
    struct res *r = bfdev_container_of(n, struct res, node);
    if (p != want || nrel >= MAXID || own[r->id] != r) bad("release"); rel[nrel++] = r->id; own[r->id] = NULL; free(r);
}
static int id_of(bfdev_respool_node_t *n) { return n ? bfdev_container_of(n, struct res, node)->id : 0; }
static void drv_cmd(void) {
    int r = 0, a = argc_ > 1 ? a_i(1) : 0; nrel = 0; want = OP("find_release") ? (void *)&a : &tag;
    if (OP("new")) { if (a == 0) pool = &pool0; else { pool = &pool1; if (a == 1) bfdev_respool_init(pool); else *pool = BFDEV_RESPOOL_INIT(pool); } }
    else if (OP("insert")) { struct res *x = malloc(sizeof *x); memset(x, 0xa5, sizeof *x); x->id = a; x->key = a_i(2); x->node.release = on_release; own[a] = x; bfdev_respool_insert(pool, &x->node); r = a; }
    else if (OP("remove")) { struct res *x = own[a]; bfdev_respool_remove(pool, &x->node); own[a] = NULL; free(x); r = a; }
    else if (OP("release")) { bfdev_respool_release(pool, &own[a]->node, &tag); r = a; }
    else if (OP("find")) r = id_of(bfdev_respool_find(pool, on_find, &a));
    else if (OP("find_remove")) { bfdev_respool_node_t *n = bfdev_respool_find_remove(pool, on_find, &a); r = id_of(n); if (n) { free(own[r]); own[r] = NULL; } }
    /* the answer of find_release names a resource its callback may have freed: only its address is meaningful */
    else if (OP("find_release")) { bfdev_respool_node_t *w[MAXID]; for (int i = 0; i < MAXID; ++i) w[i] = own[i] ? &own[i]->node : NULL;
        bfdev_respool_node_t *n = bfdev_respool_find_release(pool, on_find, &a); if (n) { r = -1; for (int i = 0; i < MAXID; ++i) if (w[i] == n) r = i; } }
    else if (OP("release_all")) bfdev_respool_release_all(pool, &tag);
    else bad("op");
    o_open(); o_i(r); o_open(); for (int i = 0; i < nrel; ++i) o_i(rel[i]); o_close(); o_i(bfdev_respool_check_empty(pool)); o_close();
}
