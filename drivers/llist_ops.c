/* compiled with the access hooks: the inline parts of the lock-free list */
#include <bfdev/llist.h>
int ops_add(bfdev_slist_head_t *h, bfdev_slist_head_t *n) { return bfdev_llist_add(h, n); }
int ops_split(bfdev_slist_head_t *h, bfdev_slist_head_t *n, bfdev_slist_head_t *e) { return bfdev_llist_split(h, n, e); }
bfdev_slist_head_t *ops_del(bfdev_slist_head_t *h) { return bfdev_llist_del(h); }
bfdev_slist_head_t *ops_destroy(bfdev_slist_head_t *h) { return bfdev_llist_destroy(h); }
