From 594ee4e25df14ceba2049b792566dc8619ea45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/70] fix: array: refuse growth requests whose byte size
 overflows

---
 src/array.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..d9ee9ec 100644
--- a/src/array.c
+++ b/src/array.c
@@ -9,16 +9,21 @@
 #include <bfdev/overflow.h>
 #include <export.h>
 
-static inline size_t
-array_reqsize(bfdev_array_t *array, unsigned long count)
+static inline int
+array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
 {
     unsigned long request;
     size_t size;
+    bool overflow;
+
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
+    overflow = bfdev_overflow_check_mul(request, array->cells, &size);
+    if (bfdev_unlikely(overflow || size > BFDEV_LONG_MAX))
+        return -BFDEV_EOVERFLOW;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    *sizep = bfdev_pow2_roundup(size);
 
-    return size;
+    return -BFDEV_ENOERR;
 }
 
 static inline int
@@ -42,12 +47,14 @@ static inline int
 array_apply(bfdev_array_t *array, unsigned long count)
 {
     size_t reqsize;
+    int retval;
 
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
-    reqsize = array_reqsize(array, count);
-    BFDEV_BUG_ON(count * array->cells > reqsize);
+    retval = array_reqsize(array, count, &reqsize);
+    if (bfdev_unlikely(retval))
+        return retval;
 
     return array_resize(array, reqsize);
 }
-- 
2.43.0


From 1b42a7995bf40270117b3c2036597d18b91bafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 02/70] fix: fifo: write record headers at the input index in
 the order they are read

---
 src/fifo.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..9c01b5b 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -80,7 +80,7 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = fifo->in;
     data = fifo->data;
 
     if (fifo->esize != 1) {
@@ -90,9 +90,8 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += fifo->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
-- 
2.43.0


From 2a25f6f5f50f18e43a486d0aa2eb165600ef8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 03/70] fix: ringbuf: drop whole oldest records before writing
 a record and store its header at the input index

---
 src/ringbuf.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..148c6ab 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -80,7 +80,7 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
+    offset = ringbuf->in;
     data = ringbuf->data;
 
     if (ringbuf->esize != 1) {
@@ -90,9 +90,8 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += ringbuf->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
@@ -200,24 +199,21 @@ export unsigned long
 bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned long len,
                         unsigned long record)
 {
-    unsigned long size, offset;
-    unsigned long overflow, datalen;
+    unsigned long size, datalen;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
-
-    offset = ringbuf->in + record;
-    ringbuf->in = offset + len;
+    if (bfdev_unlikely(record > size))
+        return 0;
 
-    overflow = ringbuf_overflow(ringbuf);
-    while (overflow) {
-        datalen = record + ringbuf_record_peek(ringbuf, record);
-        ringbuf->out += datalen;
-        overflow -= bfdev_min(datalen, overflow);
+    bfdev_min_adj(len, size - record);
+    while (ringbuf_valid(ringbuf) + record + len > size) {
+        datalen = ringbuf_record_peek(ringbuf, record);
+        ringbuf->out += datalen + record;
     }
 
     ringbuf_record_poke(ringbuf, len, record);
-    ringbuf_in_copy(ringbuf, buff, len, offset);
+    ringbuf_in_copy(ringbuf, buff, len, ringbuf->in + record);
+    ringbuf->in += len + record;
 
     return len;
 }
-- 
2.43.0


From db88c22a74b40162f8fd12b9a47814b8a22e40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 04/70] fix: circle: BFDEV_CIRCLE_SPACE_END referred to an
 undeclared variable

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..b07b75b 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;             \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From 0069a4f18c1295a4560c2073cab0e7f6221bb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 05/70] fix: hlist: link the back pointers of the inserted node
 in next_add and prev_add

---
 include/bfdev/hlist.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From 5aa031b5f081b2b4a4c33c6373231e51edef4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 06/70] fix: ilist: promote the next equal node when a group
 head is deleted

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From 64125bd6585b7c5807d37a9d0a66e1662670ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 07/70] fix: rbtree: propagate augmented values to the
 ancestors of an inserted node

---
 include/bfdev/rbtree.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..23ac8a6 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -721,7 +721,11 @@ bfdev_rb_insert_augmented(bfdev_rb_root_t *root, bfdev_rb_node_t *node,
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_insert_node_augmented(root, parent, link, node, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(node, parent);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_fixup_augmented(root, node, callbacks);
+
     return true;
 }
 
@@ -982,7 +986,11 @@ bfdev_rb_cached_insert_augmented(bfdev_rb_root_cached_t *cached, bfdev_rb_node_t
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_cached_insert_node_augmented(cached, parent, link, node, leftmost, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(node, parent);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_cached_fixup_augmented(cached, node, leftmost, callbacks);
+
     return true;
 }
 
-- 
2.43.0


From f29ad1baea60a63e1afa13b90e09c625ad4d21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 08/70] fix: rbtree: repair the cached remove_augmented and
 find_last macros

---
 include/bfdev/rbtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index 23ac8a6..e52660d 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From 7c97c5a6a1bf3f0b9c33394c6cb78a29007586df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 09/70] fix: segtree: set the subtree value of a new node
 before rebalancing

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 63365631dd78e125a5e22f957e5c417908a73350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 10/70] fix: heap: find positions by their own depth

---
 src/heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..0f8bf14 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,10 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    if (bfdev_unlikely(!index || index > root->count))
+        return NULL;
+
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From 5c3905e6ab049a3e7735ea1f58b73d89124d8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 11/70] fix: btree: from_safe iterators called an undeclared
 function

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..eb6e3f6 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                         \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                 \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From 62d60595e63b0bbd5ba17ae83fb0dcbe608d709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 12/70] fix: btree: keep odd node splits ordered, bound the
 removal search and last of an empty tree

---
 src/btree.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..a8ca854 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
@@ -508,7 +508,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index == layout->keynum || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
@@ -619,7 +619,10 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (bfdev_unlikely(!last--))
+        return NULL;
+
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From 7707f0c2697a45bb0fa528fa1197209bbbc0c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 13/70] fix: skiplist: raise the current level only after the
 allocation succeeded

---
 src/skiplist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..654732a 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,13 +71,12 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
+    bfdev_max_adj(head->curr, level);
     node->key = key;
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
-- 
2.43.0


From a925d83dcb0a8bd089f35572204701cbd2f3a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 14/70] fix: radix: index of odd-sized cells and the
 continue_safe macro

---
 include/bfdev/radix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 2165537..f62b8f5 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -90,8 +90,8 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
     /* object per block */
     num = BFDEV_RADIX_BLOCK / cells;
-    return (offset / num) / BFDEV_RADIX_BLOCK +
-           (offset % num) / cells;
+    return (offset / BFDEV_RADIX_BLOCK) * num +
+           (offset % BFDEV_RADIX_BLOCK) / cells;
 }
 
 #define bfdev_radix_cast(radix) \
@@ -237,7 +237,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
-         (tval) = bfdev_radix_next(radix, tidx)))
+         ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-- 
2.43.0


From 5163591cfadcc6d7051e1217453358cbeecb83b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 15/70] fix: radix: bound lookups, enumerate across empty
 leaves and drop partial branches on failure

---
 src/radix.c | 146 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 57 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index c29b352..0a06884 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -42,7 +42,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
     BFDEV_BUG_ON(level > RADIX_LEVEL_MAX);
 
     /* Directly check capacity overflow */
-    if (bfdev_ilog2(offset) > radix_depth_shift(level))
+    if (bfdev_ilog2(offset) >= radix_depth_shift(level))
         return false;
 
     node = root->node;
@@ -70,7 +70,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
 export void *
 bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int index;
     bool contain;
@@ -141,6 +141,30 @@ radix_shrink(bfdev_radix_root_t *root)
     }
 }
 
+static bfdev_radix_node_t *
+radix_branch(const bfdev_alloc_t *alloc, uintptr_t offset, unsigned int level)
+{
+    bfdev_radix_node_t *node, *child;
+
+    node = bfdev_zalloc(alloc, sizeof(*node));
+    if (bfdev_unlikely(!node))
+        return NULL;
+
+    if (!level--)
+        return node;
+
+    child = radix_branch(alloc, offset, level);
+    if (bfdev_unlikely(!child)) {
+        bfdev_free(alloc, node);
+        return NULL;
+    }
+
+    node->child[radix_depth_index(level, offset)] = child;
+    node->refcount++;
+
+    return node;
+}
+
 export void *
 bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 {
@@ -160,7 +184,7 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
         offset &= BFDEV_BIT_LOW_MASK(radix_depth_shift(level));
 
         if (!*slot) {
-            newn = bfdev_zalloc(alloc, sizeof(*newn));
+            newn = radix_branch(alloc, offset, level);
             if (bfdev_unlikely(!newn))
                 return NULL;
 
@@ -178,7 +202,7 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
     unsigned int level, index;
@@ -202,6 +226,9 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
         if (level && --node->refcount)
             break;
 
+        if (level == root->level)
+            break;
+
         /* Do not prune the left most branch */
         offset &= BFDEV_BIT_HIGH_MASK(radix_depth_shift(level));
         if (offset < BFDEV_RADIX_BLOCK)
@@ -237,6 +264,8 @@ bfdev_radix_root_charge(bfdev_radix_root_t *root,
         if (!bfdev_radix_root_alloc(root, offset))
             return -BFDEV_ENOMEM;
 
+        if (end - offset <= BFDEV_RADIX_BLOCK)
+            break;
         offset += BFDEV_RADIX_BLOCK;
     }
 
@@ -320,33 +349,64 @@ radix_right_most(bfdev_radix_node_t *node, unsigned int level,
     return node;
 }
 
-export void *
-bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+static void *
+radix_forward(bfdev_radix_root_t *root, struct radix_parent *parents,
+              unsigned int start, uintptr_t *offsetp)
 {
-    unsigned int count, level;
     bfdev_radix_node_t *node;
-    uintptr_t offset;
+    unsigned int count, index, level;
 
-    node = root->node;
-    level = root->level;
+    node = parents[0].node;
+    count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, start);
+    if (count < BFDEV_RADIX_BLOCK)
+        goto finish;
 
-    if (!node)
-        return NULL;
+    for (level = 1; level <= root->level; ++level) {
+        node = parents[level].node;
+        index = parents[level].index;
 
-    offset = 0;
-    node = radix_left_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
+        while (++index < BFDEV_RADIX_ARY) {
+            if (!node->child[index])
+                continue;
+
+            count = radix_depth_shift(level - 1);
+            *offsetp = (*offsetp >> count) & ~(uintptr_t)RADIX_ARY_MASK;
+            *offsetp = (*offsetp | index) << count;
 
+            node = node->child[index];
+            goto downward;
+        }
+    }
+
+    return NULL;
+
+downward:
+    node = radix_left_most(node, level - 1, offsetp);
+    BFDEV_BUG_ON(!node);
     count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
-        return NULL;
 
-    offset |= count;
-    *offsetp = offset;
+finish:
+    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+    *offsetp |= count;
 
     return &node->block[count];
 }
 
+export void *
+bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+{
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
+    bool contain;
+
+    /* The left most leaf is kept even when empty */
+    contain = radix_parent(root, 0, parents);
+    if (bfdev_unlikely(!contain))
+        return NULL;
+
+    *offsetp = 0;
+    return radix_forward(root, parents, 0, offsetp);
+}
+
 export void *
 bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
@@ -377,9 +437,9 @@ bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
-    unsigned int count, index, level;
+    unsigned int index;
     bool contain;
 
     contain = radix_parent(root, *offsetp, parents);
@@ -394,45 +454,13 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
     if (bfdev_unlikely(!contain))
         return NULL;
 
-    count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, index + 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
-
-    for (level = 1; level <= root->level; ++level) {
-        node = parents[level].node;
-        index = parents[level].index;
-
-        while (++index < BFDEV_RADIX_ARY) {
-            if (!node->child[index])
-                continue;
-
-            count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
-        }
-    }
-
-    return NULL;
-
-downward:
-    node = radix_left_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
+    return radix_forward(root, parents, index + 1, offsetp);
 }
 
 export void *
 bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -462,8 +490,8 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
+            *offsetp = (*offsetp >> count) & ~(uintptr_t)RADIX_ARY_MASK;
+            *offsetp = (*offsetp | index) << count;
 
             node = node->child[index];
             goto downward;
@@ -477,6 +505,10 @@ downward:
     BFDEV_BUG_ON(!node);
     count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
 
+    /* The left most leaf is kept even when empty */
+    if (count == BFDEV_RADIX_BLOCK)
+        return NULL;
+
 finish:
     *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
     *offsetp |= count;
-- 
2.43.0


From 0a5dbaa49d393853debaee925bb94ec7d61cabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 16/70] fix: bloom: flush every word of the bitmap and refuse
 an empty one

---
 src/bloom.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..b647adf 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,8 +57,8 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
-    bfport_memset(bloom->bitmap, 0, size);
+    size = BFDEV_BITS_DIV_LONG(bloom->capacity);
+    bfport_memset(bloom->bitmap, 0, sizeof(*bloom->bitmap) * size);
 }
 
 export bfdev_bloom_t *
@@ -69,8 +69,10 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
     size_t size;
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
-    size = BFDEV_BITS_DIV_LONG(capacity);
+    if (bfdev_unlikely(!capacity))
+        return NULL;
 
+    size = BFDEV_BITS_DIV_LONG(capacity);
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
     if (bfdev_unlikely(!bloom))
         return NULL;
-- 
2.43.0


From 4ebe79869d85d4bb2d8e60b7af15a1f0dfc893bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 17/70] fix: cache: reset node references, states and the
 changed counter

---
 src/cache/cache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..67f2b50 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -283,6 +283,7 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
     head->flags = 0;
     head->pending = 0;
     head->used = 0;
+    head->changed = 0;
     head->hits = 0;
     head->misses = 0;
     head->starve = 0;
@@ -296,6 +297,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From 7f12d9208338382c9aac889a927a70da80ad5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 18/70] fix: memalloc: refuse wrapping sizes and resize in
 place whenever there is room

---
 src/memalloc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..6b6fe6f 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,6 +129,9 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
+    if (bfdev_unlikely(size > head->avail))
+        return NULL;
+
     bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
@@ -174,14 +177,14 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    if (bfdev_unlikely(resize > BFDEV_SIZE_MAX - BFDEV_MEMALLOC_ALIGN))
+        return NULL;
+
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From a5413768df3fffc5ccbacab076f6f388a6fe0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 19/70] fix: allocpool: refuse sizes that wrap the end of the
 pool

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From dd35bf36a00e2f12de5bb859ba60035ebd21f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 20/70] fix: allocator: refuse array requests whose byte size
 overflows

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..39c35e9 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_malloc(alloc, bytes);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_zalloc(alloc, bytes);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, bytes);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From b58f0d5778ee02f4e09f00a5eb2abc444301ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 21/70] fix: bitmap: stop a range set or clear at the last word

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 7fe1f2f0c6052bf03354a7c1f539a66c168f2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 22/70] fix: bitmap: equality of constant-size bitmaps was
 inverted

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From b7e1a6025693e9c006b7e0e23d9cbbdb52f85b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 23/70] fix: bitmap: shifts of small bitmaps by a word or more

---
 include/bfdev/bitmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index d398b3d..0ab9126 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -160,7 +160,7 @@ bfdev_bitmap_shl(unsigned long *dest, const unsigned long *src,
     if (!bfdev_const_small_nbits(bits))
         return bfdev_bitmap_comp_shl(dest, src, shift, bits);
 
-    value = *src << shift;
+    value = shift < BFDEV_BITS_PER_LONG ? *src << shift : 0;
     *dest = value & BFDEV_BIT_LOW_MASK(bits);
 }
 
@@ -174,7 +174,7 @@ bfdev_bitmap_shr(unsigned long *dest, const unsigned long *src,
         return bfdev_bitmap_comp_shr(dest, src, shift, bits);
 
     value = *src & BFDEV_BIT_LOW_MASK(bits);
-    *dest = value >> shift;
+    *dest = shift < BFDEV_BITS_PER_LONG ? value >> shift : 0;
 }
 
 static __bfdev_always_inline void
-- 
2.43.0


From 3fbb693e37da09fed33a0abe2e2f2d9926e71ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 24/70] fix: bitmap: right shift of a multi-word bitmap

---
 src/bitmap.c | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..3709363 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -209,7 +209,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
                       unsigned int shift, unsigned int bits)
 {
     unsigned int index, length, offset, rem;
-    unsigned long value, vlow, vhigh;
+    unsigned long value, vlow, vhigh, mask;
 
     length = BFDEV_BITS_TO_LONG(bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
@@ -221,30 +221,23 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
-
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+    mask = BFDEV_BIT_LOW_MASK(bits);
+
+    for (index = 0; index + offset < length; ++index) {
+        value = src[index + offset];
+        if (index + offset + 1 == length)
+            value &= mask;
+        vlow = value >> rem;
+
+        vhigh = 0;
+        if (rem && index + offset + 1 < length) {
+            value = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                value &= mask;
+            vhigh = value << (BFDEV_BITS_PER_LONG - rem);
+        }
+
+        dest[index] = vhigh | vlow;
     }
 
     if (offset)
-- 
2.43.0


From 082c8d51d3e99ccb3a96b18c2b4164e2862a31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 25/70] fix: bitrev: two bits of the constant reversal were
 swapped

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From 302205ed8d753bc70ee268c9e790207f4664c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 26/70] fix: bitops: n-th last set bit of an all-ones word

---
 include/bfdev/asm-generic/bitops.h | 3 ---
 include/bfdev/bitops.h             | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..9b9817d 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -585,9 +585,6 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_flsuf(word);
         if (!(*nr)--)
diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From b936cca328ff340bbaa8abdb632941c7767d4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 27/70] fix: bitwalk: searching a zero bit in a 64-bit
 constant-size map

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 7d50a3d7e6f86eef8c3c9cd0dd7beef41a4d6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 28/70] fix: fsm: forget the previous state on reset

---
 include/bfdev/fsm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/fsm.h b/include/bfdev/fsm.h
index ff85286..33a0ec8 100644
--- a/include/bfdev/fsm.h
+++ b/include/bfdev/fsm.h
@@ -111,7 +111,8 @@ bfdev_fsm_init(bfdev_fsm_t *fsm, const bfdev_alloc_t *alloc,
 static inline void
 bfdev_fsm_reset(bfdev_fsm_t *fsm, const bfdev_fsm_state_t *init)
 {
-    *fsm->state = init;
+    fsm->state[0] = init;
+    fsm->state[1] = NULL;
     fsm->count = 0;
     bfdev_array_reset(&fsm->stack);
 }
-- 
2.43.0


From 7b0aad6242036d08fb0ef722538ece6d6ee15c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 29/70] fix: respool: take resources off the pool when
 releasing all

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From 6b3768a41c34ba0d043d92623ad7a89abc4122fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 30/70] fix: ratelimit: very long intervals

---
 src/ratelimit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index 6908623..1a3ac21 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -19,7 +19,7 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (bfdev_unlikely(!limit->begin))
         limit->begin = current;
 
-    if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
+    if (bfdev_time_after(bfdev_time_sub(current, limit->begin), limit->interval)) {
         limit->begin = current;
         limit->passed = 0;
     }
-- 
2.43.0


From 34c34decabde489021e3055dfdf3ec63bc72961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 31/70] fix: tokenbucket: long idle times and large capacities

---
 src/tokenbucket.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..031250b 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate;
 
     if (!limit->interval)
         return true;
@@ -23,8 +23,13 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
-    limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    if (generate > 0) {
+        limit->last = bfdev_time_add(generate * limit->interval, limit->last);
+        if (generate < limit->capacity - limit->current)
+            limit->current += generate;
+        else
+            limit->current = limit->capacity;
+    }
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From 64fc55b8c1bd653cb73cd5b8ff6fbcb973258c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 32/70] fix: textsearch: kmp: compare folded bytes above 0x7f
 as unsigned

---
 src/textsearch/kmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ec1590f 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
-- 
2.43.0


From 88ce582be5d5abec3751e852630635aa75224a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 33/70] fix: textsearch: bm: repair shift tables, block restart
 and search continuation

---
 src/textsearch/bm.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..d8e9ba3 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -50,9 +50,9 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
 
     for (;;) {
+        shift = bctx->pattern_len - 1;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
@@ -63,8 +63,10 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
@@ -85,7 +87,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -100,7 +102,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
@@ -118,7 +120,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
-- 
2.43.0


From c0ca5dec87404939552a692ca6e1450efa39318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 34/70] fix: textsearch: sunday: repair shift table, end of
 block and search continuation

---
 src/textsearch/sunday.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..c834097 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -48,9 +48,9 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
 
     for (;;) {
+        shift = 0;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
@@ -61,10 +61,12 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
@@ -81,7 +83,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
-- 
2.43.0


From 7411015e54795939655af1cd5c01275f23b6b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 35/70] fix: levenshtein: initialise the whole first row

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 41f804f944535a68998da7d3fdd6cdadf9e02764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 36/70] fix: mpi: propagate every carry and borrow

---
 src/mpi.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..68c23d7 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
@@ -104,8 +105,10 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
-        carry = value < *ptra++;
+        value = *ptra++ + carry;
+        carry = value < carry;
+        value += *ptrb;
+        carry |= value < *ptrb++;
         *ptrs++ = value;
 
         cnta--;
@@ -154,8 +157,10 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
+        value = *ptra - borrow;
         borrow = value > *ptra++;
+        borrow |= value < *ptrb;
+        value -= *ptrb++;
         *ptrs++ = value;
 
         cnta--;
-- 
2.43.0


From ce33964e6edf45170defc5f5ac3218299c872d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 37/70] fix: mpi: add, subtract and multiply into an operand

---
 src/mpi.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 68c23d7..f12d45f 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -616,6 +616,7 @@ mpi_add(bfdev_mpi_t *dest,
         return retval;
 
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -680,6 +681,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
@@ -741,7 +743,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -758,11 +760,11 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
-- 
2.43.0


From 0184ff441fde93dadd7c89d982a265fadf820547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 38/70] fix: mpi: add a word to a negative and subtract one
 from zero

---
 src/mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index f12d45f..5a17202 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1226,7 +1226,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
@@ -1330,7 +1330,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
 
         case BFDEV_LT:
             value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            retval = mpi_seti(dest, mpi_len(va) ? vi - *value : vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From d1c6c3feb1573816a17638ab0fa6f483882431bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 39/70] fix: mpi: zero has no sign, and signs are read before
 they are overwritten

---
 src/mpi.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5a17202..46ac20a 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -443,6 +443,13 @@ mpi_relocation(bfdev_mpi_t *var)
     return length;
 }
 
+static __bfdev_always_inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    /* zero has no sign */
+    var->plus = plus || !mpi_len(var);
+}
+
 static inline int
 mpi_extend(bfdev_mpi_t *var, unsigned long length)
 {
@@ -1367,7 +1374,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, !(va->plus ^ vb->plus));
 
     return -BFDEV_ENOERR;
 }
@@ -1382,7 +1389,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1392,6 +1399,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     int retval, diff;
+    bool sign;
 
     diff = mpi_cmp(va, vb);
     switch (diff) {
@@ -1426,12 +1434,15 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             break;
 
         case BFDEV_BT:
+            sign = va->plus;
+            diff = va->plus ^ vb->plus;
+
             retval = mpi_div(quot, rem, va, vb);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(quot, !diff);
+            mpi_sign(rem, sign);
             break;
     }
 
@@ -1443,6 +1454,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
     int retval, diff;
+    bool sign;
 
     diff = mpi_cmpi(va, vi);
     switch (diff) {
@@ -1477,12 +1489,14 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             break;
 
         case BFDEV_BT:
+            sign = va->plus;
+
             retval = mpi_divi(quot, rem, va, vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(quot, sign);
+            mpi_sign(rem, sign);
             break;
     }
 
@@ -1520,7 +1534,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1558,7 +1572,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1635,7 +1649,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1689,6 +1703,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1731,7 +1746,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
@@ -1756,4 +1771,5 @@ export void
 bfdev_mpi_release(bfdev_mpi_t *var)
 {
     bfdev_array_release(&var->value);
+    mpi_sign(var, true);
 }
-- 
2.43.0


From f16de803256ff7255efe0db49b44140d461075c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 40/70] fix: mpi: report a failed remainder assignment

---
 src/mpi.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 46ac20a..ce5bc11 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -811,7 +811,7 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        return mpi_seti(rem, value);
 
     return -BFDEV_ENOERR;
 }
@@ -836,9 +836,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
-- 
2.43.0


From 50890cd8a2f2a23cc96bfae273856cf993d15647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 41/70] fix: mpi: report division of zero by zero

---
 src/mpi.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index ce5bc11..2a2cd78 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1400,6 +1400,10 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     int retval, diff;
     bool sign;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1455,6 +1459,10 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     int retval, diff;
     bool sign;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1508,6 +1516,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1546,6 +1558,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From 7ce8d842377aeaadd0918efc92bf7c441b2146cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 42/70] fix: mpi: normalize the divisor and allow aliased
 results in division

---
 src/mpi.c | 212 +++++++++++++++++++++++++-----------------------------
 1 file changed, 96 insertions(+), 116 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 2a2cd78..4ca0ec1 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -840,122 +840,6 @@ mpi_modi(bfdev_mpi_t *rem,
     return mpi_seti(rem, value);
 }
 
-static inline int
-mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
-    unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
-
-        return -BFDEV_ENOERR;
-    }
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
-
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
-    if (bfdev_unlikely(retval))
-        return retval;
-
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
-
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
-
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
-
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
-
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
-    }
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_mod(bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
-
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
-
-    return -BFDEV_ENOERR;
-}
-
 static inline int
 mpi_and(bfdev_mpi_t *dest,
         const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
@@ -1129,6 +1013,102 @@ mpi_shri(bfdev_mpi_t *dest,
     return -BFDEV_ENOERR;
 }
 
+static inline int
+mpi_divrem(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+           const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_DEFINE_MPI(dividend, rem->alloc);
+    BFDEV_DEFINE_MPI(divisor, rem->alloc);
+    BFDEV_MPI_TYPE *ptrs, *ptrb;
+    unsigned long cnta, cntb, shift;
+    bool limb;
+    int retval;
+
+    /**
+     * The divisor must be normalized. Working on shifted copies
+     * also allows the results to replace the operands.
+     */
+
+    cntb = mpi_len(vb);
+    ptrb = mpi_val(vb);
+    shift = bfdev_clz(ptrb[cntb - 1]);
+
+    retval = mpi_shli(&divisor, vb, shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    retval = mpi_shli(&dividend, va, shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    cnta = mpi_len(&dividend);
+    ptrs = NULL;
+
+    if (quot) {
+        retval = mpi_resize(quot, cnta - cntb + 1);
+        if (bfdev_unlikely(retval))
+            goto finish;
+
+        ptrs = mpi_val(quot);
+    }
+
+    limb = mpa_divrem(ptrs, mpi_val(&dividend), mpi_val(&divisor), cnta, cntb);
+    if (quot) {
+        ptrs[cnta - cntb] = limb;
+        mpi_relocation(quot);
+    }
+
+    BFDEV_BUG_ON(mpi_resize(&dividend, cntb));
+    mpi_relocation(&dividend);
+    retval = mpi_shri(rem, &dividend, shift);
+
+finish:
+    bfdev_mpi_release(&divisor);
+    bfdev_mpi_release(&dividend);
+
+    return retval;
+}
+
+static inline int
+mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cntb;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_divi(quot, rem, va, *ptrb);
+
+    return mpi_divrem(quot, rem, va, vb);
+}
+
+static inline int
+mpi_mod(bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cntb;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_modi(rem, va, *ptrb);
+
+    return mpi_divrem(NULL, rem, va, vb);
+}
+
 /**
  * Multi Precision Integers (signed).
  *
-- 
2.43.0


From 9f6bf9b5b70135c689c5f4f3dbb3874c5d133e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 43/70] fix: mpi: shift by counts wider than the bitmap's

---
 src/mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4ca0ec1..03adafb 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -964,7 +964,7 @@ mpi_shli(bfdev_mpi_t *dest,
     if (!cnta)
         return mpi_seti(dest, 0);
 
-    rem = BFDEV_BITS_TO_LONG(shift);
+    rem = BFDEV_BITS_DIV_LONG(shift) + !!BFDEV_BITS_MOD_LONG(shift);
     length = cnta + rem;
 
     retval = mpi_resize(dest, length);
@@ -997,7 +997,7 @@ mpi_shri(bfdev_mpi_t *dest,
         return mpi_set(dest, va);
 
     length = mpi_len(va);
-    if (!length)
+    if (BFDEV_BITS_DIV_LONG(shift) >= length)
         return mpi_seti(dest, 0);
 
     retval = mpi_resize(dest, length);
-- 
2.43.0


From c304c0592e8f2eba2dd0bbe716282947c5dc5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 44/70] fix: mpi: keep the quotient when it shares the
 remainder's number

---
 src/mpi.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 03adafb..6251bdc 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1060,7 +1060,8 @@ mpi_divrem(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 
     BFDEV_BUG_ON(mpi_resize(&dividend, cntb));
     mpi_relocation(&dividend);
-    retval = mpi_shri(rem, &dividend, shift);
+    if (quot != rem)
+        retval = mpi_shri(rem, &dividend, shift);
 
 finish:
     bfdev_mpi_release(&divisor);
@@ -1387,16 +1388,20 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
-            if (bfdev_unlikely(retval))
-                return retval;
+            sign = !(va->plus ^ vb->plus);
 
             retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
             rem->plus = true;
+
+            /* the quotient is kept when quot is rem */
+            retval = mpi_seti(quot, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+
+            quot->plus = sign;
             break;
 
         case BFDEV_LT:
@@ -1424,8 +1429,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, !diff);
             mpi_sign(rem, sign);
+            mpi_sign(quot, !diff);
             break;
     }
 
@@ -1446,16 +1451,20 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
-            if (bfdev_unlikely(retval))
-                return retval;
+            sign = va->plus;
 
             retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
             rem->plus = true;
+
+            /* the quotient is kept when quot is rem */
+            retval = mpi_seti(quot, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+
+            quot->plus = sign;
             break;
 
         case BFDEV_LT:
@@ -1482,8 +1491,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, sign);
             mpi_sign(rem, sign);
+            mpi_sign(quot, sign);
             break;
     }
 
-- 
2.43.0


From 1b73fb35e91decd0a5174e3ed21de7dc0008d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 45/70] fix: matrix: address row and column

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8799aee 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -200,12 +200,12 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
                   unsigned int row, unsigned int col)
 {
     BFDEV_MATRIX_TYPE *data;
-    unsigned int offset;
+    unsigned long offset;
 
-    if (var->col < row || var->col < col)
+    if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * col;
+    offset = (unsigned long)row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From a37c5f10d20aea093ff651d2a551a4692d4f37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 46/70] fix: matrix: transpose the source into the destination

---
 src/matrix.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8799aee..07d13bb 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -118,6 +118,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
 export int
 bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
+    BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
+    bfdev_matrix_t *rename;
     unsigned int row, col;
     unsigned int size;
     int retval;
@@ -125,6 +127,12 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     col = src->row;
     row = src->col;
 
+    rename = NULL;
+    if (dest == src) {
+        rename = dest;
+        dest = &buffer;
+    }
+
     size = row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
@@ -136,15 +144,20 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
             add[row][col] = ads[col][row];
     }
 
-    return -BFDEV_ENOERR;
+    if (rename) {
+        retval = bfdev_matrix_set(rename, dest);
+        bfdev_matrix_release(dest);
+    }
+
+    return retval;
 }
 
 export int
-- 
2.43.0


From 877be3db0db75c67e13471496a8b2f5d86ae722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 47/70] fix: matrix: cell counts beyond 32 bits

---
 src/matrix.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 07d13bb..57e5927 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -8,14 +8,14 @@
 #include <export.h>
 
 static inline void
-matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned int size)
+matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned long size)
 {
     bfport_memset(var, 0, size * BFDEV_MATRIX_SIZE);
 }
 
 static inline void
 matrix_copy(BFDEV_MATRIX_TYPE *dest, const BFDEV_MATRIX_TYPE *src,
-            unsigned int size)
+            unsigned long size)
 {
     bfport_memcpy(dest, src, size * BFDEV_MATRIX_SIZE);
 }
@@ -27,7 +27,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
                     const bfdev_matrix_t *vb)           \
 {                                                       \
     unsigned int row, col;                              \
-    unsigned int size, count;                           \
+    unsigned long size, count;                          \
     int retval;                                         \
                                                         \
     row = va->row;                                      \
@@ -36,7 +36,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
     if (row != vb->row || col != vb->col)               \
         return -BFDEV_EINVAL;                           \
                                                         \
-    size = row * col;                                   \
+    size = (unsigned long)row * col;                    \
     retval = bfdev_array_resize(&dest->value, size);    \
     if (bfdev_unlikely(retval))                         \
         return retval;                                  \
@@ -68,7 +68,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size, count;
+    unsigned long size;
+    unsigned int count;
     long value;
     int retval;
 
@@ -81,7 +82,7 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
         dest = &buffer;
     }
 
-    size = va->row * vb->col;
+    size = (unsigned long)va->row * vb->col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -121,7 +122,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     int retval;
 
     col = src->row;
@@ -133,7 +134,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
         dest = &buffer;
     }
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -164,14 +165,14 @@ export int
 bfdev_matrix_set(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     void *dbuf, *sbuf;
     int retval;
 
     row = src->row;
     col = src->col;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -190,11 +191,11 @@ export int
 bfdev_matrix_import(bfdev_matrix_t *var, const BFDEV_MATRIX_TYPE *buffer,
                     unsigned int row, unsigned int col)
 {
-    unsigned int size;
+    unsigned long size;
     void *dbuf;
     int retval;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&var->value, size);
     if (bfdev_unlikely(retval))
         return retval;
-- 
2.43.0


From 78f4feb3fa7f47b4762dc17f2d60232265f6ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 48/70] fix: ascii85: do not read past the end of a short tail

---
 src/crypto/ascii85.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..4562d38 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -35,8 +35,10 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        uint8_t tail[BFDEV_BYTES_PER_U32] = {};
+
+        bfport_memcpy(tail, data, size);
+        value = bfdev_unaligned_get_be32(tail);
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From 77d002dee5860289ff1f751becbaf52b2e08bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 49/70] fix: ascii85: decode a zero group on its own

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 4562d38..4ff9a9e 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -69,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 8401cc10631a2e0602300907e8e89e1dcb849f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 50/70] fix: ascii85: refuse groups beyond 32 bits

---
 src/crypto/ascii85.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 4ff9a9e..864efb2 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -6,7 +6,7 @@
 #include <base.h>
 #include <bfdev/ascii85.h>
 #include <bfdev/math.h>
-#include <bfdev/bits.h>
+#include <bfdev/limits.h>
 #include <bfdev/unaligned.h>
 #include <export.h>
 
@@ -61,7 +61,7 @@ static __bfdev_always_inline int
 ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
 {
     unsigned int count;
-    uint32_t value;
+    uint64_t value;
     size_t index;
 
     for (index = 0; size; index += 4) {
@@ -83,6 +83,9 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             value += data[2] - '!'; value *= 85;
             value += data[3] - '!'; value *= 85;
             value += data[4] - '!';
+            if (value > BFDEV_UINT32_MAX)
+                return -BFDEV_EINVAL;
+
             bfdev_unaligned_set_be32(buff + index, value);
 
             data += 5;
-- 
2.43.0


From ed32b6332bffc9377f04ee4d29f0b48975586db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 51/70] fix: crc: fold the high half of 64-bit registers in the
 unrolled loop

---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From d7f2c79efc5ab7d3f0eeab981c0a5cb6d87a4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 52/70] fix: log: test the end pointer, not its target

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..203e1e6 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -79,7 +79,7 @@ bfdev_log_level(const char *str, const char **endptr)
         }
     }
 
-    if (*endptr)
+    if (endptr)
         *endptr = str;
 
     return level;
-- 
2.43.0


From 5fd3cf7b9078a2a83cb19f4f692e1964840915ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 53/70] fix: scnprintf: return zero when formatting fails

---
 src/scnprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..2dd439f 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,6 +16,11 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
+    if (bfdev_unlikely(len < 0)) {
+        *buf = '\0';
+        return 0;
+    }
+
     if (bfdev_likely(len < size))
         return len;
 
-- 
2.43.0


From 0d3635d0f7768680f1cd5d6da3568b6967ecbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 54/70] fix: math: round closest asks for the types of its
 operands

---
 include/bfdev/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..732f56a 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -56,8 +56,8 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
     typeof(x) __x = x;                          \
     typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    (bfdev_is_unsigned(typeof(__x)) ||          \
+     bfdev_is_unsigned(typeof(__d)) ||          \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From 9ae9850a0f1cda621e827fab5386f493ab729468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 55/70] fix: align: compute the mask in the common type

---
 include/bfdev/align.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/align.h b/include/bfdev/align.h
index eea4361..951040e 100644
--- a/include/bfdev/align.h
+++ b/include/bfdev/align.h
@@ -38,7 +38,8 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_low(value, align) ({ \
-    (value) & ~((align) - 1); \
+    typeof((value) + (align)) __align = (align); \
+    (value) & ~(__align - 1); \
 })
 
 /**
@@ -47,7 +48,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_high(value, align) ({ \
-    typeof(align) __align = (align); \
+    typeof((value) + (align)) __align = (align); \
     ((value) + (__align - 1)) & ~(__align - 1); \
 })
 
-- 
2.43.0


From 6ec15fbfb6f635a35e0ad832e9fab0310ba2d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 56/70] fix: bitfield: keep the upper bits of values tested to
 fit

---
 include/bfdev/bitfield.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/bitfield.h b/include/bfdev/bitfield.h
index 6dcd94e..cc8d380 100644
--- a/include/bfdev/bitfield.h
+++ b/include/bfdev/bitfield.h
@@ -38,7 +38,8 @@ BFDEV_BEGIN_DECLS
  */
 #define BFDEV_FIELD_FIT(mask, val) ({ \
     typeof(mask) _mask = (mask); \
-    !((((typeof(mask))(val)) << bfdev_ffsuf(_mask)) & ~(_mask)); \
+    !((unsigned long long)(val) & \
+      ~((unsigned long long)(_mask) >> bfdev_ffsuf(_mask))); \
 })
 
 /**
-- 
2.43.0


From 89c84c9720c667c080df3cca5461b304d11ac233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 57/70] fix: dword: compare the whole dividend with a large
 divisor

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..ec1d1a2 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -85,7 +85,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From ae480cd6782cb6a825e4622969a95b5b7320400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 58/70] fix: dword: clear the upper remainder of single word
 divisors

---
 src/dword.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index ec1d1a2..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,8 +80,12 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-- 
2.43.0


From 7460e236c65d371391f40d94c63b0b0488c3b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 59/70] fix: ctype: HT is blank, VT is not, and '0' is a
 hexadecimal digit

---
 src/libc/ctype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From 5dadf89155ea5d5b65ef583bb4aca7f47d0651b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 60/70] fix: ctype: the constant classifiers compare without
 sign and isascii has its constant form

---
 include/bfdev/ctype.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..4358d67 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32U) - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned char)c - (unsigned int)'0') < 10;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned char)c - 0x21U) < 0x5e;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned char)c - (unsigned int)'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned char)c - 0x20U) < 0x5f;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned char)c - (unsigned int)'\t' < 5);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned char)c - (unsigned int)'A') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,11 +107,11 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32U) - 'a' < 6);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
-- 
2.43.0


From 2c4d3640276d43d2fcf503b38a1da771c1616255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 61/70] fix: strndup: terminate the copy

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From a2019c9b2b6a264da32b7470b41db79d04dc5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 62/70] fix: errname: no signed overflow on INT_MIN

---
 src/errname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errname.c b/src/errname.c
index 79a8bce..00f3e75 100644
--- a/src/errname.c
+++ b/src/errname.c
@@ -150,7 +150,7 @@ bfdev_errname_find(int error)
     bfdev_errname_t *entry;
 
     if (error < 0)
-        error = -error;
+        error = -(unsigned int)error;
 
     entry = bfdev_bsearch(
         bfdev_errname_table, BFDEV_ARRAY_SIZE(bfdev_errname_table) - 1,
-- 
2.43.0


From e24111729955aa1a950bb782fdf457203563c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 63/70] fix: mhelper: the map helpers refer to each other by
 their names

---
 include/bfdev/mhelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/mhelper.h b/include/bfdev/mhelper.h
index afc1b86..5c451af 100644
--- a/include/bfdev/mhelper.h
+++ b/include/bfdev/mhelper.h
@@ -26,7 +26,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_ARG4(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG5(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG6(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_ARGN(n, fn, ...) MMAP_ARG##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_ARGN(n, fn, ...) BFDEV_MMAP_ARG##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MMAP_DECL0(fn, ...)
 #define BFDEV_MMAP_DECL1(fn, type, ...) fn(type, __arg1)
@@ -35,7 +35,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_DECL4(fn, type, ...) fn(type, __arg4), BFDEV_MMAP_DECL3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL5(fn, type, ...) fn(type, __arg5), BFDEV_MMAP_DECL4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL6(fn, type, ...) fn(type, __arg6), BFDEV_MMAP_DECL5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_DECLN(n, fn, ...) MMAP_DECL##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_DECLN(n, fn, ...) BFDEV_MMAP_DECL##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MARGFN_DECL(type, arg) type arg
 #define BFDEV_MARGFN_LONG(type, arg) long arg
-- 
2.43.0


From cb7afdb03e1c0a8dc16052af4b8237653f0ab4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 64/70] fix: size: 1GiB to 512GiB constants

---
 include/bfdev/size.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bfdev/size.h b/include/bfdev/size.h
index f32496d..a3f262c 100644
--- a/include/bfdev/size.h
+++ b/include/bfdev/size.h
@@ -44,16 +44,16 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_SZ_256MiB     0x10000000
 #define BFDEV_SZ_512MiB     0x20000000
 
-#define BFDEV_SZ_1GiB       BFDEV_AC(0x0010000000, ULL)
-#define BFDEV_SZ_2GiB       BFDEV_AC(0x0020000000, ULL)
-#define BFDEV_SZ_4GiB       BFDEV_AC(0x0040000000, ULL)
-#define BFDEV_SZ_8GiB       BFDEV_AC(0x0080000000, ULL)
-#define BFDEV_SZ_16GiB      BFDEV_AC(0x0100000000, ULL)
-#define BFDEV_SZ_32GiB      BFDEV_AC(0x0200000000, ULL)
-#define BFDEV_SZ_64GiB      BFDEV_AC(0x0400000000, ULL)
-#define BFDEV_SZ_128GiB     BFDEV_AC(0x0800000000, ULL)
-#define BFDEV_SZ_256GiB     BFDEV_AC(0x1000000000, ULL)
-#define BFDEV_SZ_512GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_1GiB       BFDEV_AC(0x0040000000, ULL)
+#define BFDEV_SZ_2GiB       BFDEV_AC(0x0080000000, ULL)
+#define BFDEV_SZ_4GiB       BFDEV_AC(0x0100000000, ULL)
+#define BFDEV_SZ_8GiB       BFDEV_AC(0x0200000000, ULL)
+#define BFDEV_SZ_16GiB      BFDEV_AC(0x0400000000, ULL)
+#define BFDEV_SZ_32GiB      BFDEV_AC(0x0800000000, ULL)
+#define BFDEV_SZ_64GiB      BFDEV_AC(0x1000000000, ULL)
+#define BFDEV_SZ_128GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_256GiB     BFDEV_AC(0x4000000000, ULL)
+#define BFDEV_SZ_512GiB     BFDEV_AC(0x8000000000, ULL)
 
 BFDEV_END_DECLS
 
-- 
2.43.0


From 36ff281eed5c65582c21094c39ed3908dc7ac8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 65/70] fix: stringhash: pjwhash works on 32 bits and unsigned
 characters

---
 src/stringhash.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 63b7d87..f7f5603 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -3,20 +3,21 @@
  * Copyright(c) 2023 John Sanpe <sanpeqf@gmail.com>
  */
 
+#include <bfdev/types.h>
 #include <bfdev/stringhash.h>
 #include <export.h>
 
 export unsigned long
 bfdev_pjwhash(const char *str)
 {
-    unsigned long value, hash;
+    uint32_t value, hash;
 
     hash = 0;
     while (*str) {
         hash <<= 4;
-        hash += *str++;
+        hash += (unsigned char)*str++;
 
-        value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
+        value = hash & ((uint32_t)0xf << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
             hash ^= value >> (BFDEV_PJWHASH_BITS - 8);
             hash ^= value;
-- 
2.43.0


From e2d51c0b8498eee2eea19d301b495dbb35f0d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 66/70] fix: refcount: addnz retries until its compare-exchange
 succeeds

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..04d66c5 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From feb28570318565870d8ced268a04bd37b3062f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 67/70] fix: refcount: overflow reports look at the wrapped sum

---
 include/bfdev/refcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index 04d66c5..b5e709c 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -74,7 +74,7 @@ bfdev_refcnt_fetch_add(bfdev_refcnt_t *ref, bfdev_atomic_t cnt,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_LEAK);
-    else if (bfdev_unlikely(prev + cnt < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + cnt) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_OVF);
 #endif
 }
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 8415c37f621b0ebde5d408da34e89a38e745c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 68/70] fix: fifo: records of elements wider than a byte

---
 include/bfdev/fifo.h |  6 +++---
 src/fifo.c           | 19 +++----------------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..2330b2e 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
diff --git a/src/fifo.c b/src/fifo.c
index 9c01b5b..5b1b05a 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -58,16 +58,9 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset++ & mask) * fifo->esize];
     }
 
     return length;
@@ -83,15 +76,9 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     offset = fifo->in;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += fifo->esize;
+        data[(offset++ & mask) * fifo->esize] =
+            (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
     }
 }
 
-- 
2.43.0


From f947280ccbb77553a8b39d3a422617fcf0908410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 69/70] fix: ringbuf: records of elements wider than a byte

---
 include/bfdev/ringbuf.h |  6 +++---
 src/ringbuf.c           | 19 +++----------------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..b454895 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
diff --git a/src/ringbuf.c b/src/ringbuf.c
index 148c6ab..32ecc86 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -58,16 +58,9 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset++ & mask) * ringbuf->esize];
     }
 
     return length;
@@ -83,15 +76,9 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     offset = ringbuf->in;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += ringbuf->esize;
+        data[(offset++ & mask) * ringbuf->esize] =
+            (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
     }
 }
 
-- 
2.43.0


From 3e5cdc619fd4b60f8433ff488b8dfa2b32902c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 70/70] fix: byteorder: provide the big-endian array
 conversions

---
 include/bfdev/asm-generic/byteorder.h | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/bfdev/asm-generic/byteorder.h b/include/bfdev/asm-generic/byteorder.h
index 1d40b74..cf5766a 100644
--- a/include/bfdev/asm-generic/byteorder.h
+++ b/include/bfdev/asm-generic/byteorder.h
@@ -51,6 +51,36 @@ BFDEV_GENERIC_BYTEORDER_ARRAY(
     uint64_t, bfdev_le64, bfdev_le64_to_cpu
 )
 
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be16_array,
+    bfdev_be16, uint16_t, bfdev_cpu_to_be16
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be32_array,
+    bfdev_be32, uint32_t, bfdev_cpu_to_be32
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be64_array,
+    bfdev_be64, uint64_t, bfdev_cpu_to_be64
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be16_to_cpu_array,
+    uint16_t, bfdev_be16, bfdev_be16_to_cpu
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be32_to_cpu_array,
+    uint32_t, bfdev_be32, bfdev_be32_to_cpu
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be64_to_cpu_array,
+    uint64_t, bfdev_be64, bfdev_be64_to_cpu
+)
+
 BFDEV_END_DECLS
 
 #endif /* _BFDEV_ASM_GENERIC_BYTEORDER_H_ */
-- 
2.43.0

