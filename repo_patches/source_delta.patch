From 893267285252c273988e0c331e2878d5c8eb7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 001/162] fix: zt_table_del must track the previous node, or
 deleting an inner chain entry drops the entries before it

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0fcd1c9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From da64da79f9ec42335afa9a84a83f8232dce6be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 002/162] fix: zt_table_init must allocate a bucket for every
 masked hash value (size hints that are not a power of two overran the bucket
 array)

---
 src/libzt/zt_table.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0fcd1c9..c458c5e 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -113,7 +113,13 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
         }
     }
 
+    if (nbuckets < 2) {
+        nbuckets = 2;
+    }
+
+    /* keys are reduced to nbits bits so there must be a bucket for each value */
     table->nbits = nbits(nbuckets - 1);
+    nbuckets = (size_t)1 << table->nbits;
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
 
-- 
2.43.0


From 267669c4cb956b9c2dbcc62279b35aac1eae8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 003/162] fix: ZT_HASH_SUB32_MASK left bits above the mask set
 for hash values wider than 32 bits

---
 src/libzt/zt_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_hash.h b/src/libzt/zt_hash.h
index 5ca4a60..461b551 100644
--- a/src/libzt/zt_hash.h
+++ b/src/libzt/zt_hash.h
@@ -58,7 +58,7 @@ uint32_t zt_hash32_cstr(const uint8_t *buf, uint32_t init);
         if ((x) < 16) {                                               \
             (hash = ((hash >> (x)) ^ hash) & ZT_HASH_MASK(x));        \
         } else {                                                      \
-            (hash = ((hash >> (x)) ^ (hash & ZT_HASH_MASK(x))));      \
+            (hash = ((hash >> (x)) ^ hash) & ZT_HASH_MASK(x));        \
         }                                                             \
     }
 /* *INDENT-ON* */
-- 
2.43.0


From 8bd63bff55d45c2267ab3c8140b36c868423882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 004/162] fix: zt_table_compare_buff must compare whole
 buffers, not stop at the first zero byte

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index c458c5e..e51de9c 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -368,7 +368,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 8b4d7b2f38a2fa5e1341639dab18eda038d7d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 005/162] fix: zt_set union/intersection/difference stopped at
 the first element the result already held

---
 src/libzt/zt_set.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..7835934 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -75,7 +75,9 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    /* an existing member is not a reason to stop iterating */
+    zt_set_insert(p->s2, datum, datum_len);
+    return 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -97,7 +99,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -119,7 +121,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From 369e2616a1a1a96f4ddd81de21c1fb66b19424b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 006/162] fix: zt_set_remove never removed anything (it looked
 elements up with length 0) but always shrank the set

---
 src/libzt/zt_set.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 7835934..fa3610f 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -57,9 +57,34 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
 }
 
+struct _set_find {
+    void * data;
+    size_t len;
+};
+
+static int _find(void *key UNUSED, size_t key_len UNUSED, void *datum, size_t datum_len, void *param)
+{
+    struct _set_find * f = (struct _set_find *)param;
+
+    if (datum == f->data) {
+        f->len = datum_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _set_find f = { NULL, 0 };
+
+    /* the length that the element was inserted with is part of its key */
+    f.data = *data;
+    if (zt_table_for_each(set->tbl, _find, &f) == 0) {
+        *data = NULL;
+        return 1;
+    }
+
+    *data = zt_table_del(set->tbl, f.data, f.len);
     set->length--;
     return 0;
 }
-- 
2.43.0


From e0531cbc218dfecb4f0a0136d806067c9edd719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 007/162] fix: zt_set_size named a field that zt_set does not
 have

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From cd97c490543d4253d70b863d6d64aad083d76a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 008/162] fix: zt_table_hash_int/zt_table_compare_int read past
 the key variable for lengths larger than a pointer

---
 src/libzt/zt_table.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index e51de9c..e09c1c7 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -310,7 +310,12 @@ unsigned long
 zt_table_hash_int(const void *key, size_t key_len, void *cdata UNUSED)
 {
     unsigned char * skey = (unsigned char *)key;
-    unsigned long   nkey = zt_hash32_buff(&skey, key_len, ZT_HASH32_INIT);
+    unsigned long   nkey;
+
+    if (key_len > sizeof(skey)) {
+        key_len = sizeof(skey);
+    }
+    nkey = zt_hash32_buff(&skey, key_len, ZT_HASH32_INIT);
 
     return nkey;
 }
@@ -319,7 +324,7 @@ int
 zt_table_compare_int(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if (lhs_len == rhs_len) {
-        if (memcmp(&lhs, &rhs, lhs_len) == 0) {
+        if (memcmp(&lhs, &rhs, lhs_len > sizeof(lhs) ? sizeof(lhs) : lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 2cf8ecaa776d29ca8e8ec610c044a5ebf7839d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 009/162] fix: zt_set hashed string and buffer elements by
 address, so equal elements were not recognized as members

---
 src/libzt/zt_set.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index fa3610f..0dd0cfa 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -10,11 +10,19 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
             void (*destroy)(void *data),
             void *cdata)
 {
-    zt_set * set;
+    zt_set              * set;
+    zt_table_hash_func_cb hash = zt_table_hash_int;
 
     set = zt_malloc(zt_set, 1);
 
-    set->tbl = zt_table_init(NULL, zt_table_hash_int, match, 128, 0, cdata);
+    /* elements that match must hash alike */
+    if (match == zt_table_compare_string) {
+        hash = zt_table_hash_string;
+    } else if (match == zt_table_compare_buff) {
+        hash = zt_table_hash_buff;
+    }
+
+    set->tbl = zt_table_init(NULL, hash, match, 128, 0, cdata);
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
-- 
2.43.0


From ec7f87cd3f488d83738f9553d7a9acf874cddf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 010/162] fix: zt_elist_join of an empty list linked the donor
 head into the target

---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From 49809e5f52ebe348817bbe734303a6b8385504a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 011/162] fix: zt_queue_dequeue of an empty queue returned the
 queue head as an element

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From bbe7f5478513852563d8cae8d69a3ceefd1e8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 012/162] fix: zt_array_resize leaked the storage of an array
 whose length had been set to 0

---
 src/libzt/zt_array.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..23d5378 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -81,9 +81,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(array);
     zt_assert(len > 0);
 
-    if (array->length == 0) {
-        array->data = zt_calloc(char, len * array->size);
-    } else if (len > 0) {
+    if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
         /* lear the added space */
         if(len > array->length) {
-- 
2.43.0


From 154b50c496b4b0c80b1151e62dce42da136f0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 013/162] fix: zt_array_set_data leaked the data it replaced

---
 src/libzt/zt_array.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 23d5378..0b5888e 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -46,8 +46,12 @@ void
 zt_array_set_data(zt_array_t array, char *data,
                   size_t len, size_t size, int copy)
 {
+    char * old;
+
     zt_assert(array);
 
+    old = array->data;
+
     if (copy) {
         arrayrep_init(array, len, size,
                       zt_calloc(char, len * size));
@@ -55,6 +59,10 @@ zt_array_set_data(zt_array_t array, char *data,
     } else {
         arrayrep_init(array, len, size, data);
     }
+
+    if (old && old != array->data) {
+        zt_free(old);
+    }
 }
 
 zt_array_t
-- 
2.43.0


From d4631973903a141691f3b20b4553507dd90b44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 014/162] fix: zt_buf_drain did not take the drained bytes off
 the capacity, so later adds overran the storage

---
 src/libzt/zt_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..9f57495 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -79,7 +79,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
-- 
2.43.0


From 6fdf7696e8670d3486abda657dd2642bb46cb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 015/162] fix: zt_buf_expand reallocated a pointer into the
 middle of the storage after a drain

---
 src/libzt/zt_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 9f57495..673b6ca 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -60,11 +60,11 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    if (b->top != b->buf) {
+        memmove(b->top, b->buf, b->len);
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
+    b->buf = realloc(b->top, b->len + rlen);
     b->top = b->buf;
     b->max = b->len + rlen;
 
-- 
2.43.0


From 111f0f89ff65fddaed64f513eb4d33062bfd5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 016/162] fix: zt_bstream_write past the end (after a truncate)
 underflowed its space check and wrote out of bounds

---
 src/libzt/zt_bstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..d083c92 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -183,8 +183,8 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
-    if (tlen > alen - bs->offt) {
-        zt_array_resize(bs->data, (alen + tlen) * 2);
+    if (bs->offt + tlen > alen) {
+        zt_array_resize(bs->data, (MAX(alen, bs->offt) + tlen) * 2);
     }
 
     bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
-- 
2.43.0


From 6d7e68f24158f12d839b8ab6c8c397ec58742542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 017/162] fix: zt_bstream_read/write of several items flipped
 the order of the items, not the bytes of each

---
 src/libzt/zt_bstream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index d083c92..3738b96 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -125,7 +125,10 @@ zt_bstream_read(zt_bstream_t bs, char *buf, size_t len, char size, char tag UNUS
     zt_assert(bs);
     zt_assert(buf);
 
-    bs->offt = _array_get(bs->data, buf, bs->offt, (len * size), bs->flipendian);
+    while (len--) {
+        bs->offt = _array_get(bs->data, buf, bs->offt, size, bs->flipendian);
+        buf += size;
+    }
 
     return 0;
 }
@@ -187,7 +190,10 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
         zt_array_resize(bs->data, (MAX(alen, bs->offt) + tlen) * 2);
     }
 
-    bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
+    while (len--) {
+        bs->offt = _array_put(bs->data, data, bs->offt, size, bs->flipendian);
+        data += size;
+    }
 
     return 0;
 }
-- 
2.43.0


From 37c4f3bc64ff1c10431cb7d1ee8fab44741cb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 018/162] fix: zt_ptr_array_get_idx read before the array for
 negative indices and for the last element of an empty array

---
 src/libzt/zt_ptr_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..82af5a4 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -183,10 +183,10 @@ void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
         /* return the last element */
-        return array->array[array->count - 1];
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From 477c6b220afc59167bfa543d8f85400dde8d4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 019/162] fix: zt_ptr_array_move_idx_to_idx accepted indices
 outside the array

---
 src/libzt/zt_ptr_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 82af5a4..8507e66 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
-- 
2.43.0


From 7d386f7eb8c73cd89cbc900459dbf97f75121f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 020/162] fix: zt_ptr_array_del always reported failure and
 skipped the element it moved into the gap

---
 src/libzt/zt_ptr_array.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 8507e66..f754363 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -95,15 +95,18 @@ zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_
 int
 zt_ptr_array_del(zt_ptr_array * array, void * data) {
     int32_t i;
+    int     res = -1;
 
     if (array == NULL || data == NULL) {
         return -1;
     }
 
-    for (i = 0; i < array->count; i++) {
+    /* backwards: the element moved into the gap has been looked at already */
+    for (i = array->count - 1; i >= 0; i--) {
         if (array->array[i] == data) {
             zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
             array->count--;
+            res = 0;
 
             if (array->free_cb) {
                 array->free_cb(data);
@@ -111,7 +114,7 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
         }
     }
 
-    return -1;
+    return res;
 }
 
 int
-- 
2.43.0


From 9aa4a8d54d34816190e5217c38ba46eb326135f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 021/162] fix: zt_ptr_array_resize detected size overflow with
 an expression that itself overflows, and accepted negative sizes

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index f754363..4a31f57 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || array->size > INT32_MAX - size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From 78b59837ca955b886631324ba6cdfca481af3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 022/162] fix: zt_mem_pool_release_free_pages (and a refused
 destroy) freed pages without counting them as freed

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..8d09fb0 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -319,7 +319,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -681,6 +680,7 @@ zt_mem_page_destroy(zt_mem_page *page)
 
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
+    page->parent_pool->page_frees++;
 
     size = sizeof(zt_mem_elt) + page->parent_pool->elt_size;
     elt = (zt_mem_elt *)page->data;
-- 
2.43.0


From e5076f36e1dc59b5ab6e40e43282097cb34a17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 023/162] fix: zt_mem_pool_alloc crashed instead of returning
 NULL when no page could be allocated

---
 src/libzt/zt_mem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 8d09fb0..a241a1d 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -265,7 +265,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
         /* alloc a new page */
         zt_mem_page *page;
         page = zt_mem_page_alloc(pool);
-        /*  */
+        if (page == NULL) {
+            return 0;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
-- 
2.43.0


From c823b9b7c9243787dc46a370c5f78fbc2ebc2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 024/162] fix: zt_mem_pool_init crashed or left a nameless pool
 when memory ran out

---
 src/libzt/zt_mem.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index a241a1d..9771723 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -214,6 +214,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
     zt_elist_reset(&pool->pool_list);
 
     pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if (pool->name == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -241,6 +245,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
         /* fill the cache */
         while (npages--) {
             page = zt_mem_page_alloc(pool);
+            if (page == NULL) {
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
-- 
2.43.0


From fc87ac79fea6c0703ba0158d81b62a6e7c744195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 025/162] fix: zt_mem_pool_group_alloc served requests from the
 first pool that fits instead of the closest in size

---
 src/libzt/zt_mem.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 9771723..3a3113c 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -586,14 +586,21 @@ zt_mem_pool_group_alloc(zt_mem_pool_group *group, size_t size)
     size_t    len;
     size_t    i;
 
+    zt_mem_pool * best = NULL;
+
     len = group->npools;
 
     for (i = 0; i < len; i++) {
-        if (size <= group->pools[i]->elt_size) {
-            return zt_mem_pool_alloc(group->pools[i]);
+        if (size <= group->pools[i]->elt_size &&
+            (best == NULL || group->pools[i]->elt_size < best->elt_size)) {
+            best = group->pools[i];
         }
     }
 
+    if (best != NULL) {
+        return zt_mem_pool_alloc(best);
+    }
+
     zt_assert(0);
 
     return NULL;                                           /* never reached if exceptions are enabled */
-- 
2.43.0


From 3ef597b2d898e0efcde28a27b18aaeb09e9bc982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 026/162] fix: zt_mem_pool_group_init leaked the group and its
 first pool, or underflowed its index, when a pool could not be created

---
 src/libzt/zt_mem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 3a3113c..abac788 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -570,9 +570,11 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i--) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
-- 
2.43.0


From c1cff4249e7c931c7841403b1edd99a1a9778693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 027/162] fix: a pool group described by a NULL terminated
 array kept NULL pools and crashed on use

---
 src/libzt/zt_mem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index abac788..d99a172 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -578,6 +578,7 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
             return 0;
         }
     }
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From b10959f54958a11ca4e7930d9d6e4fb7fed544ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 028/162] fix: zt_ez_mempool_destroy of a subpool cut all its
 siblings off the parent, which then leaked them

---
 src/libzt/zt_ez_mempool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..8277f61 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,15 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+
+        if (*link != NULL) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 1cc7bbed95e5b65bc0151177bb3a72d1ba164f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 029/162] fix: zt_ez_mempool_strdup of an empty string was
 refused by zt_ez_mempool_add_buffer and leaked

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index 8277f61..2e91d0c 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -132,7 +132,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From c47a5666d294a8ccf29083147726704daaf46773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 030/162] fix: zt_base_encode returned allocated text without
 the terminator its users (and the tests) rely on

---
 src/libzt/zt_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..804c37f 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -571,7 +571,7 @@ zt_base_encode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
     }
 
     if (out && outp == NULL && *out_bytes == 0) {
-        outp = zt_calloc(unsigned char, ocount);
+        outp = zt_calloc(unsigned char, ocount+1);
         *out = (void *)outp;
         *out_bytes = ocount;
     }
-- 
2.43.0


From 3d029b9695d05b71a2eed22d6fa54ef2b2a7fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 031/162] fix: zt_base_decode wrote through a NULL output
 pointer when the size was not 0

---
 src/libzt/zt_base.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 804c37f..34890e7 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -648,7 +648,8 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
     mod = ((in_bytes-i) % def->ogroups); /* partial inputs */
     ocount = (lcount * def->igroups) + mod; /* total output bytes */
 
-    if (out == NULL) {
+    /* if there is no output then return just the size */
+    if (out == NULL || (*out == NULL && *out_bytes != 0)) {
         *out_bytes = ocount;
         return 0;
     }
-- 
2.43.0


From 5ce4e967bfacfb138e4573c3fd51221ff1356cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 032/162] fix: base16 decoding silently dropped an odd trailing
 digit

---
 src/libzt/zt_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 34890e7..01ec8db 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -528,6 +528,10 @@ _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t byt
         }
     }
 
+    if (cnt > 0) {
+        result = -1;
+    }
+
     *out_bytes = obytes;
     return result;
 }
-- 
2.43.0


From 249d90da2ce3f4628afc8f231c58ee0c0bd72d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 033/162] fix: slices of an empty string held its terminator,
 so concatenations with an empty piece were cut short

---
 src/libzt/zt_cstr.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..4f49684 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -48,22 +48,18 @@
             }                             \
             zt_assert(i >= 0 && j < (ssize_t)len); \
         } else {                          \
+            /* the empty slice: there is nothing from i to j */ \
             i = 0;                        \
-            j = 0;                        \
+            j = -1;                       \
         }                                 \
 } while (0)
 
 /* #define IDXLEN(i, j) ((i) < (j) ? ((j) - (i)) + 1 : ((i) - (j)) + 1) */
 static INLINE size_t
 IDXLEN(ssize_t i, ssize_t j) {
-    ssize_t   r;
+    ssize_t   r = (j - i) + 1;
 
-    if (i < j) {
-        r = (j - i) + 1;
-    } else {
-        r = (i - j) + 1;
-    }
-    zt_assert(r > 0);
+    zt_assert(r >= 0);
     return (size_t)r;
 }
 
@@ -489,8 +485,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (; i <= j; i++) {
         if (s[i] != '\0' && strchr(set, s[i])) {
             return i;
@@ -513,8 +507,6 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (orig = i; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
             return j - orig;
-- 
2.43.0


From f72e6c9a491ef3a9dc6510642bd38dde7b9a3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 034/162] fix: slice positions before the start of the string
 read in front of it

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 4f49684..19d31d7 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -78,7 +78,10 @@ IDX(ssize_t i, size_t len) {
     ssize_t    r;
 
     if(i < 0) {
-        r = BASE(i+len, len);
+        r = i + (ssize_t)len;
+        if (r < 0) {
+            r = 0;
+        }
     } else {
         r = BASE(i, len);
     }
-- 
2.43.0


From f99cee620cc008d24aca1c2e60ac23de3bcabda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 035/162] fix: zt_cstr_pos of an empty string returned -1

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 19d31d7..012156d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -300,7 +300,7 @@ zt_cstr_pos(const char *s, ssize_t i) {
     zt_assert(s);
 
     len = strlen(s);
-    i   = (ssize_t)IDX(i, len);
+    i   = len > 0 ? IDX(i, len) : 0;
 
     zt_assert(i >= 0 && (size_t)i <= len);
     return (size_t)i;
-- 
2.43.0


From 20aab025daaff950b6a979a00b8eebc085ac6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 036/162] fix: zt_cstr_map turned the bytes 226 to 255 into
 NULs

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 012156d..a9a10c8 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -264,7 +264,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From 0d0412369ad3223f76242fb37d2138649319d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 037/162] fix: zt_cstr_cmp ignored the last character of slices
 of equal length

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index a9a10c8..5a8218a 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -339,7 +339,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From 9dcb69194e849b756f33c3c315250fe28348b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 038/162] fix: zt_cstr_chr/rchr never found characters above
 127

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 5a8218a..6485897 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -352,7 +352,7 @@ zt_cstr_chr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; i <= j; i++) {
-        if (s[i] == c) {
+        if (s[i] == (char)c) {
             return (size_t)i;
         }
     }
@@ -368,7 +368,7 @@ zt_cstr_rchr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; j >= i; j--) {
-        if (s[j] == c) {
+        if (s[j] == (char)c) {
             return j;
         }
     }
-- 
2.43.0


From 4d4f107655ec64551a31aa676a45c82da64f72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 039/162] fix: zt_cstr_rany returned positions relative to the
 slice, unlike all other searches

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6485897..e4f9cac 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -506,16 +506,14 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
     CONVERT(s, i, j);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From 939a01e2129fa6ef73ea16412c85d147c402ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 040/162] fix: zt_cstr_chomp of an empty string touched the
 byte before it

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e4f9cac..3a959c9 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -528,7 +528,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From 0621def7b7903f01e45ccb9f5090903a6996667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 041/162] fix: zt_cstr_strip appended a newline behind the
 string when there was one inside, and kept blank lines

---
 src/libzt/zt_cstr.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 3a959c9..edffef0 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -547,18 +547,16 @@ zt_cstr_strip(char *str) {
         len = strspn(str, WHITESPACE);
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
-        /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
+        /* strip whitespace from the end of the string, keeping one of its newlines */
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From bfa79bb46f35c766bcc44003c0c5ef21c725f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 042/162] fix: zt_cstr_rspn/rcspn never looked at the first
 character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index edffef0..abbea77 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -569,7 +569,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -585,7 +585,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From 9b0a42aac5992e37eb18fd76f8a414995f0b81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 043/162] fix: zt_cstr_path_append doubled the separator when
 one of the paths was only separators

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index abbea77..e0c39cd 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -665,16 +665,16 @@ zt_cstr_path_append(const char *path1, const char *path2) {
     len2    = strlen(path2);
     sep_len = strlen(PATH_SEPERATOR);
 
-    for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
+    for (y = (ssize_t)len1 - 1; y >= 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
         ;
     }
     for (x = 0; x < (ssize_t)len2 && strncmp(&path2[x], PATH_SEPERATOR, sep_len) == 0; x++) {
         ;
     }
 
-    rpath = zt_cstr_catv(path1, 0, y,
+    rpath = zt_cstr_catv(y < 0 ? "" : path1, 0, (int)y,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From c218f387c129bbbca2cc560faa5082fc751152db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 044/162] fix: zt_hexdump_str stopped at the first 0xff byte

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e0c39cd..b6fe01e 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -705,7 +705,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From fb866a32cc5cbe8e9b14253b1954df55e5165364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 045/162] fix: zt_hexdump dropped a last row of 15 bytes

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index b6fe01e..9ae2770 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -782,7 +782,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 08ce47cfc26b62de238ed78a42e6df923df5bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 046/162] fix: zt_binary_to_hex wrote behind buffers of odd
 size

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9ae2770..e2b6c00 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -802,7 +802,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From b16588fa66c5ddea36b7232f548a2a0c0fd75d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 047/162] fix: zt_hex_to_binary read behind text of odd length
 and did not report it as EINVAL

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e2b6c00..9cb0fc5 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -860,7 +860,8 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
             return 0;
         }
 
-        if ((c2 = hex_to_char(*hex++)) == -1) {
+        if (n + 1 >= hlen || (c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From 37eeee0d4ea49c6bed80f368a3c1e31808f18f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 048/162] fix: zt_cstr_tok read in front of an empty string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9cb0fc5..24f84bb 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -974,7 +974,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == (char)delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 407f137db429fd05d85a6a1d959ea92f3c7b430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 049/162] fix: zt_cstr_itoa wrote its terminator behind a
 buffer that was one byte too small

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 24f84bb..d0b7111 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1008,7 +1008,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From 7c56b04bbaa500657d842698ee3a9d3c39f1da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 050/162] fix: zt_cstr_basename of paths ending in a separator,
 with a suffix elsewhere or without the dot, or larger than the buffer

---
 src/libzt/zt_cstr.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d0b7111..8a97aba 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -597,28 +597,44 @@ char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    ssize_t   ps_len;
 
     zt_assert(npath);
     zt_assert(path);
 
+    if (len == 0) {
+        return npath;
+    }
     memset(npath, '\0', len);
 
-    if ((start = zt_cstr_rfind(path, 0, -1, PATH_SEPERATOR)) != -1) {
-        start = start + strlen(PATH_SEPERATOR);
-    } else {
+    /* separators at the end of the path are not part of the name */
+    ps_len = strlen(PATH_SEPERATOR);
+    end    = (ssize_t)strlen(path) - 1;
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, ps_len) == 0) {
+        end--;
+    }
+
+    start = end + 1;
+    while (start > 0 && strncmp(&path[start - 1], PATH_SEPERATOR, ps_len) != 0) {
+        start--;
+    }
+    if (start > end) {
+        /* there is nothing but separators */
         start = 0;
     }
 
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        ssize_t   s_len = strlen(suffix);
+
+        /* only what follows a name is a suffix */
+        if (s_len <= end - start && strncmp(&path[end + 1 - s_len], suffix, s_len) == 0) {
+            end -= s_len;
         }
-    } else {
-        end = -1;
     }
 
-    zt_cstr_copy(path, start, end, npath, len);
+    if (end >= start) {
+        zt_cstr_copy(path, start, end, npath, len - 1);
+    }
     return npath;
 }
 
-- 
2.43.0


From d888dfc3acafb3fdf8d72e7f515e64bc82ecb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 051/162] fix: zt_cstr_dirname of names in the root directory,
 of paths with repeated separators, and of paths larger than the buffer

---
 src/libzt/zt_cstr.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 8a97aba..f7d6374 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -647,23 +647,30 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
     zt_assert(npath);
     zt_assert(path);
 
+    if (len == 0) {
+        return npath;
+    }
     memset(npath, '\0', len);
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
-        end = end - ps_len;
+    end    = (ssize_t)strlen(path) - 1;
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, ps_len) == 0) {
+        end--;
     }
 
     if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
-        zt_cstr_copy(".", 0, -1, npath, len);
+        zt_cstr_copy(".", 0, -1, npath, len - 1);
         return npath;
-    } else {
-        end = end - 1;
     }
 
-    zt_cstr_copy(path, 0, end, npath, len);
+    /* the separators in front of the name, unless they are all there is */
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, ps_len) == 0) {
+        end--;
+    }
+
+    zt_cstr_copy(path, 0, end, npath, len - 1);
     return npath;
 }
 
-- 
2.43.0


From 7e1d4fafec5f474c61dcf213a0b0b688958e314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 052/162] fix: zt_time called the function it times once more
 than requested

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From 1b54e5768c173c3e6441ef7e39edb7b3b6b91c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 053/162] fix: checked unsigned subtraction refused the
 difference of equal numbers

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..cf21c14 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                                \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From 488f2c6afe82a628273048f9ce953700e38192f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 054/162] fix: checked signed division of two negative numbers
 refused every divisor but -1

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index cf21c14..c8fdaf5 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From 91a8f8deba1bacdfed99fd5d2d64d9049762cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 055/162] fix: headers did not compile with assertions enabled
 when zt_log.h came first

---
 src/libzt/zt_log.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index edcfaa4..80d33f8 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -14,6 +14,14 @@
 #define _ZT_LOG_H_
 
 #include <stdarg.h>
+
+/* the assertions of the headers below use it */
+#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
+# define ZT_LOG_FUNCTION __FUNCTION__
+#else
+# define ZT_LOG_FUNCTION ""
+#endif
+
 #include <zt.h>
 
 #define ZT_LOG_RAW           0
@@ -24,11 +32,6 @@
 #define ZT_LOG_WITH_PID      16
 #define ZT_LOG_EMU_SYSLOG    (ZT_LOG_WITH_DATE | ZT_LOG_WITH_SYSNAME | ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID)
 
-#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
-# define ZT_LOG_FUNCTION __FUNCTION__
-#else
-# define ZT_LOG_FUNCTION ""
-#endif
 BEGIN_C_DECLS
 
 enum zt_log_level {
-- 
2.43.0


From 16a9e50762606fcdb441ae2093d2163866cf2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 056/162] fix: the formatter returned the sum of the character
 codes instead of their number

---
 src/libzt/zt_format.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..4cb3d2e 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -16,7 +16,8 @@ struct zt_fmt_obuf {
     do {                          \
         ssize_t    nn = (n);      \
         while (nn-- > 0) {        \
-            tlen += put((c), cl); \
+            put((c), cl);         \
+            tlen++;               \
         }                         \
     } while (0)
 
@@ -211,7 +212,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
         /* both % and ~ are control chars */
         if ((*fmt != '%' && *fmt != '~') ||
             (++fmt && (*fmt == '%' || *fmt == '~'))) {
-            tlen += put((unsigned char)*fmt++, cl);
+            put((unsigned char)*fmt++, cl);
+            tlen++;
         } else {
             unsigned char c, flags[256];
             ssize_t       width = INT_MIN;
@@ -322,7 +324,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
     do {                                            \
         size_t    i;                                \
         for (i = 0; i < len; i++) {                 \
-            tlen += put((unsigned char)*str++, cl); \
+            put((unsigned char)*str++, cl);         \
+            tlen++;                                 \
         }                                           \
     } while (0)
 
@@ -401,16 +404,19 @@ zt_fmt_putd(const char *str, size_t len,
 
     if (flags['-']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
     } else if (flags['0']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, '0', tlen);
     } else {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, ' ', tlen);
     }
@@ -465,7 +471,8 @@ cvt_c(int code UNUSED, void * value,
     if (!flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-    tlen += put(c, cl);
+    put((unsigned char)c, cl);
+    tlen++;
     if (flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-- 
2.43.0


From 136355095f5ceb08c50b657aaadbb94bcdb96d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 057/162] fix: left justified strings were not padded

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 4cb3d2e..25324e3 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -354,6 +354,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - (ssize_t)len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From 90a6f9965153e37a979197a4551125b569531638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 058/162] fix: blanks padding a number were put between its
 sign and its digits

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 25324e3..eb83568 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -418,11 +418,11 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             put(sign, cl);
             tlen++;
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From c246b6854d0364cf97a00e33efd31aba438886af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 059/162] fix: a zero formatted with precision 0 was wider than
 its field

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index eb83568..1ca1ed9 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -397,7 +397,7 @@ zt_fmt_putd(const char *str, size_t len,
     } else if (precision == 0 &&
                len == 1 &&
                str[0] == '0') {
-        n = 0;
+        n = len = 0;
     } else {
         n = len;
     }
-- 
2.43.0


From f1a7d35d8d023bf19c3e14cd575d98c0c94d645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 060/162] fix: the + flag was ignored and the blank flag
 applied to unsigned conversions

---
 src/libzt/zt_format.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 1ca1ed9..648bfa8 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -381,6 +381,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
@@ -553,6 +555,8 @@ cvt_o(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
+    flags['+'] = flags[' '] = 0; /* these are for signed numbers */
+
     do {
         *--p = (m & 0x7) + '0';
     } while ((m >>= 3) != 0);
@@ -572,6 +576,8 @@ cvt_p(int code UNUSED, void * value,
 
     precision = INT_MIN;
 
+    flags['+'] = flags[' '] = 0; /* these are for signed numbers */
+
     do {
         *--p = "0123456789abcdef"[m & 0xf];
     } while ((m >>= 4) != 0);
@@ -621,6 +627,8 @@ cvt_u(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
+    flags['+'] = flags[' '] = 0; /* these are for signed numbers */
+
     do {
         *--p = m % 10 + '0';
     } while ((m /= 10) > 0);
@@ -639,6 +647,8 @@ cvt_x(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
+    flags['+'] = flags[' '] = 0; /* these are for signed numbers */
+
     do {
         *--p = "0123456789abcdef"[m & 0xf];
     } while ((m >>= 4) != 0);
-- 
2.43.0


From 922d713d456e8b37bc1e059cc02e34214e809dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 061/162] fix: INT_MAX was formatted as 2147483648

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 648bfa8..25b1da5 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -497,7 +497,7 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
+    if (val == INT_MIN) {
         m = INT_MAX + 1U; /* -1 */
     } else if (val < 0) {
         m = -val;
-- 
2.43.0


From 2ba23b371731d29a9da20d23b83ab8debd481e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 062/162] fix: formatting a large negative double overran its
 buffer, and the format was shared by all threads

---
 src/libzt/zt_format.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 25b1da5..58220d0 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -498,7 +498,7 @@ cvt_d(int code UNUSED, void * value,
     char       * p = buf + sizeof(buf);
 
     if (val == INT_MIN) {
-        m = INT_MAX + 1U; /* -1 */
+        m = INT_MAX + 1U;
     } else if (val < 0) {
         m = -val;
     } else {
@@ -523,8 +523,9 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    /* sign, digits, point, decimals, NUL */
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
-- 
2.43.0


From 8498aa96f5ed4067b0de5dfbc3cd6e339d9028fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 063/162] fix: the precision of a double was applied to its
 digits again, as leading zeros

---
 src/libzt/zt_format.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 58220d0..3ef79e7 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -542,8 +542,14 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    if (!isdigit((unsigned char)buf[strlen(buf) - 1])) {
+        /* infinities and NaNs have no leading zeros */
+        flags['0'] = 0;
+    }
+
+    /* the digits are complete, the precision does not add any */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From 964567c662466a8db00ca0e7087e72d11f3fe253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 064/162] fix: a precision without digits was ignored instead
 of being 0

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 3ef79e7..6368e69 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -245,9 +245,9 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
                 width = n;
             }
 
-            if (*fmt == '.' &&
-                (*++fmt == '*' || isdigit(*fmt))) {
+            if (*fmt == '.') {
                 int n;
+                fmt++;
                 if (*fmt == '*') {
                     n = va_arg(ap, int);
                     zt_assert(n != INT_MIN);
-- 
2.43.0


From 0aec294a64ee2aba775d2ec1dd4b4efecbe6370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 065/162] fix: zt_fmt_sprintf wrote past the end of a buffer
 too small for the text

---
 src/libzt/zt_format.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 6368e69..2504cc5 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -168,8 +168,10 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     cl.size = size;
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
-    zt_fmt_insert(0, &cl);
-    return cl.bp - cl.buf - 1;
+    if (size > 0) {
+        *cl.bp = '\0';
+    }
+    return cl.bp - cl.buf;
 }
 
 char * zt_fmt_strprintf(const char *fmt, ...)
@@ -669,12 +671,10 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
-
-    *p->bp++ = c;
+    /* what does not fit is dropped, the last place is for the NUL */
+    if (p->bp + 1 < p->buf + p->size) {
+        *p->bp++ = c;
+    }
     return c;
 }
 
-- 
2.43.0


From bac4e94d433e0edf1047ad5dee601e1a4d8c170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 066/162] fix: formatting a string with a precision read past
 the characters it was allowed to

---
 src/libzt/zt_format.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 2504cc5..f873b15 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -623,7 +623,16 @@ cvt_s(int code UNUSED, void * value,
         }
     }
 
-    return zt_fmt_puts(str, strlen(str), put, cl, flags, width, precision);
+    if (precision >= 0) {
+        /* a string that is long enough need not be terminated */
+        const char * end = memchr(str, '\0', precision);
+
+        lstr = end ? (size_t)(end - str) : (size_t)precision;
+    } else {
+        lstr = strlen(str);
+    }
+
+    return zt_fmt_puts(str, lstr, put, cl, flags, width, precision);
 }
 
 static size_t
-- 
2.43.0


From 2c84162c6dd10c06af10d683f9f88dce65a1f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 067/162] fix: zt_ipv4_str2net read behind short text, and took
 invalid addresses and prefix lengths (negative ones indexed the mask table)

---
 src/libzt/zt_ipv4_tbl.c | 54 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..0b16be9 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -332,48 +332,54 @@ zt_ipv4_int2ip(uint32_t addr)
 int
 zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
 {
-    char *save;
-    char *str_cp;
-    char *cp;
-    int   bitlen = 32;
+    char        save[MAXLINE];
+    const char *cp;
+    size_t      len;
+    long        bitlen = 32;
+    uint32_t    addr;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
     }
 
-    if (!(str_cp = strdup(str))) {
-        return -1;
-    }
-
-    if (!(save = calloc(MAXLINE, 1))) {
-        free(str_cp);
-        return -1;
-    }
+    if ((cp = strchr(str, '/')) != NULL) {
+        char *end;
 
-    if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        len = cp - str;
 
-        if ((cp - str_cp) > MAXLINE - 1) {
-            free(save);
-            free(str_cp);
+        if (cp[1] < '0' || cp[1] > '9') {
             return -1;
         }
 
-        memcpy(save, str, cp - str_cp);
+        bitlen = strtol(cp + 1, &end, 10);
+
+        if (*end != '\0') {
+            return -1;
+        }
     } else {
-        bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        len = strlen(str);
+    }
+
+    if (len > MAXLINE - 1) {
+        return -1;
     }
 
+    memcpy(save, str, len);
+    save[len] = '\0';
+
     if (bitlen > 32) {
         bitlen = 32;
     }
 
-    *outaddr = ntohl(inet_addr(save));
-    *outbitlen = bitlen;
+    addr = inet_addr(save);
+
+    /* (uint32_t)-1 is both the broadcast address and how inet_addr reports errors */
+    if (addr == (uint32_t)-1 && strcmp(save, "255.255.255.255") != 0) {
+        return -1;
+    }
 
-    free(save);
-    free(str_cp);
+    *outaddr = ntohl(addr);
+    *outbitlen = (int)bitlen;
 
     return 0;
 } /* zt_ipv4_str2net */
-- 
2.43.0


From 6c78747dbca0c0920b6e7e2c85af96db4c170d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 068/162] fix: zt_ipv4_tbl_search_node ran past the list of
 prefix lengths when all of them were used

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 0b16be9..cbd3fbc 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -261,7 +261,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From e5e20861d6d27214a3e2765f3133ecd61d7e4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 069/162] fix: every search leaked the address of its query,
 every invalid network a node

---
 src/libzt/zt_ipv4_tbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index cbd3fbc..d2c90ff 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -115,6 +115,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -304,6 +305,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From e3e15e7b99ef42350f70b2f224a3e29acfdc36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 070/162] fix: ipv4 tables took their hash arrays from the pool
 of the first table, whatever its size, and destroying a table released
 nothing

---
 src/libzt/zt_ipv4_tbl.c | 68 +++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index d2c90ff..d43bb1e 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -14,15 +14,49 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+/*
+ * nodes and addresses are made without naming a table, so all tables
+ * take them from the same pools, which go with the last table
+ */
+static zt_mem_pool_group *shared_pools = NULL;
+static size_t             shared_users = 0;
+
+static void
+release_nodes(zt_ipv4_node *node)
+{
+    while (node) {
+        zt_ipv4_node *next = node->next;
+
+        zt_mem_pool_release((void **)&node->addr);
+        zt_mem_pool_release((void **)&node);
+        node = next;
+    }
+}
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
+    int      i;
+    uint32_t key;
+
     if (!tbl) {
         return;
     }
 
-    if (tbl->pools) {
-        zt_mem_pool_group_destroy(tbl->pools);
+    for (i = 0; i < 32; i++) {
+        if (tbl->tbl[i]) {
+            for (key = 0; key < tbl->sz; key++) {
+                release_nodes(tbl->tbl[i][key]);
+            }
+            free(tbl->tbl[i]);
+        }
+    }
+
+    release_nodes(tbl->any);
+
+    if (tbl->pools && --shared_users == 0) {
+        zt_mem_pool_group_destroy(shared_pools);
+        shared_pools = NULL;
     }
 
     free(tbl);
@@ -33,30 +67,30 @@ zt_ipv4_tbl_init(uint32_t size)
 {
     zt_ipv4_tbl             * tbl;
     uint32_t                  rsize = size ? size : 128;
-    static zt_mem_pool_desc   pools[4];
+    zt_mem_pool_desc          pools[3];
 
     memset(pools, 0, sizeof(pools));
 
-    pools[0].name = "zt_ipv4_node_hash";
+    pools[0].name = "zt_ipv4_node";
     pools[0].elts = 1;
-    pools[0].size = sizeof(zt_ipv4_node *) * rsize;
+    pools[0].size = sizeof(zt_ipv4_node);
 
-    pools[1].name = "zt_ipv4_node";
+    pools[1].name = "zt_ipv4_addr";
     pools[1].elts = 1;
-    pools[1].size = sizeof(zt_ipv4_node);
-
-    pools[2].name = "zt_ipv4_addr";
-    pools[2].elts = 1;
-    pools[2].size = sizeof(zt_ipv4_addr);
+    pools[1].size = sizeof(zt_ipv4_addr);
 
     if (!(tbl = calloc(sizeof(zt_ipv4_tbl), 1))) {
         return NULL;
     }
 
-    if (!(tbl->pools = zt_mem_pool_group_init(pools, 3))) {
+    if (!shared_pools && !(shared_pools = zt_mem_pool_group_init(pools, 2))) {
+        free(tbl);
         return NULL;
     }
 
+    tbl->pools = shared_pools;
+    shared_users++;
+
     tbl->sz = rsize;
     return tbl;
 }
@@ -129,7 +163,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -143,26 +176,21 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         /*
          * this is a 0.0.0.0/0 network, set the any to this node
          */
+        node->next = tbl->any;
         tbl->any = node;
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = calloc(tbl->sz, sizeof(zt_ipv4_node *)))) {
             return -1;
         }
 
-        memset(hash_entry, 0, sizeof(zt_ipv4_node *) * tbl->sz);
-
         tbl->tbl[blen] = hash_entry;
     }
 
-- 
2.43.0


From 739bb7c4683c5d77b4cf0f7b89f990d42a221c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 071/162] fix: zt_gc_unregister of the value an incremental
 scan stopped at left the scan pointing at it

---
 src/libzt/zt_gc.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..accead0 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -75,6 +75,19 @@ static int is_protected(zt_gc_collectable_t *mark)
     return ZT_BIT_ISSET(mark->colour, protected);
 }
 
+/*
+ * take a value off whichever list it is on; if a scan that is under way
+ * stopped at this value it goes on with the one behind it
+ */
+static void
+detach(zt_gc_t *gc, zt_gc_collectable_t *mark)
+{
+    if (gc->scan == &mark->list) {
+        gc->scan = mark->list.next;
+    }
+    zt_elist_remove(&mark->list);
+}
+
 void
 zt_gc_protect(zt_gc_t *gc, void *value)
 {
@@ -233,11 +246,11 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
-    zt_elist_remove(&mark->list);
+    detach(gc, mark);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
         zt_gc_collect(gc, 0);
-- 
2.43.0


From 30638fdb93efaa8dcfb06cc5c517c85dc7adce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 072/162] fix: zt_gc_mark of the value an incremental scan
 stopped at made the scan skip all others

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index accead0..61cdb22 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -409,7 +409,7 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
+        detach(gc, mark);
         zt_elist_add_tail(gc->grey, &mark->list);
         return TRUE;
     }
-- 
2.43.0


From 694868f16ac97799b70b68086d2a5b01ed2da388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 073/162] fix: zt_gc_protect during an incremental scan put the
 value behind the scan, so what it refers to was released

---
 src/libzt/zt_gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 61cdb22..559609d 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -96,8 +96,9 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    detach(gc, mark);
+    /* at the end, so that a scan that is under way still gets to see it */
+    zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 8ca7687ff8f0c4c91ffaa80bdc626702e9e40790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 074/162] fix: zt_gc_destroy leaked the collector

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 559609d..44b2830 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -235,7 +235,7 @@ zt_gc_destroy(zt_gc_t *gc)
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
 
-    gc->enabled = 1;
+    zt_free(gc);
 }
 
 void
-- 
2.43.0


From 8742c8d02900b73cd8b210e9414de98ade693217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 075/162] fix: a configuration file with an unterminated or
 overlong block name crashed or was accepted

---
 src/libzt/zt_cfg/cfg_ini.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..7f43d07 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -77,7 +77,7 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
     zt_assert(file);
     zt_assert(bvv);
 
-    while (((c = fgetc(file)) != EOF) && (i < BUFMAX)) {
+    while (((c = fgetc(file)) != EOF) && (i < BUFMAX - 1)) {
         if (c == ']') {
             break;
         }
@@ -85,8 +85,8 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
         i++;
     }
 
-    if (i >= BUFMAX) {
-        /* errno = EOVERFLOW; */
+    if (c != ']') {
+        /* errno = EOVERFLOW or EPROTO; */
         return -1;
     }
 
@@ -189,7 +189,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From 9dd09da87f066c5f042aca1bf3b161b8697ada8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 076/162] fix: everything read from a configuration file was
 leaked when it was rejected

---
 src/libzt/zt_cfg/cfg_ini.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 7f43d07..5f9979f 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -191,6 +190,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 }
                 if (parse_block(file, &bvv) < 0) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_discard_line(file);
@@ -211,6 +211,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From 587e935beb596ed4f398cb8b3bfe0450b6f36ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 077/162] fix: overriding a string in a configuration leaked it

---
 src/libzt/zt_cfg/cfg_private.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..e3978ce 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -180,6 +180,9 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     if (value->v.s != NULL) {
         value->altered = 1;
     }
+    if (value->type == zt_cfg_string) {
+        free(value->v.s);
+    }
 
     value->type = get_type(bvv->value, &value->v);
 
-- 
2.43.0


From 37b9b773dc01e01d58269857233abcd116dbd061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 078/162] fix: reading a configuration variable that refers to
 itself never returned

---
 src/libzt/zt_cfg/cfg_private.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index e3978ce..9adee98 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -254,6 +254,8 @@ zt_cfg_priv_get(zt_cfg_ty *cfg, char *block_name,
 {
     struct zt_cfg_block_ty* block = NULL;
     struct zt_cfg_value_ty* value = NULL;
+    struct zt_cfg_value_ty* slow = NULL;
+    int                     step = 0;
 
     block = get_block(cfg->head, block_name);
     if (!block) {
@@ -267,8 +269,15 @@ zt_cfg_priv_get(zt_cfg_ty *cfg, char *block_name,
     }
 
 
+    slow = value;
     while (value->type == zt_cfg_ref) {
         value = value->v.r;
+        if (value == slow) {
+            return -1; /* the references form a cycle */
+        }
+        if (step ^= 1) {
+            slow = slow->v.r;
+        }
     }
 
     if (value->type != type) {
-- 
2.43.0


From 1a4d2c01a69efc8d5d77a39c4f718818f1d7d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 079/162] fix: zt_cfg_set of a float kept only six decimals

---
 src/libzt/zt_cfg/cfg_private.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 9adee98..3f694a8 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -224,7 +224,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             snprintf(bvv.value, BUFMAX, "%ld", *(long *)var);
             break;
         case zt_cfg_float:
-            snprintf(bvv.value, BUFMAX, "%f", *(double *)var);
+            snprintf(bvv.value, BUFMAX, "%#.17g", *(double *)var);
             break;
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
-- 
2.43.0


From a5a77db336b66bb94c66ef1cb64b04a14c639243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 080/162] fix: zt_cfg_set cut strings after 1023 characters

---
 src/libzt/zt_cfg/cfg_private.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 3f694a8..db98deb 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -233,7 +233,8 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             }
         /* FALLTHRU */
         case zt_cfg_string:
-            snprintf(bvv.value, BUFMAX, "%s", *(char **)var);
+            free(bvv.value);
+            bvv.value = strdup(*(char **)var);
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-- 
2.43.0


From fc49ef035597bf4bc28b5102364db0738d21744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 081/162] fix: a refused zt_cfg_set leaked

---
 src/libzt/zt_cfg/cfg_private.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index db98deb..2902044 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -229,7 +229,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
-                return -1;
+                goto invalid;
             }
         /* FALLTHRU */
         case zt_cfg_string:
@@ -238,7 +238,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-            return -1;
+            goto invalid;
     }
 
     cfg_insert_bvv(cfg, &bvv);
@@ -247,6 +247,12 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
     free(bvv.variable);
     free(bvv.value);
     return 1;
+
+invalid:
+    free(bvv.block);
+    free(bvv.variable);
+    free(bvv.value);
+    return -1;
 }
 
 int
-- 
2.43.0


From 49c9b4f4731800a79ccf116c28ffcd6ed332e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 082/162] fix: configuration strings lost their last character
 when they had no closing quote

---
 src/libzt/zt_cfg/cfg_private.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 2902044..0f3db26 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -155,11 +155,13 @@ get_type(char* value, void* nvalue)
     if (value[0] == '\'' || value[0] == '\"') {
         size_t    len = strlen(&value[1]);
 
-        if (value[len] != '\'' || value[len] != '\"') {
-            /* error  */
+        if (len > 0 && value[len] == value[0]) {
+            value[len] = '\0';
+            *(char **)nvalue = strdup(&value[1]);
+        } else {
+            /* no closing quote */
+            *(char **)nvalue = strdup(value);
         }
-        value[len] = '\0';
-        *(char **)nvalue = strdup(&value[1]);
     } else {
         *(char **)nvalue = strdup(value);
     }
-- 
2.43.0


From d4fcd36626764c8b16fcb5964c6b8d2c033a1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 083/162] fix: quoted configuration strings were cut at ; and #

---
 src/libzt/zt_cfg/cfg_ini.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 5f9979f..67a6d0c 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -140,6 +140,14 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     vallen = strlen(val);
 
     for (i = 0; i < vallen; i++) {
+        if ((i == 0) && ((val[i] == '\'') || (val[i] == '"'))) {
+            /* the text between quotes is not a comment */
+            tok = strchr(val + 1, val[i]);
+            if (tok != NULL) {
+                i = tok - val;
+                continue;
+            }
+        }
         if ((val[i] == ';') || (val[i] == '#')) {
             val[i] = '\0';
             break;
-- 
2.43.0


From cbb3fe9126b5c6615c2a79bc9c952c023795c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 084/162] fix: stripping an empty configuration value wrote in
 front of it

---
 src/libzt/zt_cfg/cfg_ini.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 67a6d0c..d3ebdb0 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -156,12 +156,8 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
 
     vallen = strlen(val);
     /* strip trailing whitespace */
-    for (i = vallen - 1; i > 0; i--) {
-        if ((val[i] == ' ') || (val[i] == '\t')) {
-            val[i] = '\0';
-        } else {
-            break;
-        }
+    while ((vallen > 0) && ((val[vallen - 1] == ' ') || (val[vallen - 1] == '\t'))) {
+        val[--vallen] = '\0';
     }
 
     if (val >= buff + len) {
-- 
2.43.0


From e5255bf825e2cf64038a84f533ce21ba7d7f706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 085/162] fix: a one character value at the end of a
 configuration file without a final newline was refused

---
 src/libzt/zt_cfg/cfg_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index d3ebdb0..a94ea1a 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -128,6 +128,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;
     }
 
     val++;    /* val points to the beginning of value + any white space*/
-- 
2.43.0


From 6151511b2b7b541d0c6dd9bc4492dec2ce94ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 086/162] fix: values of options inside a word of short options
 were taken from the wrong place, treated as options themselves, or crashed
 for options without a long name

---
 src/libzt/zt_opts.c | 52 +++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..08475af 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,44 +85,35 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* set when the rest of a word of short options was taken as a value */
+static int value_attached = 0;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
-    char * p      = argv[argn];
-    char * pp     = NULL;
+    char * word   = argv[argn];
+    char * p      = NULL;
     char * result = NULL;
-    char * lopt   = def[defn].lopt;
 
     *args_consumed = 0;
 
-    /* skip past any leading '-' */
-    while(*p == '-') { p++; }
-
-    pp = p;
-    do {
-        if (*pp == '=') {
-            result = ++pp;
-            break;
+    if (word[0] == '-' && word[1] == '-') {
+        /* long opt, the value may follow an '=' */
+        if ((p = strchr(word, '=')) != NULL) {
+            result = p + 1;
         }
-    } while (*pp++);
-
-    if (!result) {
-        pp = p;
-        /* there was no '=' embedded
-         * try matching the long opt name
+    } else if ((p = strchr(word, def[defn].sopt)) != NULL && p[1] != '\0') {
+        /* short opt, whatever is behind it (and an optional '=') in
+         * the word is its value
          */
-        if (strcmp(lopt, pp) == 0) {
-            result = argv[argn + 1]; /* default to the next option */
-            *args_consumed = 1;
-        } else {
-            /* short opt */
-            pp++;
-            if(*pp) {
-                result = pp;
-            } else {
-                result = argv[argn + 1];
-                *args_consumed = 1;
-            }
+        result = p + 1;
+        if (*result == '=') {
+            result++;
         }
+        value_attached = 1;
+    }
+
+    if (!result && (result = argv[argn + 1]) != NULL) {
+        *args_consumed = 1; /* default to the next option */
     }
 
     if (!result) {
@@ -494,6 +485,7 @@ AGAIN:
                     int consumed = 0;
 
                     found = 1;
+                    value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -503,7 +495,7 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !long_opt && !value_attached && *(++p)) {
                         /* if we did not consume extra args AND
                          * we are a short option AND
                          * there are more short options to consume
-- 
2.43.0


From 81c1638cd9e8c57edd61d02c04398af085079627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 087/162] fix: unknown options behind another short option were
 ignored

---
 src/libzt/zt_opts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 08475af..6bd303d 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -500,6 +500,7 @@ AGAIN:
                          * we are a short option AND
                          * there are more short options to consume
                          */
+                        found = 0;
                         goto AGAIN;
                     }
 
-- 
2.43.0


From e436fee6b0960cb58ac31a1dc602ef929e198e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 088/162] fix: an option without its value crashed when the
 error callback returned

---
 src/libzt/zt_opts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 6bd303d..7e71df7 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -136,6 +136,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -165,6 +169,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -192,6 +200,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 8a56c5f67b773118a49420616c24d4f8eafb8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 089/162] fix: an empty value was taken for the number 0

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 7e71df7..6502d45 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -148,7 +148,7 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
@@ -181,7 +181,7 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
-- 
2.43.0


From acb1f6072c5b6c0ded41c893e39f196cff1727f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 090/162] fix: zt_opt_int was declared but missing

---
 src/libzt/zt_opts.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 6502d45..c668026 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -193,6 +193,41 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     return args_consumed;
 }
 
+int
+zt_opt_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
+    long   result;
+    char * end = NULL;
+    int    args_consumed = 0;
+    char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
+
+    if (!arg) {
+        return 0;
+    }
+
+    errno  = 0;
+    result = strtol(arg, &end, 0);
+
+    if (!errno && (result < INT_MIN || result > INT_MAX)) {
+        errno = ERANGE;
+    }
+
+    if (errno) {
+        /* check errno */
+        error(errno, "invalid number '%s'", arg);
+    }
+
+    if (end == arg || *end) {
+        /* invalid character */
+        error(EINVAL, "'%s' is not a number", arg);
+    }
+
+    if (def[defn].cb_data) {
+        *(int *)def[defn].cb_data = (int)result;
+    }
+
+    return args_consumed;
+}
+
 int
 zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
     int    result;
-- 
2.43.0


From ef473db164d0e814e3436b5d80343f51126f9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 091/162] fix: help texts with a word longer than a line made
 the line breaking run off the text

---
 src/libzt/zt_opts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index c668026..2ad79fb 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -384,9 +384,14 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width > 0 && def->help[offt+width] != ' ' && def->help[offt+width] != '\0') {
                         width--;
                     }
+
+                    if (width == 0) {
+                        // a word longer than the line
+                        width = strcspn(&def->help[offt], " ");
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From 015274ff8e7a5f03fa6ee3cf2136b233ccea3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 092/162] fix: zt_uuid_fillstr aborted for base62 buffers
 larger than necessary (with assertions enabled)

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..8f731f0 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -190,7 +190,7 @@ _zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t uuids_size, zt_uuid_flags_
         int      ok2 = 0;
 
         /* extract the 2 64 bit numbers in the uuid */
-        zt_assert(uuids_size <= UUID_BASE62_STR_LEN + 1);
+        zt_assert(uuids_size >= UUID_BASE62_STR_LEN + 1);
 
         for (i = 0; i < 8; i++) {
             const int shift = (7 - i) * 8;
-- 
2.43.0


From 3e1b465f04f82c908cc1d1f19062bceadb503bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 093/162] fix: zt_uuid_fromstr accepted text that is not a
 UUID, with indeterminate result, and read past short base62 text

---
 src/libzt/zt_uuid.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 8f731f0..296e8a0 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -337,11 +337,11 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     zt_assert(uuidstr);
     zt_assert(uuid);
 
+    if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+        return -1;
+    }
 
     if (flags == zt_uuid_std_fmt) {
-        if (strlen(uuidstr) != UUID_STR_LEN) {
-            return -1;
-        }
         sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
                uuid_hex,
                &uuid_hex[8],
@@ -350,9 +350,6 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
                &uuid_hex[20]);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if (flags == zt_uuid_short_fmt) {
-        if (strlen(uuidstr) != UUID_SHORT_STR_LEN) {
-            return -1;
-        }
         memcpy(uuid_hex, uuidstr, UUID_SHORT_STR_LEN);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
-- 
2.43.0


From d7533861dabce532427145afe0eec8b9d9b0d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 094/162] fix: base62 text of numbers larger than 64 bits was
 accepted as some other UUID

---
 src/libzt/zt_uuid.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 296e8a0..eaf9e23 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -522,7 +522,11 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* not a 64 bit number */
+        }
+
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From befa6bbdf01ecd2bbe7c32d63f056ed7f8b1edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 095/162] fix: zt_uuid_isvalid accepted base62 text of numbers
 larger than 64 bits

---
 src/libzt/zt_uuid.c | 48 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index eaf9e23..970580e 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -330,6 +330,24 @@ zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t* uuids_size, zt_uuid_flags_
     return _zt_uuid_fillstr(uuid, uuids, *uuids_size, flags);
 } /* zt_uuid_fillstr */
 
+static int
+base62_decode_uuid(const char * uuidstr, zt_uuid_flags_t flags, uint64_t * v1, uint64_t * v2) {
+    char t_uuidstr[_UUID_BASE62_SEGMENT];
+    int  i;
+    int  x;
+
+    /*  reverse the first _UUID_BASE62_SEGMENT bytes to move the less truncated bits forward */
+    for (x = 0, i = _UUID_BASE62_SEGMENT - 1; i >= 0; i--, x++) {
+        t_uuidstr[x] = uuidstr[flags == zt_uuid_base62_hashable_fmt ? i : x];
+    }
+
+    if (base62_decode_int64(t_uuidstr, _UUID_BASE62_SEGMENT, v1) != 0) {
+        return -1;
+    }
+
+    return base62_decode_int64(uuidstr + _UUID_BASE62_SEGMENT, UUID_BASE62_STR_LEN, v2);
+}
+
 int
 zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     char uuid_hex[UUID_SHORT_STR_LEN + 1]; /* +1 for sscanf */
@@ -356,26 +374,8 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
         uint64_t v1 = 0;
         uint64_t v2 = 0;
         int       i;
-        int       x;
-        int       ok1;
-
-        /*  reverse the first _UUID_BASE62_SEGMENT bytes to move the less truncated bits forward */
-        if (flags == zt_uuid_base62_hashable_fmt) {
-            char      t_uuidstr[_UUID_BASE62_SEGMENT];
 
-            for (x = 0, i = _UUID_BASE62_SEGMENT-1; i >= 0; i--, x++) {
-                t_uuidstr[x] = uuidstr[i];
-            }
-            ok1 = base62_decode_int64(t_uuidstr, _UUID_BASE62_SEGMENT, &v1);
-        } else {
-            ok1 = base62_decode_int64(uuidstr, _UUID_BASE62_SEGMENT, &v1);
-        }
-
-        if (ok1 != 0) {
-            return -1;
-        }
-
-        if (base62_decode_int64(uuidstr + _UUID_BASE62_SEGMENT, UUID_BASE62_STR_LEN, &v2) != 0) {
+        if (base62_decode_uuid(uuidstr, flags, &v1, &v2) != 0) {
             return -1;
         }
 
@@ -402,8 +402,10 @@ zt_uuid_cmp(zt_uuid_t * uuid, zt_uuid_t * uuid2) {
 
 int
 zt_uuid_isvalid(char * uuid, zt_uuid_flags_t flags) {
-    size_t len;
-    size_t i;
+    size_t   len;
+    size_t   i;
+    uint64_t v1;
+    uint64_t v2;
 
     if (uuid == NULL) {
         return -1;
@@ -466,6 +468,10 @@ zt_uuid_isvalid(char * uuid, zt_uuid_flags_t flags) {
         }
     }
 
+    if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
+        return base62_decode_uuid(uuid, flags, &v1, &v2);
+    }
+
     return 0;
 } /* zt_uuid_isvalid */
 
-- 
2.43.0


From e63a2c08ddf41a3dd5a233ac5e9c020d643d33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 096/162] fix: SHA-1 overwrote (and read misaligned) whole
 blocks of the caller's data

---
 src/libzt/zt_sha1.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..4bc4dcf 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -27,7 +27,7 @@ union CHAR64LONG16 {
 
 #define rol(value, bits) (((value) << (bits)) | ((value) >> (32 - (bits))))
 
-static void _sha1_transform(uint32_t state[5], uint8_t buffer[64]);
+static void _sha1_transform(uint32_t state[5], const uint8_t buffer[64]);
 
 #if HOST_BIGENDIAN
 # define blk0(i) block->l[i]
@@ -49,18 +49,18 @@ static void _sha1_transform(uint32_t state[5], uint8_t buffer[64]);
 
 /* Hash a single 512-bit block. This is the core of the algorithm. */
 static void
-_sha1_transform(uint32_t state[5], uint8_t buffer[64])
+_sha1_transform(uint32_t state[5], const uint8_t buffer[64])
 {
     uint32_t       a;
     uint32_t       b;
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   work;
+    CHAR64LONG16 * block = &work;
 
-    /* uint32_t      block[80]; */
-
-    block = (CHAR64LONG16 *)buffer;
+    /* the schedule is computed in place: keep it out of the caller's data */
+    memcpy(work.c, buffer, sizeof(work.c));
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From 79ca812b66557ad598af45d3735e021913bc6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 097/162] fix: SHA-1 of a piece of 4 GiB or more hashed only
 its length modulo 2^32

---
 src/libzt/zt_sha1.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 4bc4dcf..9f343cc 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -113,28 +113,24 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
-    uint32_t      llen;
-
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
-    llen = (uint32_t)len;
+    size_t        i;
+    size_t        j;
+    uint32_t      bits = (uint32_t)len << 3; /* low word of the length in bits */
 
     j = (ctx->count[0] >> 3) & 63;
-    if ((ctx->count[0] += llen << 3) < (llen << 3)) {
+    if ((ctx->count[0] += bits) < bits) {
         ctx->count[1]++;
     }
-    ctx->count[1] += (llen >> 29);
-    if ((j + llen) > 63) {
+    ctx->count[1] += (uint32_t)((uint64_t)len >> 29);
+    if (len > 63 - j) {
         memcpy(&ctx->buffer[j], data, (i = 64 - j));
         _sha1_transform(ctx->state, ctx->buffer);
-        for (; i + 63 < llen; i += 64) {
+        for (; len - i > 63; i += 64) {
             _sha1_transform(ctx->state, &data[i]);
         }
         j = 0;
     } else { i = 0; }
-    memcpy(&ctx->buffer[j], &data[i], llen - i);
+    memcpy(&ctx->buffer[j], &data[i], len - i);
 }
 
 void
-- 
2.43.0


From 6459141ce0d5ff798217951d48f1290f764bab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 098/162] fix: zt_sha1_tostr did not terminate its text

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 9f343cc..5619f39 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -175,6 +175,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From c19698256d133fbe68cd31c86a57a71544791975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 099/162] fix: zt_str_tosha1 reported success for malformed
 text

---
 src/libzt/zt_sha1.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 5619f39..7abfd5b 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -182,6 +182,8 @@ zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 uint8_t *
 zt_str_tosha1(char sha1[41], uint8_t digest[20])
 {
-    zt_hex_to_binary(sha1, 40, digest, 20);
+    if (zt_hex_to_binary(sha1, 40, digest, 20) != 20) {
+        return NULL;
+    }
     return digest;
 }
-- 
2.43.0


From 254f0bcc4e81ac6d10df6dd83e2d3eb625947da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 100/162] fix: host, program, file and function names with a
 '%' were taken as log format

---
 src/libzt/zt_log/log_private.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..2618516 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,24 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* append text that is not part of the caller's format: it must come out of
+ * the formatter literally */
+static char *
+append_literal(char * buff, size_t * len, const char * text) {
+    char * p;
+
+    *len += strlen(text) * 2;
+    buff  = zt_realloc(char, buff, *len);
+    for (p = buff + strlen(buff); *text; text++) {
+        if (*text == '%') {
+            *p++ = '%';
+        }
+        *p++ = *text;
+    }
+    *p = '\0';
+    return buff;
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -91,18 +109,15 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
-        buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        len += 1;    /* space */
+        buff = append_literal(buff, &len, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
-        buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        buff = append_literal(buff, &len, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -138,9 +153,7 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         nlen += 10;    /* length of a int to str */
         nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
         sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
-        len  += nlen;
-        buff  = zt_realloc(char, buff, len);
-        strcat(buff, nbuff);
+        buff = append_literal(buff, &len, nbuff);
         zt_free(nbuff);
     }
     strcat(buff, "\n");
-- 
2.43.0


From b4b560693c034f3a477557f0c9d4398294eb5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 101/162] fix: dates of concurrent log messages shared one
 buffer

---
 src/libzt/zt_log/log_private.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 2618516..9f761f5 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -91,8 +91,14 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     if (opts & ZT_LOG_WITH_DATE) {
         char   sbuf[255];
         time_t tt = time(NULL);
-
-        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", localtime(&tt));
+#ifdef WIN32
+        struct tm * tm = localtime(&tt);    /* per thread */
+#else
+        struct tm   tmbuf;
+        struct tm * tm = localtime_r(&tt, &tmbuf);
+#endif /* WIN32 */
+
+        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", tm);
 
         buff = zt_realloc(char, buff, len);
         sprintf(buff, "%s", sbuf);
-- 
2.43.0


From e8b5ac09953f143846751fe17b7ffb8e9c3fa4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 102/162] fix: logger leaked when its file could not be opened

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..b1f5709 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(result);
         return NULL;
     }
 
-- 
2.43.0


From 4ad99b3852f4405b8a105ac1910219fda645a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 103/162] fix: zt_log_lstrerror logged uninitialised memory
 instead of the error text

---
 src/libzt/zt_log.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..b35aec8 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -286,9 +286,19 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
 
+#if defined(__GLIBC__) && defined(_GNU_SOURCE)
+    {
+        /* this version returns the text, which is not always in the buffer */
+        char         ebuf[255 - 2];
+        const char * text = strerror_r(errnum, ebuf, sizeof(ebuf));
+
+        snprintf(nfmt + (llen + 2), 255 - 2, "%s", text);
+    }
+#else
     if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
       zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
     }
+#endif
 
     va_start(ap, fmt);
     zt_log_lvprintf(log, level, nfmt, ap);
-- 
2.43.0


From 0e54ec6f45880d7d6ab7cdd61962a2bdf7a7a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 104/162] fix: zt_writepid closed its descriptor again when
 close was interrupted

---
 src/libzt/zt_daemon.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 7c2938b..6ba2297 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -146,12 +146,9 @@ zt_writepid(const char* pidF) {
             zt_log_strerror(zt_log_err, errno, "Cannot format to pid file '%s'.", pidF);
         }
 
-        int v = close(fd);
-        while (v == -1 && errno == EINTR) {
-            v = close(fd);
-        }
-
-        if (v) {
+        /* an interrupted close has released the descriptor: closing it again
+         * would fail, or hit a descriptor someone else just opened */
+        if (close(fd) == -1 && errno != EINTR) {
             oVal = -1;
             zt_log_strerror(zt_log_err, errno, "Cannot close pid fd '%s'.", pidF);
         }
-- 
2.43.0


From 7222ccba744856cedab2fdfddaae6dc39da91885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 105/162] fix: zt_mkdir reported success when the path is an
 existing file

---
 src/libzt/zt_path.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..7b5c3a4 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -8,6 +8,13 @@
 
 #include "zt.h"
 
+static int
+is_dir(const char * path) {
+    struct stat sbuf;
+
+    return stat(path, &sbuf) == 0 && (sbuf.st_mode & S_IFMT) == S_IFDIR;
+}
+
 /* Create a directory, allowing for creation of intermediate directories as 
  * needed. Will leave directory structure partially created if intermediate 
  * directory creation fails. 
@@ -25,7 +32,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
 AGAIN:
     if (mkdir(path, mode) != 0) {
 
-        if (errno == EEXIST) {
+        if (errno == EEXIST && is_dir(path)) {
             return 0;
         }
 
-- 
2.43.0


From f543d7128e325fac630904b59d1e141ffc044712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 106/162] fix: zt_mkdir never returned when creating the
 parents did not help

---
 src/libzt/zt_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 7b5c3a4..ccac0df 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -26,6 +26,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     ssize_t     offt;
     struct stat sbuf;
     ssize_t     pslen;
+    int         tried = 0;
 
     errno = 0;
 
@@ -36,8 +37,8 @@ AGAIN:
             return 0;
         }
 
-        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-            /* could not create dir and create parents not set */
+        if (errno != ENOENT || tried || !ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
+            /* could not create dir and creating parents is not set, or does not help */
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
         }
@@ -68,6 +69,7 @@ AGAIN:
             }
         }
 
+        tried = 1;
         goto AGAIN;
     }
 
-- 
2.43.0


From 3b47b750a521f98e56c56d7e6d34c648a9620c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 107/162] fix: zt_mkdir failed when someone else created a
 parent at the same time

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index ccac0df..6a96361 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -63,7 +63,7 @@ AGAIN:
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && !(errno == EEXIST && is_dir(cpath))) {
                 /* Cannot proceed, return error */
                 return -1;
             }
-- 
2.43.0


From 15906cacb28f7b724f192187094e94991b13c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 108/162] fix: zt_progpath never searched the last directory of
 PATH

---
 src/libzt/zt_progname.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..1b05f21 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -121,8 +121,7 @@ zt_progpath(char *prog) {
         if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
             /* the passed in prog did not include a path */
             char        * path;
-            size_t        offt = 0;
-            ssize_t       base = 0;
+            size_t        base = 0;
             size_t        len;
             char        * tpath;
             struct stat   sbuf;
@@ -143,13 +142,9 @@ zt_progpath(char *prog) {
             }
 
             len = strlen(path);
-            while(offt < len) {
-                ssize_t   sofft;
+            while(base <= len) {
+                size_t    offt = base + strcspn(&path[base], ENV_SEPERATOR);
 
-                if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
-                }
-                offt = (size_t)sofft;
                 tpath = zt_cstr_catv(path, base, offt-1,
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
@@ -162,7 +157,6 @@ zt_progpath(char *prog) {
                 }
                 zt_free(tpath);
                 base = offt+1;
-                offt++;
             }
 
             /* if still no path */
-- 
2.43.0


From 1342e184c96bd81579d92e46eef664c8af407206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 109/162] fix: zt_progpath took empty directories of PATH for
 other parts of PATH

---
 src/libzt/zt_progname.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 1b05f21..5f024d6 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -145,6 +145,15 @@ zt_progpath(char *prog) {
             while(base <= len) {
                 size_t    offt = base + strcspn(&path[base], ENV_SEPERATOR);
 
+                if (offt == base) {
+                    /* an empty directory is the current one */
+                    if (stat(prog, &sbuf) == 0) {
+                        break;
+                    }
+                    base++;
+                    continue;
+                }
+
                 tpath = zt_cstr_catv(path, base, offt-1,
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
-- 
2.43.0


From 9e5c9cbd5beb9e92b9af901783535eac6d7e1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 110/162] fix: zt_progpath searched PATH for a program invoked
 as ./prog

---
 src/libzt/zt_progname.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 5f024d6..9c277a6 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -118,7 +118,7 @@ zt_progpath(char *prog) {
         memset(_progpath, '\0', PATH_MAX);
         zt_cstr_dirname(_progpath, PATH_MAX, prog);
 
-        if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
+        if(strstr(prog, PATH_SEPERATOR) == NULL) {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        base = 0;
@@ -183,7 +183,10 @@ zt_progpath(char *prog) {
             char      cwd[PATH_MAX+1];
 
             if(getcwd(cwd, PATH_MAX) != NULL) {
-                if (_progpath[0] != '/') {
+                if (strcmp(_progpath, ".") == 0) {
+                    /* ./prog */
+                    zt_cstr_copy(cwd, 0, -1, _progpath, PATH_MAX);
+                } else if (_progpath[0] != '/') {
                     /* path is relative append and remove prog */
                     char      * tpath;
                     char      * pp = _progpath;
-- 
2.43.0


From 2bee2f10bf2546558f8d4a14c3155693efc9cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 111/162] fix: zt_progpath left an old character behind when
 the current directory is /

---
 src/libzt/zt_progname.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 9c277a6..118f611 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -197,6 +197,7 @@ zt_progpath(char *prog) {
                     }
 
                     tpath = zt_cstr_path_append(cwd, pp);
+                    memset(_progpath, '\0', PATH_MAX);
                     zt_cstr_copy(tpath, 0, -1, _progpath, PATH_MAX);
                     zt_free(tpath);
                 }
-- 
2.43.0


From 522ee1b0d18aadc4c4ad0c0ae2b59dd851636489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 112/162] fix: zt_find_basedir did not terminate its copy of a
 long path

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 6a96361..d9800b2 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -104,7 +104,7 @@ char *zt_find_basedir(const char * path, const char * trigger) {
 
     len = strlen(path);
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From 34ee06d0e688c1aa4d1d912248942098e80411de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 113/162] fix: naming a suite or test with an empty part
 crashed the test runner

---
 src/libzt/zt_unit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..a5047cc 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -356,7 +356,8 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    /* empty parts are not in the vector */
+    if (count <= 0 || count > 2 || targetv[count - 1] == NULL) {
         result = -1;
         goto done;
     }
-- 
2.43.0


From c604521c5bcf6df02a1db6b01c1c7fb77df7fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 114/162] fix: error text leaked when a failing test was run
 again

---
 src/libzt/zt_unit.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index a5047cc..22ad916 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -262,6 +262,11 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
     zt_assert(test);
 
     test->success = FALSE;
+    if (test->error) {
+        /* left by an earlier run */
+        zt_free(test->error);
+        test->error = NULL;
+    }
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From e175b3ca6db9202c161b875211e1a0fc36a06e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 115/162] fix: assertions of earlier runs were counted again
 when a test was run again

---
 src/libzt/zt_unit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 22ad916..9a9c7a6 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -267,6 +267,8 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
         zt_free(test->error);
         test->error = NULL;
     }
+    test->assertions = 0;
+    test->exceptions = 0;
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From e73dd813c9e6ebcb8da5be32c02bef3850a86f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 116/162] fix: zt_threadpool_init closed descriptors 0 and
 leaked its input pipe when the output pipe could not be made

---
 src/libzt/zt_threads.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..152cc40 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -571,8 +571,8 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
             if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
+                close(tpool->iput_fd_sigs[0]);
+                close(tpool->iput_fd_sigs[1]);
             }
 
             free(tpool);
-- 
2.43.0


From 98f010edd88a41f59e304fa102fe439d109a8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 117/162] fix: zt_threadpool_kill set its flag without the
 locks, so threads about to wait missed it and were joined forever

---
 src/libzt/zt_threads.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 152cc40..e490a15 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -517,11 +517,17 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
+    /* the flag is set under the locks that the loops test it under, or a
+     * thread between its test and its wait would miss the signal */
+    zt_threads_lock(0, tpool->iput_mutex);
+    zt_threads_lock(0, tpool->oput_mutex);
     tpool->kill = 1;
 
     /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
     zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.iput_loop) {
-- 
2.43.0


From fb7b58fef5d460694d5625501939fa109fd88b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 118/162] fix: output threads of a stopped pool ended before
 the input threads had produced all results

---
 src/libzt/zt_threads.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index e490a15..57fba2d 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -280,7 +280,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (TAILQ_EMPTY(&tpool->oput_queue)) {
-            if (tpool->kill) {
+            if (tpool->kill > 1) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -294,7 +294,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (entry == NULL) {
-            if (tpool->kill == 1) {
+            if (tpool->kill > 1) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -522,19 +522,24 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_lock(0, tpool->iput_mutex);
     zt_threads_lock(0, tpool->oput_mutex);
     tpool->kill = 1;
-
-    /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
-    zt_threads_cond_signal(tpool->oput_cond, 1);
     zt_threads_unlock(0, tpool->oput_mutex);
     zt_threads_unlock(0, tpool->iput_mutex);
 
-    for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.iput_loop) {
+    if (_zt_threadpool_cbs.iput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
+    }
 
-        if (_zt_threadpool_cbs.oput_loop) {
+    /* no more output to come: let the output threads die */
+    zt_threads_lock(0, tpool->oput_mutex);
+    tpool->kill = 2;
+    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    if (_zt_threadpool_cbs.oput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
-- 
2.43.0


From 66b20f8ccad8691573ce8c16013b392c26d73df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 119/162] fix: resetting the thread pool callbacks kept the
 finalize callback

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 57fba2d..24bce8b 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From f8aac0f2d679975884a13db5b4b7693a8052eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 120/162] fix: threads making random uuids shared one pointer
 to their generators

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 970580e..fd29068 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -65,7 +65,7 @@ zt_uuid4_get_ctx(void) {
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
+    zt_random_state         * state;
     static int                rand_initialized  = 0;
 
     zt_assert(uuid);
-- 
2.43.0


From bfcc5247a6339e9426ebab1bcd6fc43d6ae99219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 121/162] fix: threads making random uuids in the same second
 made the same ones

---
 src/libzt/zt_uuid.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index fd29068..9e5cf37 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -6,7 +6,12 @@
 # include <string.h>
 #endif /* HAVE_STRING_H */
 
+#ifdef HAVE_UNISTD_H
+# include <unistd.h>
+#endif /* HAVE_UNISTD_H */
+
 #include <stdio.h>
+#include <time.h>
 
 #include <math.h>
 
@@ -31,6 +36,7 @@ static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 #include <pthread.h>
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
+static pthread_mutex_t seed_mutex   = PTHREAD_MUTEX_INITIALIZER;
 
 static void
 make_ctx_key(void) {
@@ -41,6 +47,26 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
+/* every generator gets a seed of its own, also when made in the same
+ * second as another */
+static void
+uuid4_seed(zt_random_state * state) {
+    static uint32_t serial = 0;
+    uint32_t        seed[3];
+
+#ifdef HAVE_PTHREADS
+    pthread_mutex_lock(&seed_mutex);
+#endif
+    seed[0] = serial++;
+#ifdef HAVE_PTHREADS
+    pthread_mutex_unlock(&seed_mutex);
+#endif
+    seed[1] = (uint32_t)time(NULL);
+    seed[2] = (uint32_t)getpid();
+
+    zt_random_initstate(state, seed, sizeof(seed) / sizeof(seed[0]));
+}
+
 zt_random_state *
 zt_uuid4_get_ctx(void) {
     CTX_STATIC zt_random_state * state = NULL;
@@ -54,6 +80,7 @@ zt_uuid4_get_ctx(void) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
+            uuid4_seed(state);
 #ifdef HAVE_PTHREADS
         pthread_setspecific(ctx_key, state);
         }
@@ -66,17 +93,11 @@ int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
     zt_random_state         * state;
-    static int                rand_initialized  = 0;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
-    }
-
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[4], &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[8], &v, 4);
-- 
2.43.0


From ad09b89ad29a81bc5ebca449c39cd9814443192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 122/162] fix: the default logger was used without the lock, so
 a thread could see it before its contents

---
 src/libzt/zt_log.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b35aec8..7524d6a 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -89,27 +89,27 @@ zt_log_get_ctx(void) {
 
 static zt_log_ty *
 zt_log_get_logger(void) {
-    if (!log_default_ptr) {
+    zt_log_ty * log;
+
 #ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&log_mutex);
+    /* without the lock another thread could see the logger before its
+     * contents */
+    pthread_mutex_lock(&log_mutex);
 #endif
-        /* second check is just to avoid having to have a mutex lock
-         * around the default case of a logger being set
-         */
-        if (!log_default_ptr) {
-            if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
-                fprintf(stderr, "Could not allocate stderr for logging\n");
-                exit(1);
-            }
-            forced = 1;
-            zt_atexit(log_atexit, log_default_ptr);
+    if (!log_default_ptr) {
+        if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+            fprintf(stderr, "Could not allocate stderr for logging\n");
+            exit(1);
         }
+        forced = 1;
+        zt_atexit(log_atexit, log_default_ptr);
+    }
+    log = log_default_ptr;
 #ifdef HAVE_PTHREADS
-        pthread_mutex_unlock(&log_mutex);
+    pthread_mutex_unlock(&log_mutex);
 #endif
-    }
 
-    return log_default_ptr;
+    return log;
 }
 
 static zt_log_ty *
-- 
2.43.0


From 00857f460f453c4cd2fcbd2a60d6fa1fa8f757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 123/162] fix: replacing and closing the default logger looked
 at it without the lock

---
 src/libzt/zt_log.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 7524d6a..c11cffc 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -112,8 +112,9 @@ zt_log_get_logger(void) {
     return log;
 }
 
+/* replace the default logger, if it is the expected one (NULL for any) */
 static zt_log_ty *
-zt_log_set_logger(zt_log_ty * log) {
+zt_log_set_logger(zt_log_ty * log, zt_log_ty * expect) {
     zt_log_ty   * last;
 
 #ifdef HAVE_PTHREADS
@@ -121,7 +122,9 @@ zt_log_set_logger(zt_log_ty * log) {
 #endif
 
     last = log_default_ptr;
-    log_default_ptr = log;
+    if (!expect || expect == last) {
+        log_default_ptr = log;
+    }
 
 #ifdef HAVE_PTHREADS
     pthread_mutex_unlock(&log_mutex);
@@ -140,12 +143,14 @@ zt_log_logger(zt_log_ty * log) {
      * log == <logger> AND default == <logger>   : replace the default logger with log
      */
 
+    zt_log_ty * last = zt_log_set_logger(log, NULL);
+
     /* if log is NULL and there is no default get one */
-    if (log == NULL && log_default_ptr == NULL) {
+    if (log == NULL && last == NULL) {
         return zt_log_get_logger();
     }
 
-    return zt_log_set_logger(log);
+    return last;
 }
 
 zt_log_level
@@ -313,9 +318,7 @@ zt_log_close(zt_log_ty * log) {
         return;
     }
 
-    if (log == log_default_ptr) {
-        zt_log_set_logger(NULL);
-    }
+    zt_log_set_logger(NULL, log);
 
     if (log->vtbl->destructor) {
         log->vtbl->destructor(log);
-- 
2.43.0


From 2e6689af00dc0f74ad7baa115203f404b244ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 124/162] fix: exit handlers registered by several threads at
 once could be lost

---
 src/libzt/zt_atexit.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_atexit.c b/src/libzt/zt_atexit.c
index a8f0d89..f5f697e 100644
--- a/src/libzt/zt_atexit.c
+++ b/src/libzt/zt_atexit.c
@@ -18,6 +18,10 @@
 # include <stdlib.h>
 #endif
 
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+#endif /* HAVE_PTHREADS */
+
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -28,16 +32,29 @@ struct zt_atexit_cb {
     void        * data;
 };
 
-/* FIXME: global needs thread safety */
 static zt_stack(cb_stack);
 
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t cb_mutex = PTHREAD_MUTEX_INITIALIZER;
+# define LOCK()   pthread_mutex_lock(&cb_mutex)
+# define UNLOCK() pthread_mutex_unlock(&cb_mutex)
+#else /* HAVE_PTHREADS */
+# define LOCK()
+# define UNLOCK()
+#endif /* HAVE_PTHREADS */
+
 static void
 _atexit_call(void) {
     zt_stack_t          * se;
     struct zt_atexit_cb * cb;
 
-    while(!zt_stack_empty(&cb_stack)) {
-        se = zt_stack_pop(&cb_stack);
+    for (;;) {
+        LOCK();
+        se = zt_stack_empty(&cb_stack) ? NULL : zt_stack_pop(&cb_stack);
+        UNLOCK();
+        if (!se) {
+            break;
+        }
         cb = zt_stack_data(se, struct zt_atexit_cb, member);
         if(cb && cb->fn) {
             cb->fn(cb->data);
@@ -54,12 +71,14 @@ zt_atexit(void (*fn)(void * data), void * data) {
 
     cb = zt_calloc(struct zt_atexit_cb, 1);
 
+    cb->fn = fn;
+    cb->data = data;
+
+    LOCK();
     if(zt_stack_empty(&cb_stack)) {
         atexit(_atexit_call);
     }
 
-    cb->fn = fn;
-    cb->data = data;
-
     zt_stack_push(&cb_stack, &cb->member);
+    UNLOCK();
 }
-- 
2.43.0


From f0364b4cff4203ca6b8817105d6975427a0acf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 125/162] fix: opts: keep the help text apart from an option
 that ends at the indent column

---
 src/libzt/zt_opts.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2ad79fb..af1c708 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -361,6 +361,9 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
 #define BASE_INDENT 30
 #define BASE_WIDTH (80 - BASE_INDENT)
 
+        /* the help text stays apart from an option that fills the indent */
+        int indent = depth < BASE_INDENT ? BASE_INDENT : depth + 1;
+
         if (len > BASE_WIDTH) {
             size_t offt = 0;
             while (offt < len) {
@@ -394,12 +397,12 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     }
                 }
 
-                printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
+                printf(BLANK "%.*s" NL, INDENT_TO(indent, 5, depth), (int)width, &def->help[offt]);
                 offt+=width;
             }
 
         } else {
-            printf(BLANK "%s" NL, INDENT_TO(BASE_INDENT, 5, depth), def->help);
+            printf(BLANK "%s" NL, INDENT_TO(indent, 5, depth), def->help);
         }
     } else {
         return -1;
-- 
2.43.0


From 3c75628930ffaa6052ef0c89ce717f7d1f80f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 126/162] fix: threadpool: report a thread that cannot be
 started and do not join it

---
 src/libzt/zt_threads.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 24bce8b..8a2b3ff 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -476,16 +476,22 @@ zt_threadpool_start(zt_threadpool *tpool) {
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->iput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->iput_threads[i], NULL,
-                             _zt_threadpool_cbs.iput_loop, (void*)tpool);
+            if (zt_threads_start(tpool->iput_threads[i], NULL,
+                                 _zt_threadpool_cbs.iput_loop, (void*)tpool)) {
+                tpool->iput_threads[i] = NULL;
+                return -1;
+            }
         }
     }
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->oput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->oput_threads[i], NULL,
-                             _zt_threadpool_cbs.oput_loop, (void*)tpool);
+            if (zt_threads_start(tpool->oput_threads[i], NULL,
+                                 _zt_threadpool_cbs.oput_loop, (void*)tpool)) {
+                tpool->oput_threads[i] = NULL;
+                return -1;
+            }
         }
     }
 
@@ -529,7 +535,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            zt_threads_join(tpool->iput_threads[i], NULL);
+            if (tpool->iput_threads[i]) {
+                zt_threads_join(tpool->iput_threads[i], NULL);
+            }
         }
     }
 
@@ -541,7 +549,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            zt_threads_join(tpool->oput_threads[i], NULL);
+            if (tpool->oput_threads[i]) {
+                zt_threads_join(tpool->oput_threads[i], NULL);
+            }
         }
     }
 
-- 
2.43.0


From 4743d189f8b0b65f82cee6358e13073dfd312e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 127/162] fix: uuid: a forked process made the same random
 uuids as its parent

---
 src/libzt/zt_uuid.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 9e5cf37..2fb3cd2 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -67,26 +67,38 @@ uuid4_seed(zt_random_state * state) {
     zt_random_initstate(state, seed, sizeof(seed) / sizeof(seed[0]));
 }
 
+/* a generator and the process it was seeded in */
+struct uuid4_ctx {
+    zt_random_state state;
+    pid_t           pid;
+};
+
 zt_random_state *
 zt_uuid4_get_ctx(void) {
-    CTX_STATIC zt_random_state * state = NULL;
+    CTX_STATIC struct uuid4_ctx * ctx = NULL;
 
-    if (!state) {
+    if (!ctx) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
-        if((state = pthread_getspecific(ctx_key)) == NULL) {
+        if((ctx = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
-            if((state = zt_calloc(zt_random_state, 1)) == NULL) {
+            if((ctx = zt_calloc(struct uuid4_ctx, 1)) == NULL) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
-            uuid4_seed(state);
+            ctx->pid = getpid();
+            uuid4_seed(&ctx->state);
 #ifdef HAVE_PTHREADS
-        pthread_setspecific(ctx_key, state);
+        pthread_setspecific(ctx_key, ctx);
         }
 #endif /* HAVE_PTHREADS */
     }
-    return state;
+    if (ctx->pid != getpid()) {
+        /* a forked process may not go on with the numbers of its parent */
+        ctx->pid = getpid();
+        uuid4_seed(&ctx->state);
+    }
+    return &ctx->state;
 }
 
 int
-- 
2.43.0


From be8c536b881aca7774454de30ccb9d4cf28c7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 128/162] fix: malloc: refuse element counts whose size does
 not fit instead of allocating less

---
 src/libzt/zt_malloc.c | 11 +++++++++++
 src/zt.h              |  7 ++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..df294e7 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -38,6 +38,17 @@ zt_malloc_p(size_t num)
     return mem;
 }
 
+/* the bytes that num elements of size take; more than can be counted is
+ * more than can be allocated */
+size_t
+zt_alloc_size_p(size_t num, size_t size)
+{
+    if (size != 0 && num > (size_t)-1 / size) {
+        return (size_t)-1;
+    }
+    return num * size;
+}
+
 void_p
 zt_realloc_p(void_p p, size_t num)
 {
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..b131e1b 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -31,10 +31,10 @@
 
 extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
-#define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
+#define zt_mallocs(size, num)     (zt_malloc_p (zt_alloc_size_p ((num), (size))))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-#define zt_malloc(type, num)	((type *) zt_malloc_p ((num) * sizeof(type)))
-#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), (num) * sizeof(type)))
+#define zt_malloc(type, num)	((type *) zt_malloc_p (zt_alloc_size_p ((num), sizeof(type))))
+#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), zt_alloc_size_p ((num), sizeof(type))))
 #define zt_free(stale)   	  	       	  	   	 \
 do {							 \
    if (stale) { free ((void_p) stale);  stale = 0; }	 \
@@ -126,6 +126,7 @@ typedef char* void_p;
 
 extern void * zt_calloc_p	(size_t num, size_t size);
 extern void * zt_malloc_p	(size_t num);
+extern size_t zt_alloc_size_p	(size_t num, size_t size);
 extern void * zt_realloc_p (void * p, size_t num);
 extern void zt_free_p (void * stale);
 extern char *zt_strdup_p (const char *string);
-- 
2.43.0


From ddd2fd3b168eed4bd42abd9aa5a4f0b2e2ffdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 129/162] fix: macros: INDENT_PAD takes an expression as step

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index c1effd1..bf1bae6 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -134,7 +134,7 @@ BEGIN_C_DECLS
  * Description: injects padding into a print statement
  * Exmaple: printf(BLANK "-a, --alpha" NL, INDENT_PATH(3, 5, 0))
  */
-#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * step) + (pad))), ""
+#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * (step)) + (pad))), ""
 
 /************ Apply Macros ************/
 
-- 
2.43.0


From d02a16e390307b164afa907f8e5764325b725561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 130/162] fix: daemon: closing descriptors looped for ever
 without a descriptor limit

---
 src/libzt/zt_daemon.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 6ba2297..66c6a35 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -64,11 +64,8 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
             zt_log_printf(zt_log_emerg, "faild to getlimit(): %s", strerror(errno));
             exit(1);
         }
-        for (i = 0; i < rlimits.rlim_cur; i++) {
-            if (i > INT_MAX) {
-                /* int cast protection */
-                i = INT_MAX;
-            }
+        /* a descriptor is an int: no limit at all must not loop for ever */
+        for (i = 0; i < rlimits.rlim_cur && i <= INT_MAX; i++) {
             close((int)i);
         }                                                  /* Close all of the filehandles */
 
-- 
2.43.0


From 83196b7fe784e0684f2854753ebc21ccf52e83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 131/162] fix: cstr: offsets of hex dumps wrapped beyond 4 GiB

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index f7d6374..cb9a048 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -771,7 +771,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
     size_t    bytes = 0;
     size_t    hpos = 0, cpos = 0;
     int       c = 0;
-    uint32_t  addr = 0L;
+    size_t    addr = 0L;
     size_t    _addr = 0L;
     char      _txt[16+1];
     char      _hex[(16*3)+3];
-- 
2.43.0


From 6dfec8046e9e9db40866ca21e3b1af4bc81816ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 132/162] fix: log: the debug macros were two statements, the
 first alone being conditional

---
 src/libzt/zt_log.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 80d33f8..f3319b5 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -89,7 +89,7 @@ extern void zt_log_close( zt_log_ty * log );
 
 /* zt_log_dprintf(level, fmt, ...) */
 #define zt_log_dprintf( level, ... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_printf( level, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
 
 #define zt_log_dvprintf( level, fmt, ap ) \
     zt_log_vprintf( level, fmt, ap)
@@ -98,10 +98,10 @@ extern void zt_log_close( zt_log_ty * log );
 #ifdef DEBUG
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__);
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
 #  define LOG_XDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifdef DEBUG */
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... )
@@ -112,10 +112,10 @@ extern void zt_log_close( zt_log_ty * log );
 #ifndef NDEBUG
 /* LOG_NDEBUG(fnt, ...) */
 #  define ZT_LOG_NDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
 #  define ZT_LOG_NDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifndef NDEBUG */
 /* LOG_NDEBUG(fmt, ...) */
 #  define ZT_LOG_NDEBUG(... )
-- 
2.43.0


From 5464447f43e92d8e3bf81b855d1872a80fa09136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 133/162] fix: log: ZT_LOG_XDEBUGV was missing when DEBUG is
 defined

---
 src/libzt/zt_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index f3319b5..9413908 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -100,7 +100,7 @@ extern void zt_log_close( zt_log_ty * log );
 #  define ZT_LOG_XDEBUG(... ) \
     (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
-#  define LOG_XDEBUGV( fmt, ap ) \
+#  define ZT_LOG_XDEBUGV( fmt, ap ) \
     (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifdef DEBUG */
 /* LOG_XDEBUG(fmt, ...) */
-- 
2.43.0


From 79e9234cfcc0e853b30056babc81be5c732ec3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 134/162] fix: zt_set hashed elements by address for every
 match function it did not know, so equal elements were not recognized as
 members

---
 src/libzt/zt_set.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 0dd0cfa..fe7d686 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -4,6 +4,14 @@
 #include "zt_assert.h"
 
 
+/* what any other function considers equal is not known: in particular it may
+ * be elements at different addresses */
+static unsigned long
+_hash_any(const void *key UNUSED, size_t key_len UNUSED, void *cdata UNUSED)
+{
+    return 0;
+}
+
 zt_set *
 zt_set_init(int (*match)(const void *key1, size_t key1_size,
                          const void *key2, size_t key2_size, void *cdata),
@@ -11,12 +19,14 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
             void *cdata)
 {
     zt_set              * set;
-    zt_table_hash_func_cb hash = zt_table_hash_int;
+    zt_table_hash_func_cb hash = _hash_any;
 
     set = zt_malloc(zt_set, 1);
 
     /* elements that match must hash alike */
-    if (match == zt_table_compare_string) {
+    if (match == zt_table_compare_int) {
+        hash = zt_table_hash_int;
+    } else if (match == zt_table_compare_string) {
         hash = zt_table_hash_string;
     } else if (match == zt_table_compare_buff) {
         hash = zt_table_hash_buff;
-- 
2.43.0


From c0191c85de556ac8b5062e2e96248f1bac4072eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:35 +0000
Subject: [PATCH 135/162] fix: bstream: a clone of a stream that flips its
 items did not flip them

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 3738b96..d6b79e0 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -105,6 +105,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From ae864bc6ca797b1741c94e399916ca3d37834a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:35 +0000
Subject: [PATCH 136/162] fix: time: zt_time_calibrate always found an overhead
 of nothing

---
 src/libzt/zt_time.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..222715d 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -15,6 +15,8 @@
 #include <sys/resource.h>
 #endif
 
+#include <string.h>
+
 #include "zt_time.h"
 #include "zt_log.h"
 #include "zt_assert.h"
@@ -103,7 +105,12 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result overhead;
+
+    /* the overhead itself, not what is left of it after a calibration */
+    memset(&_calibration_time, 0, sizeof(_calibration_time));
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From 548796707f347a9744f8539a3b95d41a5bcd7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:34 +0000
Subject: [PATCH 137/162] fix: unit: a test that set its error text more than
 once leaked the earlier one

---
 src/libzt/zt_unit.c       | 20 ++++++++++++++++++++
 src/libzt/zt_unit.h       |  9 +++++----
 src/libzt/zt_unit_cpp.cpp |  4 ++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 9a9c7a6..a10fc8a 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -27,6 +27,26 @@ int zt_unit_printf(char **strp, const char *fmt, ...) {
     return result;
 }
 
+int zt_unit_test_set_error(struct zt_unit_test *test, const char *fmt, ...) {
+    va_list   ap;
+    int       result;
+    char    * error = NULL;
+
+    va_start(ap, fmt);
+    result = vasprintf(&error, fmt, ap);
+    va_end(ap);
+    if (result < 0) {
+        error = NULL;
+    }
+
+    /* only now, the old text may be one of the arguments */
+    if (test->error) {
+        zt_free(test->error);
+    }
+    test->error = error;
+    return result;
+}
+
 void
 zt_unit_test_add_exception(struct zt_unit_test *test) {
     test->exceptions++;
diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index 95117e8..c44ccb0 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -59,6 +59,9 @@ struct zt_unit_test {
 
 int zt_unit_printf(char **strp, const char *fmt, ...);
 
+/* set the error text of a test, releasing the one it may already have */
+int zt_unit_test_set_error(struct zt_unit_test *test, const char *fmt, ...);
+
 #ifdef __cplusplus
 class zt_unit_exceptT {};
 # define ZT_UNIT_EXIT(test) \
@@ -77,9 +80,7 @@ class zt_unit_exceptT {};
           if (strlen(#doc"") > 0) {                         \
             msg = #doc;                                     \
           }                                                 \
-            if(zt_unit_printf(&test->error, "%s : %s:%d", msg, __FILE__, __LINE__) == 0)  { \
-                test->error = NULL;                         \
-            }                                               \
+            zt_unit_test_set_error(test, "%s : %s:%d", msg, __FILE__, __LINE__); \
             ZT_UNIT_EXIT(test);                             \
         }                                                   \
     } while(0)
@@ -93,7 +94,7 @@ class zt_unit_exceptT {};
 /* #define ZT_UNIT_ASSERT_RAISES(test, excpt, expr) */
 
 #define ZT_UNIT_SET_ERROR(test, fmt, ...) \
-    zt_unit_printf(&test->error, fmt, __VA_ARGS__)
+    zt_unit_test_set_error(test, fmt, __VA_ARGS__)
 
 #define ZT_UNIT_FAIL(test, fmt, ...) \
     ZT_UNIT_SET_ERROR(test, fmt, __VA_ARGS__), ZT_UNIT_EXIT(test)
diff --git a/src/libzt/zt_unit_cpp.cpp b/src/libzt/zt_unit_cpp.cpp
index faf817e..7a64130 100644
--- a/src/libzt/zt_unit_cpp.cpp
+++ b/src/libzt/zt_unit_cpp.cpp
@@ -15,12 +15,12 @@ zt_unit_try_cpp(struct zt_unit_suite * suite,
         // one of ours please ignore
         return 0;
     } catch (char * str) {
-        zt_unit_printf(&test->error, "unhandled exception: %s", str ? str : "NULL");
+        zt_unit_test_set_error(test, "unhandled exception: %s", str ? str : "NULL");
         zt_unit_test_add_exception(test);
         return 0;
     } catch (...) {
         // test threw out, log and continue
-        zt_unit_printf(&test->error, "unhandled exception: unknown");
+        zt_unit_test_set_error(test, "unhandled exception: unknown");
         zt_unit_test_add_exception(test);
         return 0;
     }
-- 
2.43.0


From 3cbedc48fa4c814617547c7cc9a8c1b2753b2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 138/162] fix: log: zt_log_dvprintf did not attach the position

---
 src/libzt/zt_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 9413908..0618de7 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -92,7 +92,7 @@ extern void zt_log_close( zt_log_ty * log );
     (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
 
 #define zt_log_dvprintf( level, fmt, ap ) \
-    zt_log_vprintf( level, fmt, ap)
+    (ZT_LOG_DEBUG_INFO( ), zt_log_vprintf( level, fmt, ap))
 
 /* normal debugging logging */
 #ifdef DEBUG
-- 
2.43.0


From 3adafefd355f3515ee16ecbccba176d69f99d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 139/162] fix: opts: a callback that processed another vector
 changed how its own option was read

---
 src/libzt/zt_opts.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index af1c708..c4e72d0 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -503,6 +503,7 @@ _zt_opt_error_wrapper(int code, char * fmt, ...) {
 int
 zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_validate validate, zt_opt_error error) {
     int i;
+    int attached = value_attached; /* a callback may process another vector */
 
     error    = error ? error : _zt_opt_error_wrapper;
     validate = validate ? validate : zt_opt_validate_default;
@@ -543,6 +544,7 @@ AGAIN:
                     value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
+                        value_attached = attached;
                         return consumed;
                     }
 
@@ -573,6 +575,7 @@ AGAIN:
 
     *argc = i;
 
+    value_attached = attached;
     return 0;
 } /* zt_opt_process_args */
 
-- 
2.43.0


From 2bd0f80a0eb77842bb3f911c9c6656a60a6e9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 140/162] fix: gc: zt_gc_destroy kept its cursor in a variable
 shared by all collectors

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 44b2830..fe566e8 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -210,7 +210,7 @@ zt_gc_init(void *private_data,
 void
 zt_gc_destroy(zt_gc_t *gc)
 {
-    static zt_elist_t * elt;
+    zt_elist_t * elt;
     zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
-- 
2.43.0


From 8b8db51ed13b35c6ecd9dee70ee2903bb48337da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 141/162] fix: opts: threads processing separate vectors shared
 a flag

---
 src/libzt/zt_opts.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index c4e72d0..6cee925 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,8 +85,14 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+#ifdef _MSC_VER
+# define THREAD_LOCAL __declspec(thread)
+#else
+# define THREAD_LOCAL __thread
+#endif
+
 /* set when the rest of a word of short options was taken as a value */
-static int value_attached = 0;
+static THREAD_LOCAL int value_attached = 0;
 
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
-- 
2.43.0


From 906373ddcbed1e61625fa4ba9babcbc81c61c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 142/162] fix: assert: reporting an assertion could fail an
 assertion without end

The report goes through a logger, which needs memory.  When the assertion
was about memory the report failed the same assertion, and so on until the
stack was used up.
---
 src/libzt/zt_assert.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libzt/zt_assert.c b/src/libzt/zt_assert.c
index dee843a..ce75382 100644
--- a/src/libzt/zt_assert.c
+++ b/src/libzt/zt_assert.c
@@ -24,6 +24,15 @@
 #include "zt_cstr.h"
 #include "zt_assert.h"
 
+#ifdef _MSC_VER
+# define THREAD_LOCAL __declspec(thread)
+#else
+# define THREAD_LOCAL __thread
+#endif
+
+/* set while this thread reports an assertion */
+static THREAD_LOCAL int reporting = 0;
+
 void
 _zt_log_assertion(const char *s, const char *file, unsigned int line,
                   const char *func)
@@ -36,11 +45,20 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
 
     (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);
 
+    if (reporting) {
+        /* the report itself failed (it needs memory), do without a logger */
+        fprintf(stderr, "Assertion Failed: \"%s\": %s[%d:%s]\n", s, bname, line, func ? func : "");
+        return;
+    }
+    reporting = 1;
+
     if (func) {
         zt_log_printf(zt_log_err, "Assertion Failed: \"%s\": %s[%d:%s]", s, bname, line, func);
     } else {
         zt_log_printf(zt_log_err, "Assertion Failed: \"%s\": %s[%d]", s, bname, line);
     }
+
+    reporting = 0;
 }
 
 int
-- 
2.43.0


From 2c5936c9b731e2adbdcaa2878eabcf09d7510c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 143/162] fix: log: creating the default logger waited for
 itself when memory ran out

The logger was allocated with the lock held; the allocation failing is
reported through the logger, which takes the same lock.
---
 src/libzt/zt_log.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index c11cffc..d067f5f 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -90,25 +90,46 @@ zt_log_get_ctx(void) {
 static zt_log_ty *
 zt_log_get_logger(void) {
     zt_log_ty * log;
+    zt_log_ty * created;
 
 #ifdef HAVE_PTHREADS
     /* without the lock another thread could see the logger before its
      * contents */
     pthread_mutex_lock(&log_mutex);
+#endif
+    log = log_default_ptr;
+#ifdef HAVE_PTHREADS
+    pthread_mutex_unlock(&log_mutex);
+#endif
+    if (log) {
+        return log;
+    }
+
+    /* not under the lock: a failure in here is reported through the logger */
+    if ((created = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+        fprintf(stderr, "Could not allocate stderr for logging\n");
+        exit(1);
+    }
+
+#ifdef HAVE_PTHREADS
+    pthread_mutex_lock(&log_mutex);
 #endif
     if (!log_default_ptr) {
-        if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
-            fprintf(stderr, "Could not allocate stderr for logging\n");
-            exit(1);
-        }
-        forced = 1;
-        zt_atexit(log_atexit, log_default_ptr);
+        log_default_ptr = created;
+        forced          = 1;
     }
     log = log_default_ptr;
 #ifdef HAVE_PTHREADS
     pthread_mutex_unlock(&log_mutex);
 #endif
 
+    if (log == created) {
+        zt_atexit(log_atexit, log);
+    } else {
+        /* another thread was first */
+        created->vtbl->destructor(created);
+    }
+
     return log;
 }
 
-- 
2.43.0


From 90c7d471a787a0d61aa949007b3ada23cf61c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 144/162] fix: log: zt_log_lstrerror used memory it did not get

---
 src/libzt/zt_log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index d067f5f..a7f09d6 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -307,7 +307,7 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     llen           = strlen(fmt);
 
 
-    nfmt           = (char*)malloc(llen + 256);
+    nfmt           = zt_malloc(char, llen + 256);
     memcpy(nfmt, fmt, llen);
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
@@ -330,7 +330,7 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     zt_log_lvprintf(log, level, nfmt, ap);
     va_end(ap);
 
-    free(nfmt);
+    zt_free(nfmt);
 }
 
 void
-- 
2.43.0


From a01e019311a2609719401a45070bdfa312471a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 145/162] fix: buf: a buffer that could not grow lost its
 contents

zt_buf_expand did not look at what realloc gave, and its callers not at
what it gave.
---
 src/libzt/zt_buf.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 673b6ca..ab032d9 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * ntop;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -62,10 +63,16 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
 
     if (b->top != b->buf) {
         memmove(b->top, b->buf, b->len);
+        b->max += (char *)b->buf - (char *)b->top;
+        b->buf  = b->top;
     }
 
-    b->buf = realloc(b->top, b->len + rlen);
-    b->top = b->buf;
+    if ((ntop = realloc(b->top, b->len + rlen)) == NULL) {
+        return -1;
+    }
+
+    b->buf = ntop;
+    b->top = ntop;
     b->max = b->len + rlen;
 
     return 0;
@@ -90,8 +97,8 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
-    if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+    if (len > zt_buf_unused_sz(b) && zt_buf_expand(b, len) < 0) {
+        return -1;
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -102,7 +109,9 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) < 0) {
+        return -1;
+    }
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -121,8 +130,8 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
-    if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+    if (len > zt_buf_unused_sz(b) && zt_buf_expand(b, len) < 0) {
+        return -1;
     }
 
     return 0;
@@ -148,10 +157,14 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+    if (zt_buf_reserve(b, tlen) < 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
-        zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
+        if (zt_buf_add(b, vec[i].iov_data, vec[i].iov_len) < 0) {
+            return -1;
+        }
     }
 
     return 0;
-- 
2.43.0


From 154609238e1f85bdbd06ef83d9529f5b96b099f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 146/162] fix: cstr: splitting without enough memory lost
 pieces or crashed

---
 src/libzt/zt_cstr.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cb9a048..18c2849 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -923,6 +923,21 @@ zt_cstr_cut_free(zt_ptr_array *array) {
     return zt_ptr_array_free(array, 1);
 }
 
+/* add a copy of a piece, without memory for it fail */
+static int
+add_piece(zt_ptr_array *pieces, const char *piece) {
+    char *copy = strdup(piece);
+
+    if (copy == NULL) {
+        return -1;
+    }
+    if (zt_ptr_array_add(pieces, (void *)copy) < 0) {
+        free(copy);
+        return -1;
+    }
+    return 0;
+}
+
 zt_ptr_array *
 zt_cstr_split(const char *str, const char *delim) {
     char         *str_copy;
@@ -938,10 +953,13 @@ zt_cstr_split(const char *str, const char *delim) {
 
     endptr      = NULL;
 
-    str_copy    = strdup(str);
+    if ((str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(split_array, 1);
+        return NULL;
+    }
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
-        if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
+        if (add_piece(split_array, tok) < 0) {
             zt_ptr_array_free(split_array, 1);
             free(str_copy);
             return NULL;
@@ -963,7 +981,10 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
         return NULL;
     }
 
-    cut_tok    = str_copy = strdup(str);
+    if ((cut_tok = str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(cuts, 1);
+        return NULL;
+    }
     keep_delim = keep_delim ? 1 : 0;
 
     while ((cut_tok = strchr(cut_tok, delim))) {
@@ -973,7 +994,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup((char *)(cut_tok - keep_delim))) < 0) {
+        if (add_piece(cuts, cut_tok - keep_delim) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -995,7 +1016,10 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         return NULL;
     }
 
-    str_copy = strdup(str);
+    if ((str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(cuts, 1);
+        return NULL;
+    }
 
     if (*str != '\0' && str[strlen(str) - 1] == (char)delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
@@ -1007,7 +1031,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup(str_copy)) < 0) {
+        if (add_piece(cuts, str_copy) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -1016,7 +1040,11 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         *cut_tok = '\0';
     }
 
-    zt_ptr_array_add(cuts, (void *)strdup(str_copy));
+    if (add_piece(cuts, str_copy) < 0) {
+        zt_ptr_array_free(cuts, 1);
+        free(str_copy);
+        return NULL;
+    }
     free(str_copy);
 
     return cuts;
-- 
2.43.0


From 9387200391ef3a079faf630b992d40c749a23651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 147/162] fix: mem: a heap whose name could not be copied was
 handed out without one

---
 src/libzt/zt_mem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index d99a172..b250790 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -102,6 +102,10 @@ zt_mem_heap_init(char *name, size_t size)
     }
 
     heap->name = zt_mem_strdup(name ? name : "*unknown*");
+    if (heap->name == NULL) {
+        GLOBAL_zmt.dealloc(heap);
+        return NULL;
+    }
     heap->size = size;
     return heap;
 }
-- 
2.43.0


From 2dc756b54992a6859365b8760d5b07671bd445ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 148/162] fix: table: running out of memory crashed instead of
 failing

zt_table_init and zt_table_set used what the heap and the pools gave
without looking at it.
---
 src/libzt/zt_table.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index e09c1c7..8c23933 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -122,6 +122,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     nbuckets = (size_t)1 << table->nbits;
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
+    if (table->table_heap == NULL) {
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->buckets = zt_mem_heap_get_data(table->table_heap);
     memset(table->buckets, 0, nbuckets * sizeof(struct table_node *));
@@ -136,6 +140,12 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
+    if (table->node_pool == NULL) {
+        zt_free(table->name);
+        zt_mem_heap_destroy(&table->table_heap);
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->num_buckets = nbuckets;
     table->cmp = cmp;
@@ -192,6 +202,9 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     }
 
     node = (struct table_node *)zt_mem_pool_alloc(h->node_pool);
+    if (node == NULL) {
+        return -1;
+    }
 
     node->next = h->buckets[nkey];
     node->hash_key = skey;
@@ -276,7 +289,9 @@ zt_table_copy(zt_table *t1, zt_table *t2)
         while (node) {
             any = 1;
             /* if(!table_get(t2, node->key)) { */
-            zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len);
+            if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) < 0) {
+                return -1;
+            }
             node = node->next;
         }
     }
-- 
2.43.0


From 34410d14e1c99165f2e718f2cd6aaa2418d19146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 149/162] fix: set: an element there was no memory for was
 counted as a member

---
 src/libzt/zt_set.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index fe7d686..779ea45 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -33,6 +33,10 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
     }
 
     set->tbl = zt_table_init(NULL, hash, match, 128, 0, cdata);
+    if (set->tbl == NULL) {
+        zt_free(set);
+        return NULL;
+    }
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
@@ -67,12 +71,17 @@ zt_set_destroy(zt_set *set)
 int
 zt_set_insert(zt_set *set, const void *data, size_t len)
 {
+    int res;
+
     if (zt_set_is_member(set, data, len)) {
         return 1;
     }
 
-    set->length++;
-    return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    res = zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    if (res == 0) {
+        set->length++;
+    }
+    return res;
 }
 
 struct _set_find {
@@ -119,8 +128,7 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
     p = (struct _set_pair *)param;
 
     /* an existing member is not a reason to stop iterating */
-    zt_set_insert(p->s2, datum, datum_len);
-    return 0;
+    return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -129,10 +137,11 @@ int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
 
     s.s2 = setu;
 
-    zt_table_for_each(set1->tbl, _union, &s);
-    zt_table_for_each(set2->tbl, _union, &s);
+    if (zt_table_for_each(set1->tbl, _union, &s) != 0) {
+        return -1;
+    }
 
-    return 0;
+    return zt_table_for_each(set2->tbl, _union, &s);
 }
 
 static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
@@ -142,7 +151,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
@@ -164,7 +173,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From e60d3b829e46a52c39696497fd274a68891fa6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 150/162] fix: ipv4_tbl: a network that could not be added was
 never released

---
 src/libzt/zt_ipv4_tbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index d43bb1e..9419409 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -258,6 +258,8 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
     }
 
     if (zt_ipv4_tbl_add_node(tbl, ipv4_node)) {
+        zt_mem_pool_release((void **)&ipv4_node->addr);
+        zt_mem_pool_release((void **)&ipv4_node);
         return NULL;
     }
 
-- 
2.43.0


From 623c4e2e75abfe63ca4491a1dce69e1c3da91d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 151/162] fix: cfg: names and values there was no memory for
 were used all the same

---
 src/libzt/zt_cfg/cfg_ini.c     |  8 ++++----
 src/libzt/zt_cfg/cfg_private.c | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index a94ea1a..2f63ee5 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -41,7 +41,7 @@ zt_cfg_ini(char *file, int opts )
 {
     zt_cfg_ty *cfg = zt_cfg_new(&vtbl);
 
-    cfg->filename = strdup(file);
+    cfg->filename = zt_strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
         zt_cfg_priv_destructor(cfg);
@@ -165,8 +165,8 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
         /* errno = EPROTO; */
         return 0;
     }
-    bvv->variable = strdup(var);
-    bvv->value = strdup(val);
+    bvv->variable = zt_strdup(var);
+    bvv->value = zt_strdup(val);
     return 1;
 } /* parse_line */
 
@@ -181,7 +181,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
     zt_assert(cfg);
     memset(&bvv, '\0', sizeof(struct cfg_bvv_ty));
     sprintf(block, "Global");    /* default blockname */
-    bvv.block = strdup(block);
+    bvv.block = zt_strdup(block);
 
     while ((c = fgetc(file)) != EOF) {
         switch (c) {
diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 0f3db26..bd2c71e 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -87,7 +87,7 @@ add_block(struct zt_cfg_ty* cfg, char* name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_block_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = cfg->head;
         cfg->head = new;
     }
@@ -118,7 +118,7 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_value_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = block->head;
         block->head = new;
     }
@@ -157,13 +157,13 @@ get_type(char* value, void* nvalue)
 
         if (len > 0 && value[len] == value[0]) {
             value[len] = '\0';
-            *(char **)nvalue = strdup(&value[1]);
+            *(char **)nvalue = zt_strdup(&value[1]);
         } else {
             /* no closing quote */
-            *(char **)nvalue = strdup(value);
+            *(char **)nvalue = zt_strdup(value);
         }
     } else {
-        *(char **)nvalue = strdup(value);
+        *(char **)nvalue = zt_strdup(value);
     }
 
     return zt_cfg_string;
@@ -217,8 +217,8 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
 {
     struct cfg_bvv_ty bvv;
 
-    bvv.block = strdup(block_name);
-    bvv.variable = strdup(variable_name);
+    bvv.block = zt_strdup(block_name);
+    bvv.variable = zt_strdup(variable_name);
     bvv.value = zt_calloc(char, BUFMAX);
 
     switch (type) {
@@ -236,7 +236,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
         /* FALLTHRU */
         case zt_cfg_string:
             free(bvv.value);
-            bvv.value = strdup(*(char **)var);
+            bvv.value = zt_strdup(*(char **)var);
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-- 
2.43.0


From 8643fa89e9858c06f8e0a1f8bebd9f310e5743a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 152/162] fix: opts: a text value there was no memory for was
 silently lost

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 6cee925..0c86747 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -300,7 +300,7 @@ zt_opt_string(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
     if (arg) {
-        *(char **)def[defn].cb_data = (void *)strdup(arg);
+        *(char **)def[defn].cb_data = (void *)zt_strdup(arg);
     }
 
     return args_consumed;
@@ -331,7 +331,7 @@ zt_opt_string_array(int argn, int defn, int * argc, char ** argv, zt_opt_def_t *
             exit(1);
         }
 
-        new_array[offt]             = strdup(arg);
+        new_array[offt]             = zt_strdup(arg);
         new_array[offt + 1]         = NULL;
 
         *(char***)def[defn].cb_data = new_array;
-- 
2.43.0


From eca1b74e440bf669490bea3c6078dbef54758fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 153/162] fix: opts: an error text there was no memory for was
 used all the same

---
 src/libzt/zt_opts.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 0c86747..ba6e784 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -45,13 +45,18 @@ zt_opt_verror_str(int code, char * fmt, va_list ap) {
     char * msg          = NULL;
     char * user_message = NULL;
     char * final        = NULL;
-    int    len          = 0;
 
-    len = asprintf(&msg, "error: { code: %d, string: \"%s", code, code ? strerror(code) : "");
-    if (fmt) {
-        len += vasprintf(&user_message, fmt, ap);
+    /* what the pointer is after a failure is not defined */
+    if (asprintf(&msg, "error: { code: %d, string: \"%s", code, code ? strerror(code) : "") < 0) {
+        return NULL;
+    }
+    if (fmt && vasprintf(&user_message, fmt, ap) < 0) {
+        zt_free(msg);
+        return NULL;
+    }
+    if (asprintf(&final, "%s: %s\" }", msg, user_message) < 0) {
+        final = NULL;
     }
-    len += asprintf(&final, "%s: %s\" }", msg, user_message);
 
     zt_free(user_message);
     zt_free(msg);
@@ -68,7 +73,11 @@ zt_opt_verror_default(int code, char * fmt, va_list ap) {
     }
 
     msg = zt_opt_verror_str(code, fmt, ap);
-    fprintf(stderr, "%s\n", msg);
+    if (msg) {
+        fprintf(stderr, "%s\n", msg);
+    } else {
+        fprintf(stderr, "error: { code: %d }\n", code);
+    }
     zt_free(msg);
     return code;
 }
-- 
2.43.0


From 08d0f51f81a2551c0858f40ae45b63a8691ebc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 154/162] fix: log: a log file lacked the messages before an
 abort

They stayed in the stream's buffer, the assertion that ended the process
among them.
---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index b1f5709..85b6b7b 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -56,6 +56,7 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 #endif /* WITH_THREADS */
 
     vfprintf(this->file, nfmt, ap);
+    fflush(this->file);
 
 #ifdef WITH_THREADS
     pthread_mutex_unlock(&log->mutex);
-- 
2.43.0


From efa30bd201f3051badc938da793cf8ca088d81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 155/162] fix: threads: a pool there was no memory for was used
 all the same

---
 src/libzt/zt_threads.c | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 8a2b3ff..d3802f6 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -570,12 +570,42 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     return ret;
 }
 
+/* release a pool that was not completely set up */
+static void
+_zt_threadpool_discard(zt_threadpool *tpool) {
+    if (tpool->iput_fd_sigs[0] >= 0) {
+        close(tpool->iput_fd_sigs[0]);
+        close(tpool->iput_fd_sigs[1]);
+    }
+    if (tpool->oput_fd_sigs[0] >= 0) {
+        close(tpool->oput_fd_sigs[0]);
+        close(tpool->oput_fd_sigs[1]);
+    }
+    if (tpool->iput_mutex) {
+        zt_threads_free_lock(tpool->iput_mutex, 0);
+    }
+    if (tpool->oput_mutex) {
+        zt_threads_free_lock(tpool->oput_mutex, 0);
+    }
+    if (tpool->iput_cond) {
+        zt_threads_cond_free(tpool->iput_cond);
+    }
+    if (tpool->oput_cond) {
+        zt_threads_cond_free(tpool->oput_cond);
+    }
+    free(tpool->iput_threads);
+    free(tpool->oput_threads);
+    free(tpool);
+}
+
 zt_threadpool *
 zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_oput) {
     zt_threadpool *tpool;
 
 
-    tpool               = calloc(sizeof(zt_threadpool), 1);
+    if ((tpool = calloc(sizeof(zt_threadpool), 1)) == NULL) {
+        return NULL;
+    }
     tpool->min_threads  = min_threads;
     tpool->max_threads  = max_threads;
     tpool->thread_count = min_threads;
@@ -615,6 +645,14 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
         tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
     }
 
+    if ((min_threads > 0 && !tpool->iput_threads) ||
+        (min_threads > 0 && _zt_threadpool_cbs.oput_loop && !tpool->oput_threads) ||
+        (_zt_threads_lock_cbs.alloc && (!tpool->iput_mutex || !tpool->oput_mutex)) ||
+        (_zt_threads_cond_cbs.alloc && (!tpool->iput_cond || !tpool->oput_cond))) {
+        _zt_threadpool_discard(tpool);
+        return NULL;
+    }
+
     TAILQ_INIT(&tpool->iput_queue);
     TAILQ_INIT(&tpool->oput_queue);
 
-- 
2.43.0


From fcff7cc9f19322680918dd6838c95c8cca0777ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 156/162] fix: threads: starting a pool without memory for a
 thread crashed

---
 src/libzt/zt_threads.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d3802f6..2b16b84 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -475,7 +475,9 @@ zt_threadpool_start(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->iput_threads[i] = zt_threads_alloc_thread();
+            if ((tpool->iput_threads[i] = zt_threads_alloc_thread()) == NULL) {
+                return -1;
+            }
             if (zt_threads_start(tpool->iput_threads[i], NULL,
                                  _zt_threadpool_cbs.iput_loop, (void*)tpool)) {
                 tpool->iput_threads[i] = NULL;
@@ -486,7 +488,9 @@ zt_threadpool_start(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->oput_threads[i] = zt_threads_alloc_thread();
+            if ((tpool->oput_threads[i] = zt_threads_alloc_thread()) == NULL) {
+                return -1;
+            }
             if (zt_threads_start(tpool->oput_threads[i], NULL,
                                  _zt_threadpool_cbs.oput_loop, (void*)tpool)) {
                 tpool->oput_threads[i] = NULL;
-- 
2.43.0


From ee469fe639dfd048d584be3af5219ec3a36ca5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 157/162] fix: threads: work there was no memory to queue
 crashed the pool

---
 src/libzt/zt_threads.c | 51 ++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 2b16b84..d8c7034 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -326,6 +326,26 @@ _zt_threadpool_oput_loop(void *args) {
     return NULL;
 } /* _zt_threadpool_loop */
 
+static int
+_zt_threadpool_queue_oput(zt_threadpool *tpool, zt_threadpool_entry *entry) {
+    int                  i   = 0;
+    int                  ret = 0;
+
+    zt_threads_lock(0, tpool->oput_mutex);
+    {
+        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);
+        zt_threads_cond_signal(tpool->oput_cond, 0);
+
+        if (tpool->oput_fd_sigs[1] >= 0) {
+            if (write(tpool->oput_fd_sigs[1], &i, 1) < 0) {
+                ret = -1;
+            }
+        }
+    }
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    return ret;
+}
 
 static void *
 _zt_threadpool_iput_loop(void *args) {
@@ -379,7 +399,11 @@ _zt_threadpool_iput_loop(void *args) {
             input = _zt_threadpool_cbs.iput_worker(init_data, entry->data);
 
             if (input != NULL) {
-                zt_threadpool_insert_oput(tpool, input);
+                /* the entry carries the result on, there may be no memory
+                 * for another */
+                entry->data = input;
+                _zt_threadpool_queue_oput(tpool, entry);
+                entry       = NULL;
             }
         }
 
@@ -397,7 +421,9 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
     entry->data = data;
 
     zt_threads_lock(0, tpool->iput_mutex);
@@ -419,26 +445,13 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
 int
 zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     zt_threadpool_entry *entry;
-    int                  i   = 0;
-    int                  ret = 0;
-
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
-    entry->data = data;
-
-    zt_threads_lock(0, tpool->oput_mutex);
-    {
-        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);
-        zt_threads_cond_signal(tpool->oput_cond, 0);
 
-        if (tpool->oput_fd_sigs[1] >= 0) {
-            if (write(tpool->oput_fd_sigs[1], &i, 1) < 0) {
-                ret = -1;
-            }
-        }
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
     }
-    zt_threads_unlock(0, tpool->oput_mutex);
+    entry->data = data;
 
-    return ret;
+    return _zt_threadpool_queue_oput(tpool, entry);
 }
 
 void *
-- 
2.43.0


From b4d4f93376bed3411887df4f9a428923c1c6f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 158/162] fix: threads: starting a pool again after a failure
 lost the threads already started

---
 src/libzt/zt_threads.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d8c7034..8c1fa82 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -488,6 +488,9 @@ zt_threadpool_start(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
+            if (tpool->iput_threads[i] != NULL) {
+                continue; /* started before another one failed */
+            }
             if ((tpool->iput_threads[i] = zt_threads_alloc_thread()) == NULL) {
                 return -1;
             }
@@ -501,6 +504,9 @@ zt_threadpool_start(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
+            if (tpool->oput_threads[i] != NULL) {
+                continue; /* started before another one failed */
+            }
             if ((tpool->oput_threads[i] = zt_threads_alloc_thread()) == NULL) {
                 return -1;
             }
-- 
2.43.0


From 037d139e2c5426108a028acec1c7d1ce6c9ff918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:36 +0000
Subject: [PATCH 159/162] fix: time: the usleep macro waited for another time
 than an expression or a variable named usec said

---
 src/libzt/zt_time.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_time.h b/src/libzt/zt_time.h
index 7bdc3ff..f3609a4 100644
--- a/src/libzt/zt_time.h
+++ b/src/libzt/zt_time.h
@@ -56,14 +56,14 @@ void             zt_time_calibrate(void);
     }                                              \
 } while (0)
 #else
-#define usleep(msec)          do {       \
-    long           usec = msec;          \
-    struct timeval delay;                \
-                                         \
-    delay.tv_sec  = msec / 1000000L;     \
-    delay.tv_usec = usec % 1000000L;     \
-                                         \
-    select(0, NULL, NULL, NULL, &delay); \
+#define usleep(usec)          do {                \
+    long           _zt_usec = (usec);             \
+    struct timeval _zt_delay;                     \
+                                                  \
+    _zt_delay.tv_sec  = _zt_usec / 1000000L;      \
+    _zt_delay.tv_usec = _zt_usec % 1000000L;      \
+                                                  \
+    select(0, NULL, NULL, NULL, &_zt_delay);      \
 } while (0)
 #endif
 #endif
-- 
2.43.0


From 8cff2d326bbefc382107aa2b825fc2f77b56ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:36 +0000
Subject: [PATCH 160/162] fix: macros: ZT_BIT_UNSET with an unsigned bit
 cleared the upper half of a wider target

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index bf1bae6..a5d6109 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -163,7 +163,7 @@ BEGIN_C_DECLS
  * Description: unset bit on target
  */
 #define ZT_BIT_UNSET(target, bit) \
-    ((target) &= ~(bit))
+    ((target) &= ~(uintmax_t)(bit))
 
 /*!
  * Name: ZT_BIT_ISSET
-- 
2.43.0


From cf374bd0771f6e11f80e0c69988647fa47de1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:48 +0000
Subject: [PATCH 161/162] fix: replace: vsyslog wrote long texts past its
 buffers

---
 src/libzt/replace/vsyslog.c | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/libzt/replace/vsyslog.c b/src/libzt/replace/vsyslog.c
index fa0a419..cc6f2df 100644
--- a/src/libzt/replace/vsyslog.c
+++ b/src/libzt/replace/vsyslog.c
@@ -25,18 +25,14 @@ extern int   sys_nerr;
 #endif
 
 static char*
-percent_m(char    *obuf, int len, char *ibuf)
+percent_m(char    *obuf, int len, char *ibuf, char *etext)
 {
     char * bp = obuf;
     char * cp = ibuf;
 
     while ((bp - obuf < len) && (*bp = *cp)) {
         if (*cp == '%' && cp[1] == 'm') {
-            if (errno < sys_nerr && errno > 0) {
-                strcpy(bp, sys_errlist[errno]);
-            } else {
-                sprintf(bp, "Unknown Error %d", errno);
-            }
+            strcpy(bp, etext);
             bp += strlen(bp);
             cp += 2;
         } else {
@@ -50,29 +46,42 @@ percent_m(char    *obuf, int len, char *ibuf)
 void
 vsyslog(int severity, char *format, va_list ap)
 {
-    char * fbuf;
-    char * obuf;
-    char * ftmp;
-    int    len;
-    int    flen;
-    int    olen;
+    char    unknown[64];
+    char  * etext = unknown;
+    char  * fbuf;
+    char  * obuf;
+    char  * ftmp;
+    int     err = errno;
+    int     len;
+    int     flen;
+    int     olen;
+    va_list ap2;
 
     zt_assert(format);
 
+    if (err < sys_nerr && err > 0) {
+        etext = sys_errlist[err];
+    } else {
+        sprintf(unknown, "Unknown Error %d", err);
+    }
+
+    /* every %m takes two characters of the format */
     len = strlen(format);
-    flen = len * 2;
-    olen = flen * 3;
+    flen = len + (len / 2) * strlen(etext);
 
     fbuf = zt_calloc(char, flen + 1);
-    obuf = zt_calloc(char, olen + 1);
+    ftmp = percent_m(fbuf, flen, format, etext);
 
-    if ((ftmp = percent_m(fbuf, flen, format)) == NULL) {
-        return;
-    }
+    va_copy(ap2, ap);
+    olen = vsnprintf(NULL, 0, ftmp, ap2);
+    va_end(ap2);
 
-    vsprintf(obuf, ftmp, ap);
-    syslog(severity, "%s", obuf);
+    if (olen >= 0) {
+        obuf = zt_calloc(char, olen + 1);
+        vsnprintf(obuf, olen + 1, ftmp, ap);
+        syslog(severity, "%s", obuf);
+        free(obuf);
+    }
 
     free(fbuf);
-    free(obuf);
 }
-- 
2.43.0


From 8571d67223ea2d573d90f7a6b691133811858e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:48 +0000
Subject: [PATCH 162/162] fix: replace: vsyslog took the m after an escaped
 percent sign for the error text

---
 src/libzt/replace/vsyslog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/replace/vsyslog.c b/src/libzt/replace/vsyslog.c
index cc6f2df..f32ee27 100644
--- a/src/libzt/replace/vsyslog.c
+++ b/src/libzt/replace/vsyslog.c
@@ -35,6 +35,10 @@ percent_m(char    *obuf, int len, char *ibuf, char *etext)
             strcpy(bp, etext);
             bp += strlen(bp);
             cp += 2;
+        } else if (*cp == '%' && cp[1] == '%') { /* not the start of a %m */
+            *++bp = '%';
+            bp++;
+            cp += 2;
         } else {
             bp++;
             cp++;
-- 
2.43.0

