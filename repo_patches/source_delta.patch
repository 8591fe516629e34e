From 6e74636f44653a5cfe9b4e30ba979400a35ae9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 01/40] fix: allocation sizes near SIZE_MAX wrapped around to a
 small chunk

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..2245cef 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1031,7 +1031,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
+    } else if((size % SZ_ALIGNMENT) != 0 && LIKELY(size <= SIZE_MAX - SZ_ALIGNMENT)) {
         size = ALIGN_SZ_UP(size);
     }
 
@@ -1063,9 +1063,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 #endif
 
+    /* Rounding a size this close to SIZE_MAX would wrap around to a
+     * small value. Leave it as is, the big alloc path rejects it */
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
+    } else if((size % SZ_ALIGNMENT) != 0 && LIKELY(size <= SIZE_MAX - SZ_ALIGNMENT)) {
         size = ALIGN_SZ_UP(size);
     }
 
-- 
2.43.0


From 35bd3ffee9a6a9d91980d380a2e1a1be421fc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 02/40] fix: calloc of zero elements returned NULL instead of
 the zero allocation page

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2245cef..db50de2 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1037,7 +1037,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     size_t sz = nmemb * size;
 
-    if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+    if(UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
-- 
2.43.0


From 42feb46e46b99590c776064bd1cd35438998ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 03/40] fix: replacing zone 0 gave it the index of an unused
 zone

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index db50de2..d2c7e0a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -492,7 +492,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     create_guard_page(user_pages_guard_above);
 
     /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 5a25bac5bf76e02cbc06f9e28ae2c77941c10e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 04/40] fix: zones counted chunks their bitmap has no bits for

---
 src/iso_alloc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d2c7e0a..aa56236 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,12 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* The bitmap is only ever used a whole qword at a time. Chunks
+     * past its last full qword have no bits to represent them */
+    if(new_zone->chunk_count > ((uint32_t) new_zone->max_bitmap_idx << 5)) {
+        new_zone->chunk_count = (uint32_t) new_zone->max_bitmap_idx << 5;
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
@@ -1425,7 +1431,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From 5b7b6b4f1858b9381e415f19787f5eff149d6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 05/40] fix: free of a canary or permanently freed chunk went
 undetected

---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index aa56236..fba62a9 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1444,8 +1444,9 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
      * which could result in a page fault */
     bitmap_index_t b = bm[dwords_to_bit_slot];
 
-    /* Double free detection */
-    if(UNLIKELY((GET_BIT(b, which_bit)) == 0)) {
+    /* Double free detection. Canary and permanently free'd chunks have both bits set, they
+     * are not allocated either */
+    if(UNLIKELY((GET_BIT(b, which_bit)) == 0 || (GET_BIT(b, (which_bit + 1))) == 1)) {
         LOG_AND_ABORT("Double free of chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
-- 
2.43.0


From 4a33cd0e33bf4088db78a05437d0da8d0549694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 06/40] fix: looking up a big zone without removing it
 corrupted the used list

---
 src/iso_alloc.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index fba62a9..c54c2f8 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1764,19 +1764,20 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
+            if(remove == true) {
+                _root->big_zone_used_count--;
 
-            _root->big_zone_used_count--;
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev == NULL) {
+                    _root->big_zone_used = big_zone->next;
+                } else {
+                    prev->next = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From b9e8c83c2a629696c8d84400962b3ba6100a6c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 07/40] fix: rounding a page aligned address down gave the
 previous page

---
 include/iso_alloc_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..40cd1eb 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) * (g_page_size))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
-- 
2.43.0


From a49547a3a3da72f6a97bf5dbf9f88f634721911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 08/40] fix: big zone metadata pages were never unmapped

---
 src/iso_alloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index c54c2f8..888bfd7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1850,9 +1850,9 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2095,9 +2095,9 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From 2dbd68b1b8a51c13d946a9172ccc6f0550751a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 09/40] fix: preallocated bitmap pages were split past the
 width of their in use mask

---
 src/iso_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 888bfd7..0261438 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -394,6 +394,12 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
                 }
 
                 int bits_available = g_page_size / new_zone->bitmap_size;
+                const int max_bits = sizeof(_root->bitmaps[i].in_use) * BITS_PER_BYTE;
+
+                /* We cannot track more bitmaps than in_use has bits */
+                if(bits_available > max_bits) {
+                    bits_available = max_bits;
+                }
 
                 for(int z = 0; z < bits_available; z++) {
                     if((GET_BIT(_root->bitmaps[i].in_use, z)) == 0) {
-- 
2.43.0


From d5f2c74a07a0a2c6913b12a095495a5e08d8ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 10/40] fix: preallocated bitmap pages had no guard pages

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0261438..8c645a9 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2183,7 +2183,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From 8a415bf3fc577c18595a5d060552dd4134d0387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 11/40] fix: verifying zones walked the big zone lists without
 their locks

---
 src/iso_alloc_sanity.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..65b743d 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -83,8 +83,13 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
     }
 
     /* Root is locked already */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 2da95f4b18d55d3f5af66d5a2cb4bd0f58f5ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 12/40] fix: big allocations updated the shared seed without
 the root lock

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 8c645a9..2630ba5 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1989,7 +1989,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 
     /* The second page is for meta data and it is placed
      * at a random offset from the start of the page */
+    LOCK_ROOT();
     uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
+    UNLOCK_ROOT();
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
     new_big = (iso_alloc_big_zone_t *) ((void *) new_big + ((random_offset * s) >> 32));
     new_big->free = false;
-- 
2.43.0


From 97ddff39c21571d5bb4feb59c654582123e0a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 13/40] fix: zone members were read after the root lock was
 released

---
 src/iso_alloc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2630ba5..0808432 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1011,7 +1011,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc_bitslot_from_zone(bit_slot_t bit
     return p;
 }
 
-/* Does not require the root is locked */
+/* The cache itself is thread local but this reads
+ * zone members so the root must be locked */
 INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
     _tzc *tzc = zone_cache;
     size_t _zone_cache_count = zone_cache_count;
@@ -1214,8 +1215,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
         void *p = _iso_alloc_bitslot_from_zone(free_bit_slot, zone);
 
         MASK_ZONE_PTRS(zone);
-        UNLOCK_ROOT();
         populate_zone_cache(zone);
+        UNLOCK_ROOT();
 
 #if ARM_MTE
         if(_root->arm_mte_enabled == true) {
@@ -1661,11 +1662,12 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 INTERNAL_HIDDEN void _iso_free_internal(void *p, bool permanent) {
     LOCK_ROOT();
     iso_alloc_zone_t *zone = _iso_free_internal_unlocked(p, permanent, NULL);
-    UNLOCK_ROOT();
 
     if(zone != NULL) {
         populate_zone_cache(zone);
     }
+
+    UNLOCK_ROOT();
 }
 
 INTERNAL_HIDDEN bool _is_zone_retired(iso_alloc_zone_t *zone) {
@@ -2074,8 +2076,9 @@ INTERNAL_HIDDEN size_t _iso_chunk_size(void *p) {
         return big_zone->size;
     }
 
+    size_t chunk_size = zone->chunk_size;
     UNLOCK_ROOT();
-    return zone->chunk_size;
+    return chunk_size;
 }
 
 INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
-- 
2.43.0


From 8c3aa122f6d7318c3a3f1a0a4e77d31e52ddb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 14/40] fix: the profiler recorded frees without the root lock

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0808432..520ba70 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1569,7 +1569,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From 494a2ed74418fd20ab7327f1bacabf51af712dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 15/40] fix: the first allocation initialised the root without
 zero and uaf pages

---
 src/iso_alloc.c | 52 +++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 520ba70..25f2fbe 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -137,26 +137,6 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     _root->zone_handle_mask = rand_uint64();
     _root->big_zone_next_mask = us_rand_uint64(&_root->seed);
     _root->big_zone_canary_secret = us_rand_uint64(&_root->seed);
-}
-
-INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
-    if(_root != NULL) {
-        return;
-    }
-
-    g_page_size = sysconf(_SC_PAGESIZE);
-    g_page_size_shift = _log2(g_page_size);
-
-    iso_alloc_initialize_global_root();
-
-#if THREAD_SUPPORT && !USE_SPINLOCK
-    pthread_mutex_init(&root_busy_mutex, NULL);
-    pthread_mutex_init(&_root->big_zone_free_mutex, NULL);
-    pthread_mutex_init(&_root->big_zone_used_mutex, NULL);
-#if ALLOC_SANITY
-    pthread_mutex_init(&sane_cache_mutex, NULL);
-#endif
-#endif
 
 #if HEAP_PROFILER
     _initialize_profiler();
@@ -170,10 +150,6 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
     _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
 #endif
 
-#if ALLOC_SANITY && UNINIT_READ_SANITY
-    _iso_alloc_setup_userfaultfd();
-#endif
-
 #if ALLOC_SANITY
     _sanity_canary = us_rand_uint64(&_root->seed);
 #endif
@@ -190,6 +166,30 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
 #endif
 }
 
+INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
+    if(_root != NULL) {
+        return;
+    }
+
+    g_page_size = sysconf(_SC_PAGESIZE);
+    g_page_size_shift = _log2(g_page_size);
+
+    iso_alloc_initialize_global_root();
+
+#if THREAD_SUPPORT && !USE_SPINLOCK
+    pthread_mutex_init(&root_busy_mutex, NULL);
+    pthread_mutex_init(&_root->big_zone_free_mutex, NULL);
+    pthread_mutex_init(&_root->big_zone_used_mutex, NULL);
+#if ALLOC_SANITY
+    pthread_mutex_init(&sane_cache_mutex, NULL);
+#endif
+#endif
+
+#if ALLOC_SANITY && UNINIT_READ_SANITY
+    _iso_alloc_setup_userfaultfd();
+#endif
+}
+
 #if AUTO_CTOR_DTOR
 __attribute__((destructor(LAST_DTOR))) void iso_alloc_dtor(void) {
     _iso_alloc_destroy();
@@ -1074,6 +1074,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     if(UNLIKELY(size == 0 && _root != NULL)) {
         return _root->zero_alloc_page;
     }
+
+    const bool zero_size = (size == 0);
 #endif
 
     /* Rounding a size this close to SIZE_MAX would wrap around to a
@@ -1103,7 +1105,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 #if NO_ZERO_ALLOCATIONS
         /* In the unlikely event size is 0 but we hadn't
          * initialized the root yet return the zero page */
-        if(UNLIKELY(size == 0)) {
+        if(UNLIKELY(zero_size)) {
             UNLOCK_ROOT();
             return _root->zero_alloc_page;
         }
-- 
2.43.0


From cb9b304ef6f71e3bf104971e36d1d4feefa06090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 16/40] fix: duplicated strings were not terminated and strndup
 read past n bytes

---
 src/iso_alloc_interfaces.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..2da86c5 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* Include the NUL terminator */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,25 +139,25 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    size_t s_size = 0;
+
+    /* Never read more than n bytes of the source */
+    while(s_size < n && str[s_size] != '\0') {
+        s_size++;
+    }
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
     return p;
 }
 
-- 
2.43.0


From d427a895174308257bde463d0d4fb824869436f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 17/40] fix: memory tags were compared unshifted and rejected
 for chunk sizes that are not a power of two

---
 src/iso_alloc_mem_tags.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..0859404 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
@@ -40,7 +40,7 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
+    if(tag != ((uintptr_t) p >> UNTAGGED_BITS)) {
         LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
     }
 #endif
-- 
2.43.0


From 52021a1140834807c60f153f0e2c4a5a0b960246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 18/40] fix: memory tags of a zone were never refreshed

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 0859404..953f4d6 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From 85b86786c20412170c60ae64487966e2d6bb1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 19/40] fix: destroying a tagged zone leaked its lowest guard
 page

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 25f2fbe..df1b48c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -223,7 +223,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     /* If the zone is tagged then unmap the page holding the tags */
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        void *_mtp = (zone->user_pages_start - s - g_page_size);
+        void *_mtp = (zone->user_pages_start - s - (g_page_size * 2));
         munmap(_mtp, g_page_size + s);
         zone->tagged = false;
     }
-- 
2.43.0


From 65833b814ce3a5bc904b84a732c936a219a1b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 20/40] fix: memory tags were looked up without the root lock

---
 src/iso_alloc_mem_tags.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 953f4d6..b9d19a3 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -9,6 +9,9 @@
  * when passed to this function */
 INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone) {
 #if MEMORY_TAGGING
+    /* Another thread using this zone may have its pointers
+     * unmasked, so they are only stable with the root locked */
+    LOCK_ROOT();
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
     if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
@@ -25,7 +28,9 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 
     _mtp += (chunk_offset / zone->chunk_size);
 
-    return *_mtp;
+    const uint8_t tag = *_mtp;
+    UNLOCK_ROOT();
+    return tag;
 #else
     return 0;
 #endif
-- 
2.43.0


From e07c717dd0ba11cfd0d1af532392073147c37470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 21/40] fix: the sampled allocation lookup table was one entry
 short and its counters could wrap

---
 include/iso_alloc_sanity.h | 4 ++--
 src/iso_alloc_sanity.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..ec31dac 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
@@ -50,7 +50,7 @@ extern int64_t _uf_fd;
 #endif
 
 extern int32_t _sane_sampled;
-extern uint8_t _sane_cache[SANE_CACHE_SIZE];
+extern uint16_t _sane_cache[SANE_CACHE_SIZE];
 
 typedef struct {
     void *address;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 65b743d..e6a7bcb 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -138,7 +138,7 @@ pthread_mutex_t sane_cache_mutex;
 
 uint64_t _sanity_canary;
 int32_t _sane_sampled;
-uint8_t _sane_cache[SANE_CACHE_SIZE];
+uint16_t _sane_cache[SANE_CACHE_SIZE];
 _sane_allocation_t _sane_allocations[MAX_SANE_SAMPLES];
 
 #if UNINIT_READ_SANITY
-- 
2.43.0


From 581a940ae5cb5c75521b06c1a39d3668b534b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 22/40] fix: private zone allocations were sampled instead of
 general ones and sampling raced on its counters

---
 src/iso_alloc.c        |  4 ++--
 src/iso_alloc_sanity.c | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index df1b48c..9a3fa86 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1117,8 +1117,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
-        if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
+    if(zone == NULL) {
+        if(size < g_page_size) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
             void *ps = _iso_alloc_sample(size);
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index e6a7bcb..ef41a50 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -358,7 +358,16 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
 
     _sane_allocation_t *sane_alloc = NULL;
 
+    /* The seed is protected by the root lock */
+    const bool right_align = ((us_rand_uint64(&_root->seed) % 2) == 1);
+
     LOCK_SANITY_CACHE();
+
+    if(_sane_sampled >= MAX_SANE_SAMPLES) {
+        UNLOCK_SANITY_CACHE();
+        return NULL;
+    }
+
     UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
@@ -382,7 +391,7 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     }
 
     /* We may right align the mapping to catch overflows */
-    if((us_rand_uint64(&_root->seed) % 2) == 1) {
+    if(right_align == true) {
         p = (p + g_page_size) - sane_alloc->orig_size;
         sane_alloc->right_aligned = true;
         sane_alloc->address = (void *) ROUND_DOWN_PAGE((uintptr_t) p);
-- 
2.43.0


From 72253dbbb9abd195626b376a9b5afa2ece114f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 23/40] fix: checked memory functions ignored the offset of the
 pointer within its chunk

---
 src/iso_alloc_sanity.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index ef41a50..1068aad 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -4,7 +4,8 @@
 #include "iso_alloc_internal.h"
 
 #if MEMCPY_SANITY || MEMSET_SANITY
-#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
+/* True if n bytes at p, which is within the zone, cross the end of the chunk p is in */
+#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) > p && n > (sz - ((size_t) ((const uint8_t *) p - (const uint8_t *) start) % sz)))
 #endif
 
 #if ENABLE_ASAN
-- 
2.43.0


From 0838a2c6d4d8aa793eeccb55fc5de255638975b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 24/40] fix: zero was accepted as a power of two alignment

---
 src/iso_alloc_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..33047de 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -198,7 +198,7 @@ int32_t name_mapping(void *p, size_t sz, const char *name) {
 }
 
 bool is_pow2(uint64_t sz) {
-    return (sz & (sz - 1)) == 0;
+    return sz != 0 && (sz & (sz - 1)) == 0;
 }
 
 size_t next_pow2(size_t sz) {
-- 
2.43.0


From c2f7953d908f4d077909b7681de1d2cec979e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 25/40] fix: naming a private zone used its masked address

---
 src/iso_alloc_interfaces.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 2da86c5..7bbe7ba 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -244,7 +244,10 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    LOCK_ROOT();
+    int32_t r = name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
+    UNLOCK_ROOT();
+    return r;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From 331b5db94783ed12f6f64c83d0ac2e5ff1ad19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 26/40] fix: cleanup on destroy unmapped too little, thread
 local storage and unlocked mutexes it did not hold

---
 src/iso_alloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9a3fa86..2296c61 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2166,7 +2166,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
 #endif
 
     LOCK_BIG_ZONE_USED();
@@ -2180,12 +2180,12 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+#if !THREAD_SUPPORT
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
@@ -2202,7 +2202,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From 50f27295fb470a16cb1a5424a470eaef0df2da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 27/40] fix: the profiler indexed past its table for the
 largest chunk size

---
 include/iso_alloc_profiler.h | 2 +-
 src/iso_alloc_profiler.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..a4fcc41 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -30,7 +30,7 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..b8c8385 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
-- 
2.43.0


From a85612e0fd38e8ab90cbbb40096b56bebf7b7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 28/40] fix: trace queries copied a single trace however many
 were recorded

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index b8c8385..0fcf980 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sz * sizeof(iso_alloc_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sz * sizeof(iso_free_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
-- 
2.43.0


From 2137181493ad1ab4c2bd30e8f43a67345afc51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 29/40] fix: zone usage in the profile was always 0 or 100
 percent

---
 src/iso_alloc_profiler.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 0fcf980..772a51c 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -176,7 +176,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
      * in use and previously used by this zone */
     if(profile == true) {
         uint64_t total = (in_use + was_used);
-        return (uint64_t) ((float) (total / zone->chunk_count) * 100.0);
+        return (total * 100) / zone->chunk_count;
     }
 #endif
     return in_use;
@@ -404,13 +404,11 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
          * the differences between canary and leaked chunks.
          * So lets just use the full count */
         if(zone->is_full) {
-            used = zone->chunk_count;
+            used = 100;
         } else {
             used = _iso_alloc_zone_leak_detector(zone, true);
         }
 
-        used = (int32_t) ((float) (used / zone->chunk_count) * 100.0);
-
         if(used > CHUNK_USAGE_THRESHOLD) {
             _zone_profiler_map[zone->chunk_size].count++;
         }
-- 
2.43.0


From 4136a48cd412eb9c4629fb17bdf6658096bdfd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 30/40] fix: the first call of a recorded backtrace was not
 counted

---
 src/iso_alloc_profiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 772a51c..7eac6bb 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -440,6 +440,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         if(abts == NULL) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
 
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
@@ -474,6 +477,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
         if(fbts == NULL) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
+            fbts->call_count = 1;
 
             _save_free_backtrace(fbts);
             _free_bts_count++;
-- 
2.43.0


From 6d4592977e9f4dc571c14a73e219e0f2a89cecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 31/40] fix: diagnostics misprinted negative numbers, dropped
 text and could overrun their buffer

---
 src/iso_alloc_printf.c | 90 ++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/src/iso_alloc_printf.c b/src/iso_alloc_printf.c
index 1bbb7c7..6c1d55c 100644
--- a/src/iso_alloc_printf.c
+++ b/src/iso_alloc_printf.c
@@ -15,7 +15,11 @@
  * called from the LOG and LOG_AND_ABORT macros. We need to
  * be able to print basic log messages without invoking
  * malloc() or we run the risk of using a corrupted heap */
+#if THREAD_SUPPORT
+static __thread int8_t fmt_buf[64];
+#else
 static int8_t fmt_buf[64];
+#endif
 static const int8_t asc_hex[] = "0123456789abcdef";
 
 INTERNAL_HIDDEN int8_t *_fmt(uint64_t n, uint32_t base) {
@@ -38,89 +42,73 @@ INTERNAL_HIDDEN int8_t *_fmt(uint64_t n, uint32_t base) {
     return ptr;
 }
 
+/* Appends as much of s as fits */
+static char *_append(char *p, const char *end, const char *s) {
+    while(*s != '\0' && p < end) {
+        *p++ = *s++;
+    }
+
+    return p;
+}
+
 INTERNAL_HIDDEN void _iso_alloc_printf(int32_t fd, const char *f, ...) {
     if(UNLIKELY(f == NULL)) {
         return;
     }
 
-    uint64_t i;
-    uint32_t j;
-    char *s;
     va_list arg;
     va_start(arg, f);
     char out[65535];
     char *p = out;
+    /* Leave room for the NUL byte */
+    const char *end = out + sizeof(out) - 1;
     __builtin_memset(p, 0x0, sizeof(out));
 
-    for(const char *idx = f; *idx != '\0'; idx++) {
-        if(p >= (char *) (out + sizeof(out))) {
-            break;
+    for(const char *idx = f; *idx != '\0' && p < end; idx++) {
+        if(*idx != '%') {
+            *p++ = *idx;
+            continue;
         }
 
-        while(*idx != '%' && *idx != '\0') {
-            *p = *idx;
-            p++;
-
-            if(*idx == '\n') {
-                break;
-            }
+        idx++;
+        bool wide = false;
 
+        while(*idx == 'l' || *idx == 'z') {
+            wide = true;
             idx++;
         }
 
-        idx++;
-
         if(*idx == '\0') {
             break;
         }
 
         if(*idx == 'x' || *idx == 'p') {
-            i = va_arg(arg, int64_t);
-            s = (char *) _fmt(i, 16);
-            __builtin_strncpy(p, s, strlen(s));
-            p += strlen(s);
-        } else if(*idx == 'd' || *idx == 'u') {
-            j = va_arg(arg, int32_t);
-
-            if(0 > j) {
-                j = -j;
-                *p = '-';
-                p++;
-            }
-
-            s = (char *) _fmt(j, 10);
-
-            __builtin_strncpy(p, s, strlen(s));
-            p += strlen(s);
-        } else if(*idx == 'l') {
-            if(*(idx + 1) == 'd' || *(idx + 1) == 'u') {
-                idx++;
+            p = _append(p, end, (const char *) _fmt(va_arg(arg, uint64_t), 16));
+        } else if(*idx == 'd') {
+            int64_t i = wide ? va_arg(arg, int64_t) : va_arg(arg, int32_t);
+            uint64_t u = i;
+
+            if(i < 0) {
+                u = -u;
+                p = _append(p, end, "-");
             }
 
-            i = va_arg(arg, int64_t);
-
-            if(0 > i) {
-                i = -i;
-                *p = '-';
-                p++;
-            }
-
-            s = (char *) _fmt(i, 10);
-
-            __builtin_strncpy(p, s, strlen(s));
-            p += strlen(s);
+            p = _append(p, end, (const char *) _fmt(u, 10));
+        } else if(*idx == 'u') {
+            p = _append(p, end, (const char *) _fmt(wide ? va_arg(arg, uint64_t) : va_arg(arg, uint32_t), 10));
         } else if(*idx == 's') {
-            s = va_arg(arg, char *);
+            const char *s = va_arg(arg, char *);
 
             if(s == NULL) {
                 break;
             }
 
-            __builtin_strncpy(p, s, strlen(s));
-            p += strlen(s);
+            p = _append(p, end, s);
+        } else if(*idx == '%') {
+            *p++ = '%';
         }
     }
 
-    (void) !write(fd, out, strlen(out));
+    (void) !write(fd, out, p - out);
     va_end(arg);
 }
-- 
2.43.0


From 64e24e1dc2a001a13c4743b315e647508009c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 32/40] fix: aligned nothrow new and delete did not replace the
 standard ones

---
 src/iso_alloc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..d5fb235 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -82,19 +82,19 @@ EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val) noexc
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
     return iso_alloc(size);
 }
 
-EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
     return iso_alloc(size);
 }
 
-EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
-- 
2.43.0


From cc8aeecf2dbfb91a36ad4ba9fd55c70eb7a73b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 33/40] fix: throwing operator new returned NULL when
 allocation failed

---
 src/iso_alloc.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index d5fb235..3d51c00 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -19,15 +19,34 @@ void iso_cpp_handler() {
 extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
     std::set_new_handler(iso_cpp_handler);
 }
+
+// A throwing operator new never returns NULL. It calls
+// the new handler until it frees memory or throws
+static inline void *iso_new(size_t size) {
+    void *p;
+
+    while((p = iso_alloc(size)) == NULL) {
+        std::new_handler handler = std::get_new_handler();
+
+        if(handler == NULL) {
+            throw std::bad_alloc();
+        }
+
+        handler();
+    }
+
+    return p;
+}
 #else
 #define NEW_EXCEPT
+#define iso_new iso_alloc
 #endif
 
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -35,7 +54,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -67,11 +86,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
-- 
2.43.0


From aad7732e2f369d34e67dabbe35fd515d318167cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 34/40] fix: iso_alloc_new_zone returns NULL when no zone can
 be created

---
 src/iso_alloc_interfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7bbe7ba..f7771b7 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -232,6 +232,12 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    /* Do not hand out the handle mask if there is no zone */
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 898763d74cb55a399c8b662f3c36e68dd9617687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 35/40] fix: fall back to regular pages when huge pages are not
 available

---
 src/iso_alloc_util.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 33047de..9537c3e 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,15 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *addr = p;
+    p = mmap(addr, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* Huge pages may not be available on this system */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(addr, sz, prot, flags & ~MAP_HUGETLB, fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From 442ee18c67edb162a413f6425c6d4185df836247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 36/40] fix: hooked memory functions dereferenced the root
 before it was initialised

---
 src/iso_alloc_sanity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 1068aad..9df887d 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -442,7 +442,8 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
 INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    /* Nothing to check before the root is initialized */
+    if(n > SMALLEST_CHUNK_SZ && LIKELY(_root != NULL)) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -494,7 +495,8 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
 
 INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    /* Nothing to check before the root is initialized */
+    if(n > SMALLEST_CHUNK_SZ && LIKELY(_root != NULL)) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -535,7 +537,8 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
 INTERNAL_HIDDEN void *_iso_alloc_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    /* Nothing to check before the root is initialized */
+    if(n > SMALLEST_CHUNK_SZ && LIKELY(_root != NULL)) {
         iso_alloc_zone_t *zone = search_chunk_lookup_table(dest);
         void *user_pages_start = UNMASK_USER_PTR(zone);
 
-- 
2.43.0


From e74441f6df2714f323759f2529dd47dc695b810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 37/40] fix: sampled allocations were released through interior
 pointers and oversized sizes

---
 include/iso_alloc_sanity.h |  2 +-
 src/iso_alloc.c            |  4 ++--
 src/iso_alloc_sanity.c     | 17 ++++++++++++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index ec31dac..fb71706 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -69,7 +69,7 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *uf_fd);
 INTERNAL_HIDDEN INLINE void write_sanity_canary(void *p);
 INTERNAL_HIDDEN INLINE void check_sanity_canary(_sane_allocation_t *sane_alloc);
 INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size);
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p);
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size);
 INTERNAL_HIDDEN int32_t _remove_from_sane_trace(void *p);
 INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p);
 #endif
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2296c61..8a61d9a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1563,7 +1563,7 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, 0);
 
     if(r == OK) {
         return;
@@ -1622,7 +1622,7 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, size);
 
     if(r == OK) {
         return;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 9df887d..74ef2c2 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -330,11 +330,26 @@ INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p) {
     return NULL;
 }
 
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
+/* The size is 0 if the caller does not know it */
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
     LOCK_SANITY_CACHE();
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+        const void *start = sane_alloc->address;
+
+        if(sane_alloc->right_aligned == true) {
+            start += g_page_size - sane_alloc->orig_size;
+        }
+
+        if(UNLIKELY(p != start)) {
+            LOG_AND_ABORT("Pointer 0x%p is not the start of the sampled allocation at 0x%p", p, start);
+        }
+
+        if(UNLIKELY(sane_alloc->orig_size < size)) {
+            LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled allocation 0x%p", sane_alloc->orig_size, size, p);
+        }
+
         check_sanity_canary(sane_alloc);
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
-- 
2.43.0


From 708e9ed45adb4cf737e5c815488facdfb0987990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 38/40] fix: a zero size request could see a partly initialised
 root

---
 src/iso_alloc.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 8a61d9a..2dea3a4 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1071,10 +1071,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size) {
 #if NO_ZERO_ALLOCATIONS
-    if(UNLIKELY(size == 0 && _root != NULL)) {
-        return _root->zero_alloc_page;
-    }
-
     const bool zero_size = (size == 0);
 #endif
 
@@ -1101,20 +1097,21 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
         g_page_size = sysconf(_SC_PAGESIZE);
         g_page_size_shift = _log2(g_page_size);
         iso_alloc_initialize_global_root();
-
-#if NO_ZERO_ALLOCATIONS
-        /* In the unlikely event size is 0 but we hadn't
-         * initialized the root yet return the zero page */
-        if(UNLIKELY(zero_size)) {
-            UNLOCK_ROOT();
-            return _root->zero_alloc_page;
-        }
-#endif
 #else
         LOG_AND_ABORT("Root never initialized!");
 #endif
     }
 
+#if NO_ZERO_ALLOCATIONS
+    /* Another thread may be initializing the root, so
+     * this can only be decided with the root locked */
+    if(UNLIKELY(zero_size)) {
+        void *zero_page = _root->zero_alloc_page;
+        UNLOCK_ROOT();
+        return zero_page;
+    }
+#endif
+
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
     if(zone == NULL) {
-- 
2.43.0


From 062b6438a0b1d16b6c28297394f0c415fb6b2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 39/40] fix: the profiler printed an uninitialised symbol name
 for unknown addresses

---
 src/iso_alloc_profiler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 7eac6bb..d79a187 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -343,9 +343,9 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) abts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            /* dl is not written to when the address is unknown */
+            if(dladdr((void *) abts->callers[j], &dl) != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", abts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", abts->callers[j]);
@@ -364,9 +364,9 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) fbts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            /* dl is not written to when the address is unknown */
+            if(dladdr((void *) fbts->callers[j], &dl) != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", fbts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", fbts->callers[j]);
-- 
2.43.0


From 76c40f1d73490349586927765a31fbeb06b7bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 40/40] fix: destroying the allocator twice crashed

The lists of big blocks still pointed to unmapped memory after the
allocator was destroyed, and the page for zero size allocations was
unmapped twice. An explicit call to iso_alloc_destroy() in a program
with big blocks crashed when its destructor ran. In builds that clean
up, the root pointer itself was left dangling. The zero size and the
use-after-free pages now stay mapped as long as the root does: their
addresses are still handed out.
---
 src/iso_alloc.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2dea3a4..3172f21 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2116,6 +2116,10 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 }
 
 INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
+    if(_root == NULL) {
+        return;
+    }
+
     LOCK_ROOT();
 
     flush_chunk_quarantine();
@@ -2126,14 +2130,6 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     _iso_output_profile();
 #endif
 
-#if NO_ZERO_ALLOCATIONS
-    munmap(_root->zero_alloc_page, g_page_size);
-#endif
-
-#if UAF_PTR_PAGE
-    munmap(_root->uaf_ptr_page, g_page_size);
-#endif
-
 #if DEBUG && (LEAK_DETECTOR || MEM_USAGE)
 #if MEM_USAGE
     uint64_t mb = 0;
@@ -2168,13 +2164,29 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
     LOCK_BIG_ZONE_USED();
     _free_big_zone_list(_root->big_zone_used);
+    _root->big_zone_used = NULL;
+    _root->big_zone_used_count = 0;
     UNLOCK_BIG_ZONE_USED();
 
     LOCK_BIG_ZONE_FREE();
     _free_big_zone_list(_root->big_zone_free);
+    _root->big_zone_free = NULL;
+    _root->big_zone_free_count = 0;
     UNLOCK_BIG_ZONE_FREE();
 
 #if ISO_DTOR_CLEANUP
+    clear_zone_cache();
+
+    /* These addresses are still handed out and compared
+     * against as long as the root exists */
+#if NO_ZERO_ALLOCATIONS
+    munmap(_root->zero_alloc_page, g_page_size);
+#endif
+
+#if UAF_PTR_PAGE
+    munmap(_root->uaf_ptr_page, g_page_size);
+#endif
+
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
 #if !THREAD_SUPPORT
@@ -2195,6 +2207,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
+    _root = NULL;
 #endif
     UNLOCK_ROOT();
 
-- 
2.43.0

