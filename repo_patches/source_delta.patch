From 752fce8e828e464b92b0a11186c621bc5c84f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 01/55] fix: critnib: updating an existing key cannot run out
 of memory

The tracker relies on it: splitting or merging under memory pressure hit
assert(cret == 0) after the upstream provider had already been changed.
---
 src/critnib/critnib.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..2222a4d 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -310,6 +310,20 @@ static struct critnib_leaf *alloc_leaf(struct critnib *__restrict c) {
 int critnib_insert(struct critnib *c, word key, void *value, int update) {
     utils_mutex_lock(&c->mutex);
 
+    if (update) {
+        // Replacing the value of an existing key needs no memory,
+        // so it must not fail for the lack of it.
+        struct critnib_node *e = c->root;
+        while (e && !is_leaf(e)) {
+            e = e->child[slice_index(key, e->shift)];
+        }
+        if (e && to_leaf(e)->key == key) {
+            utils_atomic_store_release_ptr(&to_leaf(e)->value, value);
+            utils_mutex_unlock(&c->mutex);
+            return 0;
+        }
+    }
+
     struct critnib_leaf *k = alloc_leaf(c);
     if (!k) {
         utils_mutex_unlock(&c->mutex);
-- 
2.43.0


From 37877e6fb5117a2def63c0574196872112861efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 02/55] fix: critnib: nearest-key lookups missed keys under
 concurrent removal

find_predecessor() and find_successor() loaded the chosen child a second time
and gave up when it had been removed in between; find_le() and find_ge() tried
only the first sibling even when its subtree had just become empty. Both
reported "not found" although another qualifying key was present throughout.
---
 src/critnib/critnib.c | 89 ++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 2222a4d..43bf088 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -533,33 +533,36 @@ void *critnib_get(struct critnib *c, word key) {
 
 /*
  * internal: find_predecessor -- return the rightmost leaf in a subtree
+ *
+ * A child seen here may lose its last leaf to a concurrent removal before it is
+ * searched, so an empty answer means that the next one has to be tried.
  */
 static struct critnib_leaf *
 find_predecessor(struct critnib_node *__restrict n) {
-    while (1) {
-        int nib;
-        for (nib = NIB; nib >= 0; nib--) {
-            struct critnib_node *m;
-            utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
-            if (m) {
-                break;
-            }
+    for (int nib = NIB; nib >= 0; nib--) {
+        struct critnib_node *m;
+        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
+        if (!m) {
+            continue;
         }
 
-        if (nib < 0) {
-            return NULL;
+        if (is_leaf(m)) {
+            return to_leaf(m);
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
+        // only nodes freed (and reused) meanwhile are not ordered by shift:
+        // the result is going to be discarded, do not follow the free list
+        if (m->shift >= n->shift) {
+            continue;
         }
 
-        if (is_leaf(n)) {
-            return to_leaf(n);
+        struct critnib_leaf *k = find_predecessor(m);
+        if (k) {
+            return k;
         }
     }
+
+    return NULL;
 }
 
 /*
@@ -619,12 +622,11 @@ static struct critnib_leaf *find_le(struct critnib_node *__restrict n,
         struct critnib_node *m;
         utils_atomic_load_acquire_ptr((void **)&n->child[nib - 1], (void **)&m);
         if (m) {
-            n = m;
-            if (is_leaf(n)) {
-                return to_leaf(n);
+            struct critnib_leaf *k =
+                is_leaf(m) ? to_leaf(m) : find_predecessor(m);
+            if (k) {
+                return k;
             }
-
-            return find_predecessor(n);
         }
     }
 
@@ -653,33 +655,35 @@ void *critnib_find_le(struct critnib *c, word key) {
 }
 
 /*
- * internal: find_successor -- return the rightmost leaf in a subtree
+ * internal: find_successor -- return the leftmost leaf in a subtree
+ *
+ * See find_predecessor().
  */
 static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
-    while (1) {
-        unsigned nib;
-        for (nib = 0; nib <= NIB; nib++) {
-            struct critnib_node *m;
-            utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
-            if (m) {
-                break;
-            }
+    for (unsigned nib = 0; nib <= NIB; nib++) {
+        struct critnib_node *m;
+        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
+        if (!m) {
+            continue;
         }
 
-        if (nib > NIB) {
-            return NULL;
+        if (is_leaf(m)) {
+            return to_leaf(m);
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
+        // only nodes freed (and reused) meanwhile are not ordered by shift:
+        // the result is going to be discarded, do not follow the free list
+        if (m->shift >= n->shift) {
+            continue;
         }
 
-        if (is_leaf(n)) {
-            return to_leaf(n);
+        struct critnib_leaf *k = find_successor(m);
+        if (k) {
+            return k;
         }
     }
+
+    return NULL;
 }
 
 /*
@@ -718,12 +722,11 @@ static struct critnib_leaf *find_ge(struct critnib_node *__restrict n,
         struct critnib_node *m;
         utils_atomic_load_acquire_ptr((void **)&n->child[nib + 1], (void **)&m);
         if (m) {
-            n = m;
-            if (is_leaf(n)) {
-                return to_leaf(n);
+            struct critnib_leaf *k =
+                is_leaf(m) ? to_leaf(m) : find_successor(m);
+            if (k) {
+                return k;
             }
-
-            return find_successor(n);
         }
     }
 
-- 
2.43.0


From 52a103b85e62c4bf1195913d6e565cbccae35c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 03/55] fix: tracker: count the nested regions of a block
 atomically

Threads allocating or freeing inside one outer block lost updates: a live
nested block then resolved to the outer pool, or the outer block could never
be removed from the tracker.
---
 src/provider/provider_tracking.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..cb4ba88 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -151,7 +151,7 @@ umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
                   (void *)hTracker, level, (void *)pool, ptr, size);
 
         if (parent_value) {
-            parent_value->n_children++;
+            utils_atomic_increment_u64((uint64_t *)&parent_value->n_children);
             LOG_DEBUG(
                 "child #%zu added to memory region: tracker=%p, level=%i, "
                 "pool=%p, ptr=%p, size=%zu",
@@ -268,7 +268,7 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
             "pool=%p, ptr=%p, size=%zu",
             parent_value->n_children, (void *)hTracker, level - 1,
             (void *)parent_value->pool, (void *)parent_key, parent_value->size);
-        parent_value->n_children--;
+        utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
     }
 
     umf_ba_free(hTracker->alloc_info_allocator, value);
-- 
2.43.0


From 277bf061f35d519ae2d17e0bd2a747cfeceee07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/55] fix: tracker: a failed split leaves the block whole, a
 running one covered

When the entry for the high part could not be allocated the upstream provider
had already split the block, and between the two updates of the map the high
part resolved to nothing. Add the high part first.
---
 src/provider/provider_tracking.c | 44 ++++++++++++++------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index cb4ba88..b206335 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -540,10 +540,29 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    void *highPtr = (void *)(((uintptr_t)ptr) + firstSize);
+    size_t secondSize = totalSize - firstSize;
+
+    // Add the high part first: it is the only step that needs memory and it can
+    // be undone. We'll have a duplicate entry for the range
+    // [highPtr, highValue->size] but this is fine, the value is the same anyway
+    // and we forbid removing that range concurrently. The range never is without
+    // an entry.
+    ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
+                                     highPtr, secondSize, parent_key,
+                                     parent_value);
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("failed to add the split region to the tracker, ptr=%p, "
+                "size=%zu, ret=%d",
+                highPtr, secondSize, ret);
+        goto err;
+    }
+
     ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                            firstSize);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("upstream provider failed to split the region");
+        umfMemoryTrackerRemove(provider->hTracker, highPtr);
         goto err;
     }
 
@@ -555,31 +574,6 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     assert(cret == 0);
     (void)cret;
 
-    void *highPtr = (void *)(((uintptr_t)ptr) + firstSize);
-    size_t secondSize = totalSize - firstSize;
-
-    // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
-    // the value is the same anyway and we forbid removing that range concurrently
-    ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
-                                     highPtr, secondSize, parent_key,
-                                     parent_value);
-    if (ret != UMF_RESULT_SUCCESS) {
-        LOG_ERR("failed to add the split region to the tracker, ptr=%p, "
-                "size=%zu, ret=%d",
-                highPtr, secondSize, ret);
-        // revert the split
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        cret = critnib_insert(provider->hTracker->alloc_segments_map[level],
-                              (uintptr_t)ptr, (void *)value, 1 /* update */);
-        // this cannot fail since we know the element exists (nothing to allocate)
-        assert(cret == 0);
-        (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
-        // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
-        goto err;
-    }
-
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
-- 
2.43.0


From 5908ca214cc190bd33b488b4ea4405815c9e1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 05/55] fix: tracker: do not free values that a concurrent
 lookup may still read

Lookups take no lock, but removing, splitting or merging a region freed its
value at once. A lookup of a neighbouring address then read a freed or already
reused value and could report a block of the wrong pool, base or size. Values
are now freed when no lookup is running.
---
 src/provider/provider_tracking.c | 115 ++++++++++++++++++++++++++++---
 1 file changed, 104 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index b206335..827cf91 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -41,9 +41,21 @@ struct umf_memory_tracker_t {
     utils_mutex_t splitMergeMutex;
     umf_ba_pool_t *ipc_info_allocator;
     critnib *ipc_segments_map;
+    // number of lookups that may hold values of the maps
+    uint64_t n_readers;
+    utils_mutex_t retiredMutex;
+    struct tracker_retired_t *retired;
 };
 
+// Lookups take no lock, so a value removed from a map may still be in use by
+// a lookup. It is retired: put on a list and freed as soon as no lookup runs.
+typedef struct tracker_retired_t {
+    struct tracker_retired_t *next;
+    umf_ba_pool_t *allocator;
+} tracker_retired_t;
+
 typedef struct tracker_alloc_info_t {
+    tracker_retired_t retired; // must be the first member
     umf_memory_pool_handle_t pool;
     size_t size;
     // number of overlapping memory regions
@@ -53,11 +65,49 @@ typedef struct tracker_alloc_info_t {
 } tracker_alloc_info_t;
 
 typedef struct tracker_ipc_info_t {
+    tracker_retired_t retired; // must be the first member
     size_t size;
     umf_memory_provider_handle_t provider;
     ipc_opened_cache_value_t *ipc_cache_value;
 } tracker_ipc_info_t;
 
+static void tracker_reader_enter(umf_memory_tracker_handle_t hTracker) {
+    utils_atomic_increment_u64(&hTracker->n_readers);
+}
+
+static void tracker_reader_exit(umf_memory_tracker_handle_t hTracker) {
+    utils_atomic_decrement_u64(&hTracker->n_readers);
+}
+
+static void tracker_free_retired(struct tracker_retired_t *r) {
+    while (r) {
+        struct tracker_retired_t *next = r->next;
+        umf_ba_free(r->allocator, r);
+        r = next;
+    }
+}
+
+// Free a value that has already been removed from (or replaced in) its map.
+static void tracker_retire(umf_memory_tracker_handle_t hTracker,
+                           umf_ba_pool_t *allocator, void *value) {
+    struct tracker_retired_t *r = value;
+    struct tracker_retired_t *to_free = NULL;
+
+    r->allocator = allocator;
+
+    utils_mutex_lock(&hTracker->retiredMutex);
+    r->next = hTracker->retired;
+    hTracker->retired = r;
+    // A lookup that starts from now on cannot reach any value of the list.
+    if (utils_fetch_and_add_u64(&hTracker->n_readers, 0) == 0) {
+        to_free = hTracker->retired;
+        hTracker->retired = NULL;
+    }
+    utils_mutex_unlock(&hTracker->retiredMutex);
+
+    tracker_free_retired(to_free);
+}
+
 // Get the most nested (on the highest level) allocation segment in the map with the `ptr` key.
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
@@ -188,6 +238,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
     int level = 0;
     int found = 0;
 
+    tracker_reader_enter(hTracker);
+
     // Find the most nested (in the highest level) entry
     // in the critnib maps that contains the given 'ptr' pointer.
     do {
@@ -206,6 +258,7 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                 // TODO: we need to support an arbitrary amount of layers in the future
                 LOG_ERR("tracker level is too high, ptr=%p, size=%zu", ptr,
                         size);
+                tracker_reader_exit(hTracker);
                 return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
             }
             if (((uintptr_t)ptr + size) > (rkey + rsize)) {
@@ -215,6 +268,7 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                     "that exceeds the parent value (pool=%p, ptr=%p, size=%zu)",
                     (void *)pool, ptr, size, (void *)rvalue->pool, (void *)rkey,
                     (size_t)rsize);
+                tracker_reader_exit(hTracker);
                 return UMF_RESULT_ERROR_INVALID_ARGUMENT;
             }
             parent_key = rkey;
@@ -225,11 +279,9 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
 
     umf_result = umfMemoryTrackerAddAtLevel(hTracker, level, pool, ptr, size,
                                             parent_key, parent_value);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        return umf_result;
-    }
+    tracker_reader_exit(hTracker);
 
-    return UMF_RESULT_SUCCESS;
+    return umf_result;
 }
 
 static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
@@ -245,12 +297,15 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     uintptr_t parent_key = 0;
     int level = 0;
 
+    tracker_reader_enter(hTracker);
+
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         hTracker, ptr, &level, &parent_key, &parent_value, 1 /* no_children */);
     if (!value) {
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
+        tracker_reader_exit(hTracker);
         return UMF_RESULT_ERROR_UNKNOWN;
     }
 
@@ -271,7 +326,8 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
         utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
     }
 
-    umf_ba_free(hTracker->alloc_info_allocator, value);
+    tracker_reader_exit(hTracker);
+    tracker_retire(hTracker, hTracker->alloc_info_allocator, value);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -339,7 +395,7 @@ umfMemoryTrackerRemoveIpcSegment(umf_memory_tracker_handle_t hTracker,
               (void *)hTracker, ptr, v->size, (void *)v->provider,
               (void *)v->ipc_cache_value);
 
-    umf_ba_free(hTracker->ipc_info_allocator, value);
+    tracker_retire(hTracker, hTracker->ipc_info_allocator, value);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -379,6 +435,8 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     int level = 0;
     int found = 0;
 
+    tracker_reader_enter(TRACKER);
+
     do {
         assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
         found = critnib_find(TRACKER->alloc_segments_map[level], (uintptr_t)ptr,
@@ -398,6 +456,7 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     if (!top_most_value) {
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
+        tracker_reader_exit(TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
@@ -405,6 +464,8 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     pAllocInfo->baseSize = top_most_value->size;
     pAllocInfo->pool = top_most_value->pool;
 
+    tracker_reader_exit(TRACKER);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -428,11 +489,15 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
 
     uintptr_t rkey;
     tracker_ipc_info_t *rvalue = NULL;
+
+    tracker_reader_enter(TRACKER);
+
     int found = critnib_find(TRACKER->ipc_segments_map, (uintptr_t)ptr, FIND_LE,
                              (void *)&rkey, (void **)&rvalue);
     if (!found || (uintptr_t)ptr >= rkey + rvalue->size) {
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
+        tracker_reader_exit(TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
@@ -440,6 +505,8 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
     pIpcInfo->baseSize = rvalue->size;
     pIpcInfo->provider = rvalue->provider;
 
+    tracker_reader_exit(TRACKER);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -523,6 +590,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     int level = 0;
 
+    tracker_reader_enter(provider->hTracker);
+
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
@@ -574,8 +643,10 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     assert(cret == 0);
     (void)cret;
 
+    tracker_reader_exit(provider->hTracker);
     // free the original value
-    umf_ba_free(provider->hTracker->alloc_info_allocator, value);
+    tracker_retire(provider->hTracker, provider->hTracker->alloc_info_allocator,
+                   value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG(
@@ -585,6 +656,7 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     return UMF_RESULT_SUCCESS;
 
 err:
+    tracker_reader_exit(provider->hTracker);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 err_lock:
     umf_ba_free(provider->hTracker->alloc_info_allocator, splitValue);
@@ -622,6 +694,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_lock;
     }
 
+    tracker_reader_enter(provider->hTracker);
+
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
         provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
         0 /* no_children */); // can have children
@@ -675,14 +749,18 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     assert(cret == 0);
     (void)cret;
 
-    // free old value that we just replaced with mergedValue
-    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
-
     void *erasedhighValue = critnib_remove(
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
-    umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
+    (void)erasedhighValue;
+
+    tracker_reader_exit(provider->hTracker);
+    // free the old values that were replaced with mergedValue
+    tracker_retire(provider->hTracker, provider->hTracker->alloc_info_allocator,
+                   lowValue);
+    tracker_retire(provider->hTracker, provider->hTracker->alloc_info_allocator,
+                   highValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
@@ -699,6 +777,7 @@ err_assert:
     assert(0);
 
 not_merged:
+    tracker_reader_exit(provider->hTracker);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
 err_lock:
@@ -788,6 +867,8 @@ static void check_if_tracker_is_empty(umf_memory_tracker_handle_t hTracker,
                                       umf_memory_pool_handle_t pool) {
     size_t n_items = 0;
 
+    tracker_reader_enter(hTracker);
+
     for (int i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         uintptr_t last_key = 0;
         uintptr_t rkey;
@@ -803,6 +884,8 @@ static void check_if_tracker_is_empty(umf_memory_tracker_handle_t hTracker,
         }
     }
 
+    tracker_reader_exit(hTracker);
+
     if (n_items) {
         // Do not log the error if we are running in the proxy library,
         // because it may need those resources till
@@ -1205,6 +1288,11 @@ umf_memory_tracker_handle_t umfMemoryTrackerCreate(void) {
         goto err_destroy_alloc_info_allocator;
     }
 
+    mutex_ptr = utils_mutex_init(&handle->retiredMutex);
+    if (!mutex_ptr) {
+        goto err_destroy_split_merge_mutex;
+    }
+
     int i;
     for (i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         handle->alloc_segments_map[i] = critnib_new();
@@ -1237,6 +1325,8 @@ err_destroy_alloc_segments_map:
             critnib_delete(handle->alloc_segments_map[i]);
         }
     }
+    utils_mutex_destroy_not_free(&handle->retiredMutex);
+err_destroy_split_merge_mutex:
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
 err_destroy_alloc_info_allocator:
     umf_ba_destroy(alloc_info_allocator);
@@ -1271,6 +1361,9 @@ void umfMemoryTrackerDestroy(umf_memory_tracker_handle_t handle) {
         }
     }
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
+    tracker_free_retired(handle->retired);
+    handle->retired = NULL;
+    utils_mutex_destroy_not_free(&handle->retiredMutex);
     umf_ba_destroy(handle->alloc_info_allocator);
     handle->alloc_info_allocator = NULL;
     critnib_delete(handle->ipc_segments_map);
-- 
2.43.0


From b680085d001ca325b21328abd9922bdcc4837b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 06/55] fix: tracker: a lookup racing with a split must not
 miss the high part

A lookup that had found the entry of the whole region before the high part was
added, and read its value after the low part had been made smaller, reported
that the address belongs to no pool.
---
 src/provider/provider_tracking.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 827cf91..2c0915f 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -45,6 +45,8 @@ struct umf_memory_tracker_t {
     uint64_t n_readers;
     utils_mutex_t retiredMutex;
     struct tracker_retired_t *retired;
+    // incremented by every split, before the low part is made smaller
+    uint64_t n_splits;
 };
 
 // Lookups take no lock, so a value removed from a map may still be in use by
@@ -432,11 +434,18 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     tracker_alloc_info_t *rvalue = NULL;
     uintptr_t top_most_key = 0;
     uintptr_t rkey = 0;
+    uint64_t n_splits = 0;
+    uint64_t n_splits_now = 0;
     int level = 0;
     int found = 0;
 
     tracker_reader_enter(TRACKER);
 
+again:
+    utils_atomic_load_acquire_u64(&TRACKER->n_splits, &n_splits);
+    top_most_value = NULL;
+    level = 0;
+
     do {
         assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
         found = critnib_find(TRACKER->alloc_segments_map[level], (uintptr_t)ptr,
@@ -449,6 +458,14 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
                 break;
             }
             level++;
+        } else if (found) {
+            // The entry below ptr may be the low part of a region that was
+            // being split: ptr belongs to the high part then, which has an
+            // entry of its own by now.
+            utils_atomic_load_acquire_u64(&TRACKER->n_splits, &n_splits_now);
+            if (n_splits_now != n_splits) {
+                goto again;
+            }
         }
     } while (found && (uintptr_t)ptr < rkey + rvalue->size &&
              rvalue->n_children);
@@ -635,6 +652,9 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    // a lookup that is going to miss the high part has to look again
+    utils_atomic_increment_u64(&provider->hTracker->n_splits);
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     int cret =
         critnib_insert(provider->hTracker->alloc_segments_map[level],
-- 
2.43.0


From 3f3ce694019a1c0272c701697fb9ed7daed1ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 07/55] fix: critnib: iteration skipped whole subtrees reaching
 above the minimum

The greatest key of a subtree is its path with the bits below it set, not with
the bits above: a range iteration could skip every key when the topmost nibble
of the keys differed.
---
 src/critnib/critnib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 43bf088..dd1188e 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -814,7 +814,7 @@ static int iter(struct critnib_node *__restrict n, word min, word max,
     if (n->path > max) {
         return 1;
     }
-    if ((n->path | path_mask(n->shift)) < min) {
+    if ((n->path | ~path_mask(n->shift)) < min) {
         return 0;
     }
 
-- 
2.43.0


From 7d6fdcfab23a265bf51372015f4127633c3ec3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 08/55] fix: base_alloc: a refused allocation returns NULL

umf_ba_global_aligned_alloc() passed the result of the allocation on
without checking it.
---
 src/base_alloc/base_alloc_global.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..c3a64c5 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -97,7 +97,11 @@ static int size_to_idx(size_t size) {
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
+
+    if (!ptr) {
+        // out of memory
+        return NULL;
+    }
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
-- 
2.43.0


From 8d3bb5d94dad75ae205793827bea8484ec404b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 09/55] fix: disjoint pool: free the array of buckets

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..82cdc60 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -920,6 +920,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From 976b939b5d6ac565df8aebcaf97ee5ec9f1720e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 10/55] fix: disjoint pool: a destroyed pool gives back its
 share of the limit

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 82cdc60..22c21b2 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -258,6 +258,11 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
+    // the slabs kept in the pool no longer count for the (shared) limit
+    utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                            (uint64_t)bucket->chunked_slabs_in_pool *
+                                bucket_slab_alloc_size(bucket));
+
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
-- 
2.43.0


From 69601e2501577271944fdcfa885f1359a722acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 11/55] fix: disjoint pool: slabs may be bigger than
 slab_min_size

Aligned blocks that start beyond slab_min_size in such a slab could not be
freed, and with slab_min_size equal to 0 the slab was freed twice.
---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 22c21b2..aabe9ed 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From 55fde7e461c6f9c6ef960f02ae685a7c683c0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 12/55] fix: disjoint pool: aligned allocations of enormous
 sizes must fail

The size rounded up to the alignment overflowed, so a small block was
returned.
---
 src/pool/pool_disjoint.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index aabe9ed..1172f61 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -735,11 +735,16 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
         // of Alignment and Slab address is aligned to provider_min_page_size
         // so the address will be properly aligned.
         aligned_size = (size > 1) ? ALIGN_UP_SAFE(size, alignment) : alignment;
+        if (aligned_size == 0) {
+            aligned_size = SIZE_MAX; // the sum does not fit
+        }
     } else {
         // Slabs are only aligned to provider_min_page_size, we need to compensate
         // for that in case the allocation is within pooling limit.
         // TODO: consider creating properly-aligned Slabs on demand
-        aligned_size = size + alignment - 1;
+        aligned_size = (size <= SIZE_MAX - (alignment - 1))
+                           ? size + alignment - 1
+                           : SIZE_MAX; // the sum does not fit
     }
 
     // Check if requested allocation size is within pooling limit.
-- 
2.43.0


From bb5f1cad34a1127afc8aad647667138b303a8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 13/55] fix: disjoint pool: give the limit back after the slabs

---
 src/pool/pool_disjoint.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 1172f61..e8854b1 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -257,11 +257,6 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
-    // the slabs kept in the pool no longer count for the (shared) limit
-    utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
-                            (uint64_t)bucket->chunked_slabs_in_pool *
-                                bucket_slab_alloc_size(bucket));
-
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
@@ -274,6 +269,11 @@ static void destroy_bucket(bucket_t *bucket) {
         destroy_slab(it->val);
     }
 
+    // the slabs kept in the pool no longer count for the (shared) limit
+    utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                            (uint64_t)bucket->chunked_slabs_in_pool *
+                                bucket_slab_alloc_size(bucket));
+
     utils_mutex_destroy_not_free(&bucket->bucket_lock);
     umf_ba_global_free(bucket);
 }
-- 
2.43.0


From 100de594b545fceda6cac5e672376cb0dff1a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 14/55] fix: tracking provider: a failed creation frees both
 IPC caches

---
 src/provider/provider_tracking.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 2c0915f..375e333 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -875,6 +875,7 @@ static umf_result_t trackingInitialize(void *params, void **ret) {
     *provider = *((umf_tracking_memory_provider_t *)params);
     if (provider->hUpstream == NULL || provider->hTracker == NULL ||
         provider->pool == NULL || provider->ipcCache == NULL) {
+        umf_ba_global_free(provider);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
@@ -1266,6 +1267,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create IPC mapped cache");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1273,8 +1279,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From dddd5b6031d795745ee6521d0ed2d3fd9c8b3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 15/55] fix: disjoint pool: do not free slabs that a concurrent
 search may still read

---
 src/pool/pool_disjoint.c          | 71 +++++++++++++++++++++++++++----
 src/pool/pool_disjoint_internal.h |  7 +++
 2 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index e8854b1..946f6de 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -130,7 +130,7 @@ free_slab:
     return NULL;
 }
 
-static void destroy_slab(slab_t *slab) {
+static void slab_free_memory(slab_t *slab) {
     LOG_DEBUG("bucket: %p, slab_size: %zu", (void *)slab->bucket,
               slab->slab_size);
 
@@ -140,10 +140,37 @@ static void destroy_slab(slab_t *slab) {
     if (res != UMF_RESULT_SUCCESS) {
         LOG_ERR("deallocation of slab data failed!");
     }
+}
 
+static void destroy_slab(slab_t *slab) {
+    slab_free_memory(slab);
     umf_ba_global_free(slab);
 }
 
+static void free_retired_slabs(slab_list_item_t *list) {
+    slab_list_item_t *it = NULL, *tmp = NULL;
+    LL_FOREACH_SAFE(list, it, tmp) { umf_ba_global_free(it->val); }
+}
+
+// Destroy a slab that was known to the pool (but is not any longer).
+static void retire_slab(disjoint_pool_t *pool, slab_t *slab) {
+    slab_list_item_t *to_free = NULL;
+
+    slab_free_memory(slab);
+
+    utils_mutex_lock(&pool->retired_slabs_lock);
+    slab->iter.next = pool->retired_slabs;
+    pool->retired_slabs = &slab->iter;
+    // A search that starts from now on cannot find any slab of the list.
+    if (utils_fetch_and_add_u64(&pool->slab_readers, 0) == 0) {
+        to_free = pool->retired_slabs;
+        pool->retired_slabs = NULL;
+    }
+    utils_mutex_unlock(&pool->retired_slabs_lock);
+
+    free_retired_slabs(to_free);
+}
+
 static size_t slab_find_first_available_chunk_idx(const slab_t *slab) {
     for (size_t i = 0; i < slab->num_words; i++) {
         // NOTE: free chunks are represented as set bits
@@ -179,6 +206,22 @@ static void *slab_get_end(const slab_t *slab) {
     return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
+// Returns the slab the live block ptr lies in, or NULL if there is no such
+// slab. The block keeps the slab from being destroyed.
+static slab_t *find_slab(disjoint_pool_t *pool, void *ptr) {
+    utils_atomic_increment_u64(&pool->slab_readers);
+
+    slab_t *slab =
+        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
+    if (slab != NULL && ptr >= slab_get_end(slab)) {
+        slab = NULL;
+    }
+
+    utils_atomic_decrement_u64(&pool->slab_readers);
+
+    return slab;
+}
+
 static void slab_free_chunk(slab_t *slab, void *ptr) {
     // This method should be called through bucket (since we might remove the
     // slab as a result), therefore all locks are done on bucket level.
@@ -312,7 +355,7 @@ static void bucket_free_chunk(bucket_t *bucket, void *ptr, slab_t *slab,
             DL_DELETE(bucket->available_slabs, slab_it);
             assert(bucket->available_slabs_num > 0);
             bucket->available_slabs_num--;
-            destroy_slab(slab_it->val);
+            retire_slab(bucket->pool, slab_it->val);
         }
     } else {
         // return this chunk to the pool
@@ -601,10 +644,16 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
 
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
+    disjoint_pool->slab_readers = 0;
+    disjoint_pool->retired_slabs = NULL;
+
+    if (utils_mutex_init(&disjoint_pool->retired_slabs_lock) == NULL) {
+        goto err_free_disjoint_pool;
+    }
 
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
-        goto err_free_disjoint_pool;
+        goto err_destroy_lock;
     }
 
     // Generate buckets sized such as: 64, 96, 128, 192, ..., CutOff.
@@ -683,6 +732,9 @@ err_free_shared_limits:
 err_free_known_slabs:
     critnib_delete(disjoint_pool->known_slabs);
 
+err_destroy_lock:
+    utils_mutex_destroy_not_free(&disjoint_pool->retired_slabs_lock);
+
 err_free_disjoint_pool:
     umf_ba_global_free(disjoint_pool);
 
@@ -817,9 +869,8 @@ size_t disjoint_pool_malloc_usable_size(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    slab_t *slab = find_slab(disjoint_pool, ptr);
+    if (slab == NULL) {
         // memory comes directly from the provider
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
         umf_result_t ret = umfMemoryTrackerGetAllocInfo(ptr, &allocInfo);
@@ -846,10 +897,9 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
+    slab_t *slab = find_slab(disjoint_pool, ptr);
 
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    if (slab == NULL) {
 
         // regular free
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
@@ -936,6 +986,9 @@ void disjoint_pool_finalize(void *pool) {
     umfDisjointPoolSharedLimitsDestroy(hPool->default_shared_limits);
     critnib_delete(hPool->known_slabs);
 
+    free_retired_slabs(hPool->retired_slabs);
+    utils_mutex_destroy_not_free(&hPool->retired_slabs_lock);
+
     umf_ba_global_free(hPool);
 }
 
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index 7a63dd7..42a0886 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -142,6 +142,13 @@ typedef struct disjoint_pool_t {
     // free()
     critnib *known_slabs; // (void *, slab_t *)
 
+    // known_slabs is searched without a lock, so a slab removed from it may
+    // still be in use by a search. Such slabs are kept on the retired list
+    // until no search is running.
+    uint64_t slab_readers; // number of running searches, requires atomic access
+    slab_list_item_t *retired_slabs;
+    utils_mutex_t retired_slabs_lock;
+
     // Handle to the memory provider
     umf_memory_provider_handle_t provider;
 
-- 
2.43.0


From f1679f71fc16b43ec111c713a2d2aee0dbae14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 16/55] fix: disjoint pool: creation fails when a bucket's lock
 cannot be initialised

---
 src/pool/pool_disjoint.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 946f6de..b4915cb 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -295,7 +295,12 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
     bucket->pool = pool;
     bucket->shared_limits = shared_limits;
 
-    utils_mutex_init(&bucket->bucket_lock);
+    if (utils_mutex_init(&bucket->bucket_lock) == NULL) {
+        LOG_ERR("initialization of the bucket lock failed!");
+        umf_ba_global_free(bucket);
+        return NULL;
+    }
+
     return bucket;
 }
 
-- 
2.43.0


From 2adbbf3895f9136a097d461a85c65374df08495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 17/55] fix: coarse: running out of memory midway must not lose
 free blocks

A free block whose list could not be allocated was lost (and an empty list
stayed in the tree, crashing a later search); a block already split by the
provider was lost when its metadata could not be allocated; memory of
a provider without the free() op was lost when it could not be recorded.
---
 src/coarse/coarse.c | 216 +++++++++++++++++++++++++++++++-------------
 1 file changed, 153 insertions(+), 63 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..066300f 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -50,6 +50,15 @@ typedef struct coarse_t {
     // to the head of the list of free blocks of the same size
     struct ravl *free_blocks;
 
+    // number of free blocks that are not on any list in the free_blocks tree
+    // (because they are just being processed or there was no memory for the list)
+    size_t num_unlisted_blocks;
+
+    // memory taken from a provider that does not support the free() op,
+    // which could not be added to all_blocks because of lack of memory
+    void *pending_data;
+    size_t pending_size;
+
     struct utils_mutex_t lock;
 
     // statistics
@@ -169,6 +178,7 @@ static block_t *coarse_ravl_add_new(struct ravl *rtree, unsigned char *data,
 
     block->data = data;
     block->size = size;
+    block->used = false;
     block->free_list_ptr = NULL;
 
     ravl_data_t rdata = {(uintptr_t)block->data, block};
@@ -346,6 +356,14 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
+        if (head_node->head == NULL) {
+            // do not leave an empty list in the tree
+            node = ravl_find(free_blocks, &head_node_data,
+                             RAVL_PREDICATE_EQUAL);
+            assert(node);
+            ravl_remove(free_blocks, node);
+            umf_ba_global_free(head_node);
+        }
         return -1; // out of memory
     }
 
@@ -422,6 +440,23 @@ static block_t *free_blocks_rm_node(struct ravl *free_blocks,
     return block;
 }
 
+// free_block_list - put the free unlisted block on the list of free blocks.
+// If there is no memory for the list, the block stays free and unlisted
+// and the next allocation tries to list it again.
+static void free_block_list(coarse_t *coarse, block_t *block) {
+    assert(!block->used);
+    assert(block->free_list_ptr == NULL);
+    assert(coarse->num_unlisted_blocks > 0);
+
+    if (free_blocks_add(coarse->free_blocks, block) == 0) {
+        coarse->num_unlisted_blocks--;
+    } else {
+        LOG_ERR("out of memory, the free block (addr: %p, size: %zu) cannot be "
+                "listed now",
+                (void *)block->data, block->size);
+    }
+}
+
 // user_block_merge - merge two blocks from one of two lists of user blocks: all_blocks or free_blocks
 static umf_result_t user_block_merge(coarse_t *coarse, ravl_node_t *node1,
                                      ravl_node_t *node2, bool used,
@@ -463,11 +498,19 @@ static umf_result_t user_block_merge(coarse_t *coarse, ravl_node_t *node1,
     if (block1->free_list_ptr) {
         free_blocks_rm_node(free_blocks, block1->free_list_ptr);
         block1->free_list_ptr = NULL;
+        coarse->num_unlisted_blocks++;
     }
 
     if (block2->free_list_ptr) {
         free_blocks_rm_node(free_blocks, block2->free_list_ptr);
         block2->free_list_ptr = NULL;
+        coarse->num_unlisted_blocks++;
+    }
+
+    if (!used) {
+        // two unlisted blocks become one
+        assert(coarse->num_unlisted_blocks >= 2);
+        coarse->num_unlisted_blocks--;
     }
 
     // update the size
@@ -599,7 +642,8 @@ static bool debug_check(coarse_t *provider) {
     ravl_foreach(provider->all_blocks, debug_verify_all_blocks_cb, &cb_args);
 
     assert(cb_args.num_all_blocks == stats.num_all_blocks);
-    assert(cb_args.num_free_blocks == stats.num_free_blocks);
+    assert(cb_args.num_free_blocks ==
+           stats.num_free_blocks + provider->num_unlisted_blocks);
     assert(cb_args.sum_used == provider->used_size);
     assert(cb_args.sum_blocks_size == provider->alloc_size);
     assert(provider->alloc_size >= provider->used_size);
@@ -669,10 +713,43 @@ static umf_result_t can_provider_split(coarse_t *coarse, void *ptr,
     return umf_result;
 }
 
+// Split the block (in all_blocks only) into two blocks of the same kind.
+// Nothing is changed in case of failure.
+static umf_result_t split_block(coarse_t *coarse, block_t *block,
+                                size_t firstSize, block_t **second) {
+    // prepare the new block before the memory provider splits the memory,
+    // because only the new block can be easily withdrawn
+    block_t *new_block =
+        coarse_ravl_add_new(coarse->all_blocks, block->data + firstSize,
+                            block->size - firstSize, NULL);
+    if (new_block == NULL) {
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
+
+    // check if the block can be split by the memory provider
+    umf_result_t umf_result =
+        can_provider_split(coarse, block->data, block->size, firstSize);
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
+        return umf_result;
+    }
+
+    block->size = firstSize;
+
+    new_block->used = block->used;
+    if (!new_block->used) {
+        coarse->num_unlisted_blocks++;
+    }
+
+    *second = new_block;
+
+    return UMF_RESULT_SUCCESS;
+}
+
 static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
                                          size_t alignment, block_t **current) {
     (void)orig_size; // unused in the Release version
-    int rv;
 
     block_t *curr = *current;
 
@@ -681,27 +758,14 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
     uintptr_t aligned_data = ALIGN_UP(orig_data, alignment);
     size_t padding = aligned_data - orig_data;
     if (alignment > 0 && padding > 0) {
-        // check if block can be split by the upstream provider
+        block_t *aligned_block = NULL;
         umf_result_t umf_result =
-            can_provider_split(coarse, curr->data, curr->size, padding);
+            split_block(coarse, curr, padding, &aligned_block);
         if (umf_result != UMF_RESULT_SUCCESS) {
             return umf_result;
         }
 
-        block_t *aligned_block =
-            coarse_ravl_add_new(coarse->all_blocks, curr->data + padding,
-                                curr->size - padding, NULL);
-        if (aligned_block == NULL) {
-            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-        }
-
-        curr->used = false;
-        curr->size = padding;
-
-        rv = free_blocks_add(coarse->free_blocks, curr);
-        if (rv) {
-            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-        }
+        free_block_list(coarse, curr);
 
         // use aligned block
         *current = aligned_block;
@@ -714,28 +778,13 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
 // Split the current block and put the new block after the one that we use.
 static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
                                         size_t size) {
-
-    // check if block can be split by the upstream provider
-    umf_result_t umf_result =
-        can_provider_split(coarse, curr->data, curr->size, size);
+    block_t *new_block = NULL;
+    umf_result_t umf_result = split_block(coarse, curr, size, &new_block);
     if (umf_result != UMF_RESULT_SUCCESS) {
         return umf_result;
     }
 
-    ravl_node_t *new_node = NULL;
-
-    block_t *new_block = coarse_ravl_add_new(
-        coarse->all_blocks, curr->data + size, curr->size - size, &new_node);
-    if (new_block == NULL) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
-
-    new_block->used = false;
-
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
-    if (rv) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_block_list(coarse, new_block);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -798,7 +847,7 @@ static block_t *find_free_block(struct ravl *free_blocks, size_t size,
     return NULL;
 }
 
-static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
+static void free_blocks_re_add(coarse_t *coarse, block_t *block) {
     assert(coarse);
 
     ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
@@ -808,7 +857,50 @@ static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    return free_blocks_add(coarse->free_blocks, get_node_block(node));
+    free_block_list(coarse, get_node_block(node));
+}
+
+// add the memory that could not be added earlier as a free block
+static void add_pending_memory(coarse_t *coarse) {
+    if (coarse->pending_data == NULL) {
+        return;
+    }
+
+    block_t *block = coarse_ravl_add_new(
+        coarse->all_blocks, coarse->pending_data, coarse->pending_size, NULL);
+    if (block == NULL) {
+        return; // still out of memory
+    }
+
+    coarse->pending_data = NULL;
+    coarse->alloc_size += block->size;
+    coarse->num_unlisted_blocks++;
+}
+
+static void find_unlisted_block_cb(void *data, void *arg) {
+    block_t *block = ((ravl_data_t *)data)->value;
+    block_t **unlisted = arg;
+    if (!block->used && !block->free_list_ptr) {
+        *unlisted = block;
+    }
+}
+
+// list the free blocks that could not be listed earlier
+static void list_unlisted_blocks(coarse_t *coarse) {
+    size_t num_unlisted = coarse->num_unlisted_blocks;
+    while (num_unlisted > 0) {
+        block_t *block = NULL;
+        ravl_foreach(coarse->all_blocks, find_unlisted_block_cb, &block);
+        assert(block);
+
+        free_blocks_re_add(coarse, block);
+
+        if (coarse->num_unlisted_blocks >= num_unlisted) {
+            return; // still out of memory
+        }
+
+        num_unlisted = coarse->num_unlisted_blocks;
+    }
 }
 
 static void ravl_cb_count(void *data, void *arg) {
@@ -1053,6 +1145,9 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
 
     assert(debug_check(coarse));
 
+    add_pending_memory(coarse);
+    list_unlisted_blocks(coarse);
+
     // Find a block with greater or equal size using the given memory allocation strategy
     block_t *curr = find_free_block(coarse->free_blocks, size, alignment,
                                     coarse->allocation_strategy);
@@ -1069,12 +1164,13 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
 
     if (action) { // ACTION_SPLIT or ACTION_USE
         assert(curr->used == false);
+        coarse->num_unlisted_blocks++; // taken from the list
 
         // In case of non-zero alignment create an aligned block what would be further used.
         if (alignment > 0) {
             umf_result = create_aligned_block(coarse, size, alignment, &curr);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
         }
@@ -1083,12 +1179,10 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
             // Split the current block and put the new block after the one that we use.
             umf_result = split_current_block(coarse, curr, size);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
 
-            curr->size = size;
-
             LOG_DEBUG("coarse_ALLOC (split_block) %zu used %zu alloc %zu", size,
                       coarse->used_size, coarse->alloc_size);
 
@@ -1098,6 +1192,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         }
 
         curr->used = true;
+        coarse->num_unlisted_blocks--;
         *resultPtr = curr->data;
         coarse->used_size += size;
 
@@ -1107,6 +1202,13 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         return UMF_RESULT_SUCCESS;
     }
 
+    if (coarse->pending_data) {
+        // There is still no memory to add a block.
+        umf_result = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        *resultPtr = NULL;
+        goto err_unlock;
+    }
+
     // no suitable block found - try to get more memory from the upstream provider
     umf_result = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 
@@ -1129,7 +1231,12 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
     if (umf_result != UMF_RESULT_SUCCESS) {
         if (coarse->cb.free) {
             coarse->cb.free(coarse->provider, *resultPtr, size);
+        } else {
+            // it cannot be given back, so use it later
+            coarse->pending_data = *resultPtr;
+            coarse->pending_size = size;
         }
+        *resultPtr = NULL;
         goto err_unlock;
     }
 
@@ -1189,16 +1296,13 @@ umf_result_t coarse_free(coarse_t *coarse, void *ptr, size_t bytes) {
     coarse->used_size -= block->size;
 
     block->used = false;
+    coarse->num_unlisted_blocks++;
 
     // Merge with prev and/or next block if they are unused and have continuous data.
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(node));
-    if (rv) {
-        utils_mutex_unlock(&coarse->lock);
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_block_list(coarse, get_node_block(node));
 
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
@@ -1320,29 +1424,15 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         goto err_mutex_unlock;
     }
 
-    // check if block can be split by the memory provider
-    umf_result = can_provider_split(coarse, ptr, totalSize, firstSize);
+    block_t *new_block = NULL;
+    umf_result = split_block(coarse, block, firstSize, &new_block);
     if (umf_result != UMF_RESULT_SUCCESS) {
         LOG_ERR("memory provider cannot split a memory block");
         goto err_mutex_unlock;
     }
 
-    umf_result = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-
-    block_t *new_block =
-        coarse_ravl_add_new(coarse->all_blocks, block->data + firstSize,
-                            block->size - firstSize, NULL);
-    if (new_block == NULL) {
-        goto err_mutex_unlock;
-    }
-
-    block->size = firstSize;
-    new_block->used = true;
-
     assert(new_block->size == (totalSize - firstSize));
 
-    umf_result = UMF_RESULT_SUCCESS;
-
 err_mutex_unlock:
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
-- 
2.43.0


From a3419cc2cc57d4eead866b1598096bf7206f8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 18/55] fix: coarse: refuse allocations of zero bytes

They split a free block into an empty one and corrupted the partition.
---
 src/coarse/coarse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 066300f..04cacb4 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1120,7 +1120,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
                           void **resultPtr) {
     umf_result_t umf_result = UMF_RESULT_ERROR_UNKNOWN;
 
-    if (coarse == NULL || resultPtr == NULL) {
+    if (coarse == NULL || resultPtr == NULL || size == 0) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From a01c70cb5ea4a600b10d01394171d42455ffef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 19/55] fix: base_alloc: free works again after the allocator
 is re-created

After umfTearDown() and a new umfInit() every umf_ba_global_free() was
ignored, so all metadata of the new cycle leaked.
---
 src/base_alloc/base_alloc_global.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index c3a64c5..a2cc3d2 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -58,6 +58,9 @@ void umf_ba_destroy_global(void) {
 bool umf_ba_global_is_destroyed(void) { return ba_is_destroyed; }
 
 static void umf_ba_create_global(void) {
+    // it can be created again after it was destroyed
+    ba_is_destroyed = false;
+
     for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) {
         // allocation classes need to be powers of 2
         assert(0 == (BASE_ALLOC.ac_sizes[i] & (BASE_ALLOC.ac_sizes[i] - 1)));
-- 
2.43.0


From cc69ef2451665d5649e38e5d28ffb2646c86fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 20/55] fix: base_alloc: enormous sizes must fail instead of
 wrapping around

---
 src/base_alloc/base_alloc.c        |  2 +-
 src/base_alloc/base_alloc_global.c |  6 ++++++
 src/base_alloc/base_alloc_linear.c | 10 ++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc.c b/src/base_alloc/base_alloc.c
index 00e5807..e9cbbd4 100644
--- a/src/base_alloc/base_alloc.c
+++ b/src/base_alloc/base_alloc.c
@@ -135,7 +135,7 @@ static void *ba_os_alloc_annotated(size_t pool_size) {
 
 umf_ba_pool_t *umf_ba_create(size_t size) {
     size_t chunk_size = ALIGN_UP_SAFE(size, MEMORY_ALIGNMENT);
-    if (chunk_size == 0) {
+    if (chunk_size == 0 || chunk_size > SIZE_MAX / (2 * MINIMUM_CHUNK_COUNT)) {
         return NULL;
     }
     size_t mutex_size = ALIGN_UP(utils_mutex_get_size(), MEMORY_ALIGNMENT);
diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index a2cc3d2..38c6413 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -189,6 +189,12 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         size += alignment;
     }
 
+    // the size and the offset are stored in 32 bits each
+    if (size >= (1ULL << 32)) {
+        LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
+        return NULL;
+    }
+
     int ac_index = size_to_idx(size);
     if (ac_index >= NUM_ALLOCATION_CLASSES) {
         return add_metadata_and_align(ba_os_alloc(size), size, alignment);
diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..2f6a021 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -82,6 +82,11 @@ static void ba_debug_checks(umf_ba_linear_pool_t *pool) {
 #endif /* NDEBUG */
 
 umf_ba_linear_pool_t *umf_ba_linear_create(size_t pool_size) {
+    if (pool_size > SIZE_MAX / 2) {
+        LOG_ERR("pool_size overflow");
+        return NULL;
+    }
+
     pool_size += sizeof(umf_ba_next_linear_pool_t *) +
                  sizeof(umf_ba_main_linear_pool_meta_t);
     if (pool_size < MINIMUM_LINEAR_POOL_SIZE) {
@@ -137,6 +142,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("pool_size overflow");
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From 4973eb932f3aa1ba2e63f1a18f352813695fc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 21/55] fix: file and devdax providers: a path that is too long
 is an error

---
 src/provider/provider_devdax_memory.c | 1 +
 src/provider/provider_file_memory.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..969952b 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -204,6 +204,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..d70fb91 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -214,6 +214,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From ccd124a4fedbd2befef35fac0ad77200034c5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 22/55] fix: file provider: file offsets of aligned allocations

---
 src/provider/provider_file_memory.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d70fb91..9287f19 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -379,10 +379,6 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         file_provider->size_fd = new_size_fd;
     }
 
-    if (aligned_offset_fd > offset_fd) {
-        file_provider->offset_fd = aligned_offset_fd;
-    }
-
     ASSERT_IS_ALIGNED(extended_size, page_size);
     ASSERT_IS_ALIGNED(aligned_offset_fd, page_size);
 
@@ -412,6 +408,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->base_mmap = (void *)aligned_ptr;
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
+    // offset_fd is the offset in the file of (base_mmap + offset_mmap)
+    file_provider->offset_fd =
+        aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -455,7 +454,8 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From 886ef8669f62c62fea96e7bf139c105282a9e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 23/55] fix: file provider: an unrecorded mapping is an error,
 not a leak

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 9287f19..b1b694a 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -395,6 +395,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        (void)utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From b5472d1e47f72ae33e4c2f2d05301c3d92303503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 24/55] fix: file provider: do not merge blocks that are apart
 in the file

---
 src/provider/provider_file_memory.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index b1b694a..80e803a 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -683,7 +683,6 @@ static umf_result_t file_allocation_merge(void *provider, void *lowPtr,
 
 static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
                                              void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
@@ -691,6 +690,20 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // memory mappings that happen to be adjacent
+    // can be mapped to distant parts of the file
+    void *lowValue =
+        critnib_get(file_provider->fd_offset_map, (uintptr_t)lowPtr);
+    void *highValue =
+        critnib_get(file_provider->fd_offset_map, (uintptr_t)highPtr);
+    if (lowValue == NULL || highValue == NULL ||
+        (uintptr_t)highValue - (uintptr_t)lowValue !=
+            (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_DEBUG("blocks are not adjacent in the file (addr=%p and addr=%p)",
+                  lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 70c2b85c4d73a589f2ad3a1b237a0cd91753c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 25/55] fix: file and devdax providers: opened handles point at
 the allocation

---
 src/provider/provider_devdax_memory.c | 7 +++++--
 src/provider/provider_file_memory.c   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 969952b..ddc8327 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -500,7 +500,8 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
               devdax_ipc_data->path, length_aligned,
               devdax_ipc_data->protection, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    // the offset could have been aligned down
+    *ptr = addr + (devdax_ipc_data->offset - offset_aligned);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -508,7 +509,9 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
 static umf_result_t devdax_close_ipc_handle(void *provider, void *ptr,
                                             size_t size) {
     (void)provider; // unused
-    size = ALIGN_UP(size, DEVDAX_PAGE_SIZE_2MB);
+
+    // see devdax_open_ipc_handle()
+    utils_align_ptr_down_size_up(&ptr, &size, DEVDAX_PAGE_SIZE_2MB);
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 80e803a..fed72b5 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -829,7 +829,8 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
               file_ipc_data->path, size_aligned, file_ipc_data->protection,
               file_ipc_data->visibility, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    // the offset could have been aligned down
+    *ptr = addr + (file_ipc_data->offset_fd - offset_aligned);
 
     return ret;
 }
-- 
2.43.0


From 50ea3b43959e90d5da7dfb693369dab2a47242fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 26/55] fix: os provider: offsets in the shared file and
 enormous sizes

---
 src/provider/provider_os_memory.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..b565ae4 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -839,6 +839,10 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
         extended_length += alignment;
+        if (extended_length < length) {
+            LOG_ERR("size of the allocation is too big: %zu", length);
+            return -1; // arithmetic overflow
+        }
     }
 
     *fd_offset = 0;
@@ -849,14 +853,17 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        // all offsets in the file have to be page-aligned
+        size_t fd_length = ALIGN_UP_SAFE(extended_length, page_size);
+        if (fd_length < extended_length || fd_length > max_fd_size ||
+            *fd_size > max_fd_size - fd_length) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += extended_length;
+        *fd_size += fd_length;
         utils_mutex_unlock(lock_fd);
     }
 
@@ -881,6 +888,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         size_t head_len = aligned_addr - addr;
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
+            *fd_offset += head_len;
         }
 
         // tail address has to page-aligned
-- 
2.43.0


From 1907a8e1d6acfa3f1d6541636c6bedde542bb2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 27/55] fix: os provider: an allocation that cannot be recorded
 fails

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index b565ae4..5ecf5d3 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1179,6 +1179,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
             LOG_ERR("os_alloc(): inserting a value to the file descriptor "
                     "offset map failed (addr=%p, offset=%zu)",
                     addr, fd_offset);
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
     }
 
-- 
2.43.0


From e478c7045c1b0dfc4252260a6211da1e123eef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 28/55] fix: os provider: do not merge blocks that are apart in
 the file

---
 src/provider/provider_os_memory.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 5ecf5d3..22a99e9 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1367,7 +1367,6 @@ static umf_result_t os_allocation_split(void *provider, void *ptr,
 // It should NOT be called concurrently with os_allocation_split() with the same pointer.
 static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
                                         void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
@@ -1375,6 +1374,21 @@ static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // memory mappings that happen to be adjacent
+    // can be mapped to distant parts of the file
+    void *lowValue =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)lowPtr);
+    void *highValue =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)highPtr);
+    if (lowValue && highValue &&
+        (uintptr_t)highValue - (uintptr_t)lowValue !=
+            (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_ERR("os_allocation_merge(): blocks are not adjacent in the file "
+                "(addr=%p and addr=%p)",
+                lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(os_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 827f6f9dd15d4efda7c9a9ddb0d6c1bb848a5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 29/55] fix: os provider: creation and destruction release
 everything

---
 src/provider/provider_os_memory.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 22a99e9..9f40c39 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -325,7 +325,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
@@ -455,7 +456,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -466,7 +467,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
@@ -659,7 +660,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -727,7 +733,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -749,8 +755,14 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
+    if (os_provider->shm_name[0] != '\0') {
+        (void)utils_shm_unlink(os_provider->shm_name);
+    }
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
+    umf_ba_global_free(os_provider->partitions);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
 err_destroy_hwloc_topology:
@@ -765,6 +777,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 8b268abcf604177567dc6f501e61090c6b09ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 30/55] fix: os provider: a refused binding frees the node set

---
 src/provider/provider_os_memory.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 9f40c39..b91bb11 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1072,16 +1072,19 @@ static membind_t membindFirst(os_memory_provider_t *provider, void *addr,
     return membind;
 }
 
+static void membindEnd(os_memory_provider_t *provider, membind_t membind) {
+    if (provider->mode == UMF_NUMA_MODE_SPLIT && provider->nodeset_len != 1) {
+        hwloc_bitmap_free(membind.bitmap);
+    }
+}
+
 static membind_t membindNext(os_memory_provider_t *provider,
                              membind_t membind) {
     membind.alloc_size -= membind.bind_size;
     membind.addr += membind.bind_size;
     if (membind.alloc_size == 0) {
         membind.bind_size = 0;
-        if (provider->mode == UMF_NUMA_MODE_SPLIT &&
-            provider->nodeset_len != 1) {
-            hwloc_bitmap_free(membind.bitmap);
-        }
+        membindEnd(provider, membind);
         return membind;
     }
     assert(provider->nodeset_len != 1);
@@ -1176,6 +1179,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    membindEnd(os_provider, membind);
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From a4803796fd1faa46cc143d0325564aeea48733db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 31/55] fix: os provider: named shared memory can be opened
 more than once

---
 src/provider/provider_os_memory.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index b91bb11..6d46130 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -778,6 +778,10 @@ static void os_finalize(void *provider) {
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
         (void)utils_close_fd(os_provider->fd);
+        // the name has to last as long as its memory can be opened
+        if (os_provider->shm_name[0] != '\0') {
+            (void)utils_shm_unlink(os_provider->shm_name);
+        }
     }
 
     critnib_delete(os_provider->fd_offset_map);
@@ -1525,7 +1529,6 @@ static umf_result_t os_open_ipc_handle(void *provider, void *providerIpcData,
                      os_ipc_data->shm_name);
             return UMF_RESULT_ERROR_UNKNOWN;
         }
-        (void)utils_shm_unlink(os_ipc_data->shm_name);
     } else {
         umf_result_t umf_result =
             utils_duplicate_fd(os_ipc_data->pid, os_ipc_data->fd, &fd);
-- 
2.43.0


From cb77fb58cdb468547352ac7fef884cf801df482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 32/55] fix: os provider: a running reset must not make the
 peak too small

An allocation that ended between reset's load of allocated_memory and its
store to peak_memory was lost: the peak became smaller than the allocated
memory. Update both statistics under a lock.
---
 src/provider/provider_os_memory.c          | 37 ++++++++++++++++------
 src/provider/provider_os_memory_internal.h |  2 ++
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 6d46130..0507641 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -241,11 +241,15 @@ static int CTL_RUNNABLE_HANDLER(reset)(void *ctx, umf_ctl_query_source_t source,
                      sizeof(uint64_t));
     COMPILE_ERROR_ON(sizeof(allocated) != sizeof(uint64_t));
 
+    // an allocation that ends between the load and the store
+    // must not be lost in the peak
+    utils_mutex_lock(&os_provider->stats.lock);
     utils_atomic_load_acquire_u64(
         (uint64_t *)&os_provider->stats.allocated_memory,
         (uint64_t *)&allocated);
     utils_atomic_store_release_u64((uint64_t *)&os_provider->stats.peak_memory,
                                    (uint64_t)allocated);
+    utils_mutex_unlock(&os_provider->stats.lock);
 
     return 0;
 }
@@ -737,6 +741,12 @@ static umf_result_t os_initialize(void *params, void **provider) {
         }
     }
 
+    if (utils_mutex_init(&os_provider->stats.lock) == NULL) {
+        LOG_ERR("initializing the statistics lock failed");
+        ret = UMF_RESULT_ERROR_UNKNOWN;
+        goto err_destroy_lock_fd;
+    }
+
     os_provider->nodeset_str_buf = umf_ba_global_alloc(NODESET_STR_BUF_LEN);
     if (!os_provider->nodeset_str_buf) {
         LOG_INFO("allocating memory for printing NUMA nodes failed");
@@ -755,10 +765,16 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_destroy_lock_fd:
+    if (os_provider->fd > 0) {
+        utils_mutex_destroy_not_free(&os_provider->lock_fd);
+    }
 err_close_fd:
-    (void)utils_close_fd(os_provider->fd);
-    if (os_provider->shm_name[0] != '\0') {
-        (void)utils_shm_unlink(os_provider->shm_name);
+    if (os_provider->fd > 0) {
+        (void)utils_close_fd(os_provider->fd);
+        if (os_provider->shm_name[0] != '\0') {
+            (void)utils_shm_unlink(os_provider->shm_name);
+        }
     }
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
@@ -775,6 +791,8 @@ err_free_os_provider:
 static void os_finalize(void *provider) {
     os_memory_provider_t *os_provider = provider;
 
+    utils_mutex_destroy_not_free(&os_provider->stats.lock);
+
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
         (void)utils_close_fd(os_provider->fd);
@@ -1212,6 +1230,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
     COMPILE_ERROR_ON(sizeof(os_provider->stats.peak_memory) !=
                      sizeof(uint64_t));
     COMPILE_ERROR_ON(sizeof(size) != sizeof(uint64_t));
+    utils_mutex_lock(&os_provider->stats.lock);
+
     // TODO: Change to memory_order_relaxed when we will have a proper wrapper
     size_t allocated =
         utils_fetch_and_add_u64(
@@ -1222,14 +1242,13 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
     utils_atomic_load_acquire_u64((uint64_t *)&os_provider->stats.peak_memory,
                                   &peak);
 
-    while (allocated > peak && !utils_compare_exchange_u64(
-                                   (uint64_t *)&os_provider->stats.peak_memory,
-                                   &peak, (uint64_t *)&allocated)) {
-        /* If the compare-exchange fails, 'peak' is updated to the current value of peak_memory.
-       We then re-check whether allocated is still greater than the updated peak value. */
-        ;
+    if (allocated > peak) {
+        utils_atomic_store_release_u64(
+            (uint64_t *)&os_provider->stats.peak_memory, allocated);
     }
 
+    utils_mutex_unlock(&os_provider->stats.lock);
+
     return UMF_RESULT_SUCCESS;
 
 err_unmap:
diff --git a/src/provider/provider_os_memory_internal.h b/src/provider/provider_os_memory_internal.h
index a3f35cb..896863f 100644
--- a/src/provider/provider_os_memory_internal.h
+++ b/src/provider/provider_os_memory_internal.h
@@ -70,6 +70,8 @@ typedef struct os_memory_provider_t {
     struct {
         size_t allocated_memory;
         size_t peak_memory;
+        // lock for updating both statistics together
+        utils_mutex_t lock;
     } stats;
 } os_memory_provider_t;
 
-- 
2.43.0


From ef6c79c469faa093c9ac5624f46c11d8e9ccc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:23 +0000
Subject: [PATCH 33/55] fix: ctl: trees of the OS provider and the scalable
 pool outlive a teardown

The trees were allocated from the base allocator once per process, and
umfTearDown released their memory: queries after a new initialisation read
freed memory. Without memory the entries went to the global tree.
---
 src/ctl/ctl.c                     | 17 -----------------
 src/ctl/ctl.h                     | 17 +++++++++++++++++
 src/pool/pool_scalable.c          |  7 +++----
 src/provider/provider_os_memory.c |  9 ++++-----
 4 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..23772fd 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -36,8 +36,6 @@
 #include <stdio.h>
 #endif
 
-#define CTL_MAX_ENTRIES 100
-
 #define MAX_CONFIG_FILE_LEN (1 << 20) /* 1 megabyte */
 
 #define CTL_STRING_QUERY_SEPARATOR ";"
@@ -49,21 +47,6 @@
 static int ctl_global_first_free = 0;
 static umf_ctl_node_t CTL_NODE(global)[CTL_MAX_ENTRIES];
 
-/*
- * This is the top level node of the ctl tree structure. Each node can contain
- * children and leaf nodes.
- *
- * Internal nodes simply create a new path in the tree whereas child nodes are
- * the ones providing the read/write functionality by the means of callbacks.
- *
- * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
- * convenience.
- */
-struct ctl {
-    umf_ctl_node_t root[CTL_MAX_ENTRIES];
-    int first_free;
-};
-
 void *Zalloc(size_t sz) {
     void *ptr = umf_ba_global_alloc(sz);
     if (ptr) {
diff --git a/src/ctl/ctl.h b/src/ctl/ctl.h
index 968998f..6df0e87 100644
--- a/src/ctl/ctl.h
+++ b/src/ctl/ctl.h
@@ -98,6 +98,23 @@ typedef struct ctl_node {
     const struct ctl_node *children;
 } umf_ctl_node_t;
 
+#define CTL_MAX_ENTRIES 100
+
+/*
+ * This is the top level node of the ctl tree structure. Each node can contain
+ * children and leaf nodes.
+ *
+ * Internal nodes simply create a new path in the tree whereas child nodes are
+ * the ones providing the read/write functionality by the means of callbacks.
+ *
+ * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
+ * convenience.
+ */
+struct ctl {
+    umf_ctl_node_t root[CTL_MAX_ENTRIES];
+    int first_free;
+};
+
 struct ctl *ctl_new(void);
 void ctl_delete(struct ctl *stats);
 
diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..e4da4dd 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -116,7 +116,7 @@ static const char *tbb_symbol[TBB_POOL_SYMBOLS_MAX] = {
 #endif
 };
 
-struct ctl *pool_scallable_ctl_root;
+static struct ctl pool_scallable_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -430,8 +430,7 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_pool_ctl(void) {
-    pool_scallable_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
+    CTL_REGISTER_MODULE(&pool_scallable_ctl_root, params);
 }
 
 static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
@@ -439,7 +438,7 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
-    return ctl_query(pool_scallable_ctl_root, pool_provider,
+    return ctl_query(&pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
 }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 0507641..1e730ce 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -170,7 +170,7 @@ static const char *Native_error_str[] = {
         "HWLOC topology discovery failed",
 };
 
-struct ctl *os_memory_ctl_root;
+static struct ctl os_memory_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -261,9 +261,8 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_os_ctl(void) {
-    os_memory_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(os_memory_ctl_root, params);
-    CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, params);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, stats);
 }
 
 static void os_store_last_native_error(int32_t native_error, int errno_value) {
@@ -1596,7 +1595,7 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
-    return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
+    return ctl_query(&os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg);
 }
 
-- 
2.43.0


From 2e0197f9c69ea6177a135527d4da2e6d1b255ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:23 +0000
Subject: [PATCH 34/55] fix: ctl: report failed queries, do not leak indexes or
 crash below a leaf

by_handle queries always succeeded, whatever the object answered. Index
entries were put in front of a local copy of the list head and leaked, and a
name going on below a leaf was searched in a null table.
---
 src/ctl/ctl.c         | 11 ++++++++---
 src/memory_pool.c     |  6 ++++--
 src/memory_provider.c |  7 ++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 23772fd..8473bb6 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -128,6 +128,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) {
+            // the name goes on below a leaf
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
@@ -144,7 +148,8 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            // the head of the list belongs to the caller
+            LL_PREPEND(indexes->next, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -387,8 +392,8 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
         ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
 
     if (n == NULL && ctl) {
-        ctl_delete_indexes(indexes);
-        indexes = NULL;
+        ctl_delete_indexes(indexes->next);
+        indexes->next = NULL;
         n = ctl_find_node(ctl->root, name, indexes, &name_offset);
     }
 
diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..0a9a28c 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,10 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    return hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType) ==
+                   UMF_RESULT_SUCCESS
+               ? 0
+               : -1;
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..9ceb4e8 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,10 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    return hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0,
+                              extra_name, arg, queryType) == UMF_RESULT_SUCCESS
+               ? 0
+               : -1;
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 9d03ef3521db8311799c9580d3a6cbcadac8006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 35/55] fix: os provider: a failed free keeps the allocation
 shareable

The file offset of the allocation was forgotten before munmap failed.
---
 src/provider/provider_os_memory.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1e730ce..3a9e0d9 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1262,13 +1262,23 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
 
+    void *fd_offset = NULL;
     if (os_provider->fd > 0) {
-        critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
+        fd_offset =
+            critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
     if (ret) {
+        int munmap_errno = errno;
+        if (fd_offset != NULL) {
+            // the allocation is still there
+            (void)critnib_insert(os_provider->fd_offset_map, (uintptr_t)ptr,
+                                 fd_offset, 0 /* update */);
+        }
+
+        errno = munmap_errno;
         os_store_last_native_error(UMF_OS_RESULT_ERROR_FREE_FAILED, errno);
         LOG_PERR("memory deallocation failed");
 
-- 
2.43.0


From 257c2aca588b29bd376711d9cf5d0e83ebab1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 36/55] fix: ipc cache: in-use handles closed by reused
 addresses, failed opens and over-limit handles kept, wrong provider asked to
 close, exit on out of memory

---
 src/ipc_cache.c                  | 107 ++++++++++++++++++++++++-------
 src/provider/provider_tracking.c |   2 +
 2 files changed, 85 insertions(+), 24 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..56207d4 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -11,7 +11,11 @@
 
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
+
+// running out of memory must fail the call, not end the process
+#define HASH_NONFATAL_OOM 1
 #include "uthash.h"
+
 #include "utils_common.h"
 #include "utils_concurrency.h"
 #include "utils_log.h"
@@ -33,8 +37,8 @@ typedef struct ipc_opened_cache_entry_t {
     ipc_opened_cache_key_t key;
     uint64_t ref_count;
     uint64_t handle_id;
-    hash_map_t
-        *hash_table; // pointer to the hash table to which the entry belongs
+    struct ipc_opened_cache_t *cache; // the cache to which the entry belongs
+    bool stale; // a newer handle has the same key, close after the last release
     ipc_opened_cache_value_t value;
 } ipc_opened_cache_entry_t;
 
@@ -49,6 +53,7 @@ typedef struct ipc_opened_cache_global_t {
 typedef struct ipc_opened_cache_t {
     ipc_opened_cache_global_t *global;
     hash_map_t hash_table;
+    lru_list_t stale_list; // stale entries that are still referenced
     ipc_opened_cache_eviction_cb_t eviction_cb;
 } ipc_opened_cache_t;
 
@@ -152,24 +157,51 @@ umfIpcOpenedCacheCreate(ipc_opened_cache_eviction_cb_t eviction_cb) {
 
     cache->global = IPC_OPENED_CACHE_GLOBAL;
     cache->hash_table = NULL;
+    cache->stale_list = NULL;
     cache->eviction_cb = eviction_cb;
 
     return cache;
 }
 
+// Removes the entry from the LRU list and from its hash table.
+// It has to be called with the cache_lock held.
+static void ipcOpenedCacheUnlink(ipc_opened_cache_entry_t *entry) {
+    ipc_opened_cache_t *cache = entry->cache;
+    DL_DELETE(cache->global->lru_list, entry);
+    HASH_DEL(cache->hash_table, entry);
+    cache->global->cur_size -= 1;
+}
+
+// Closes the mapping of an unlinked entry.
+// It has to be called with the cache_lock held, because the cache (and its
+// provider) cannot be destroyed until it is done.
+static void ipcOpenedCacheClose(ipc_opened_cache_entry_t *entry) {
+    // there is no mapping if opening it failed
+    if (entry->value.mapped_base_ptr != NULL) {
+        entry->cache->eviction_cb(&entry->key, &entry->value);
+    }
+}
+
+// Closes the mapping of an unlinked entry and frees the entry.
+static void ipcOpenedCacheFree(ipc_opened_cache_entry_t *entry) {
+    ipcOpenedCacheClose(entry);
+    utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
+    umf_ba_free(entry->cache->global->cache_allocator, entry);
+}
+
 void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t cache) {
     ipc_opened_cache_entry_t *entry, *tmp;
 
     utils_mutex_lock(&(cache->global->cache_lock));
     HASH_ITER(hh, cache->hash_table, entry, tmp) {
-        DL_DELETE(cache->global->lru_list, entry);
-        HASH_DEL(cache->hash_table, entry);
-        cache->global->cur_size -= 1;
-        cache->eviction_cb(&entry->key, &entry->value);
-        utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
-        umf_ba_free(cache->global->cache_allocator, entry);
+        ipcOpenedCacheUnlink(entry);
+        ipcOpenedCacheFree(entry);
     }
     HASH_CLEAR(hh, cache->hash_table);
+    DL_FOREACH_SAFE(cache->stale_list, entry, tmp) {
+        DL_DELETE(cache->stale_list, entry);
+        ipcOpenedCacheFree(entry);
+    }
     utils_mutex_unlock(&(cache->global->cache_lock));
 
     umf_ba_global_free(cache);
@@ -181,8 +213,6 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
                                   ipc_opened_cache_value_t **retEntry) {
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
-    bool evicted = false;
-    ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
         LOG_ERR("Some arguments are NULL, cache=%p, key=%p, retEntry=%p",
@@ -202,6 +232,20 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         // add the entry to the head of the list
         DL_PREPEND(cache->global->lru_list, entry);
     } else { //cache miss
+        if (entry) {
+            // The memory was freed and its address was used again.
+            uint64_t ref_count = 0;
+            utils_atomic_load_acquire_u64(&entry->ref_count, &ref_count);
+            if (ref_count != 0) {
+                // The old mapping is still in use, it is going to be closed
+                // by its last release.
+                ipcOpenedCacheUnlink(entry);
+                entry->stale = true;
+                DL_PREPEND(cache->stale_list, entry);
+                entry = NULL;
+            }
+        }
+
         // Look for eviction candidate
         if (entry == NULL && cache->global->max_size != 0 &&
             cache->global->cur_size >= cache->global->max_size) {
@@ -223,13 +267,9 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
 
         if (entry) { // we have eviction candidate
             // remove the entry from the frequency list
-            DL_DELETE(cache->global->lru_list, entry);
-            // remove the entry from the hash table it belongs to
-            HASH_DEL(*(entry->hash_table), entry);
-            cache->global->cur_size -= 1;
-            evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
-            evicted_value.mapped_size = entry->value.mapped_size;
-            evicted = true;
+            // and from the hash table it belongs to
+            ipcOpenedCacheUnlink(entry);
+            ipcOpenedCacheClose(entry);
         } else { // allocate the new entry
             entry = umf_ba_alloc(cache->global->cache_allocator);
             if (!entry) {
@@ -239,7 +279,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
@@ -248,11 +288,18 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         entry->key = *key;
         entry->ref_count = 0;
         entry->handle_id = handle_id;
-        entry->hash_table = &cache->hash_table;
+        entry->cache = cache;
+        entry->stale = false;
         entry->value.mapped_size = 0;
         entry->value.mapped_base_ptr = NULL;
 
         HASH_ADD(hh, cache->hash_table, key, sizeof(entry->key), entry);
+        if (entry->hh.tbl == NULL) {
+            LOG_ERR("Failed to allocate memory for the IPC cache hash table");
+            ipcOpenedCacheFree(entry);
+            ret = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+            goto exit;
+        }
         DL_PREPEND(cache->global->lru_list, entry);
         cache->global->cur_size += 1;
     }
@@ -265,10 +312,6 @@ exit:
 
     utils_mutex_unlock(&(cache->global->cache_lock));
 
-    if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
-    }
-
     return ret;
 }
 
@@ -283,8 +326,24 @@ umfIpcHandleMappedCacheRelease(ipc_opened_cache_value_t *cacheValue) {
     ipc_opened_cache_entry_t *entry =
         (ipc_opened_cache_entry_t *)((char *)cacheValue -
                                      offsetof(ipc_opened_cache_entry_t, value));
+    ipc_opened_cache_t *cache = entry->cache;
+    ipc_opened_cache_global_t *global = cache->global;
+
+    utils_mutex_lock(&(global->cache_lock));
     // decrement the ref count
-    utils_atomic_decrement_u64(&entry->ref_count);
+    if (utils_atomic_decrement_u64(&entry->ref_count) == 0) {
+        if (entry->stale) {
+            DL_DELETE(cache->stale_list, entry);
+            ipcOpenedCacheFree(entry);
+        } else if (entry->value.mapped_base_ptr == NULL ||
+                   (global->max_size != 0 &&
+                    global->cur_size > global->max_size)) {
+            // opening the handle failed or there are too many opened handles
+            ipcOpenedCacheUnlink(entry);
+            ipcOpenedCacheFree(entry);
+        }
+    }
+    utils_mutex_unlock(&(global->cache_lock));
 
     return UMF_RESULT_SUCCESS;
 }
diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 375e333..4cb931a 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1200,6 +1200,8 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        (void)umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From ee4c8dcc3b94c6ce3b8c49a223e492b6424f12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 37/55] fix: tracking provider: IPC handles of allocations that
 are split or merged are given back first

---
 src/provider/provider_tracking.c | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 4cb931a..876fa49 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -546,6 +546,24 @@ typedef struct umf_tracking_memory_provider_t {
 
 typedef struct umf_tracking_memory_provider_t umf_tracking_memory_provider_t;
 
+// Gives the IPC handle of an allocation that is about to end back to the upstream
+// provider.
+static void putCachedIpcHandle(umf_tracking_memory_provider_t *p,
+                               const void *ptr, size_t size) {
+    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
+    if (value) {
+        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
+        umf_result_t ret = umfMemoryProviderPutIPCHandle(
+            p->hUpstream, cache_value->providerIpcData);
+        if (ret != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
+                    "size=%zu, ret = %d",
+                    ptr, size, ret);
+        }
+        umf_ba_global_free(value);
+    }
+}
+
 static umf_result_t trackingAlloc(void *hProvider, size_t size,
                                   size_t alignment, void **_ptr) {
     umf_tracking_memory_provider_t *p =
@@ -644,6 +662,9 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    // the handle describes the whole allocation
+    putCachedIpcHandle(provider, ptr, totalSize);
+
     ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                            firstSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -750,6 +771,10 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     mergedValue->n_children = lowValue->n_children + highValue->n_children;
 
+    // the handles describe the allocations that are merged
+    putCachedIpcHandle(provider, lowPtr, lowValue->size);
+    putCachedIpcHandle(provider, highPtr, highValue->size);
+
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -831,18 +856,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
         }
     }
 
-    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
-    if (value) {
-        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
-        ret = umfMemoryProviderPutIPCHandle(p->hUpstream,
-                                            cache_value->providerIpcData);
-        if (ret != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    ptr, size, ret);
-        }
-        umf_ba_global_free(value);
-    }
+    putCachedIpcHandle(p, ptr, size);
 
     ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
     if (ret != UMF_RESULT_SUCCESS) {
-- 
2.43.0


From a3f75b401eddcb82dd29e07d678d9aeb4f2f63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 38/55] fix: umfInit: concurrent callers, failed initialization
 and repeated registration of the global control tree

---
 src/libumf.c | 56 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..0ada82d 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -18,6 +18,7 @@
 #include "provider_level_zero_internal.h"
 #include "provider_tracking.h"
 #include "utils_common.h"
+#include "utils_concurrency.h"
 #include "utils_log.h"
 #if !defined(UMF_NO_HWLOC)
 #include "topology.h"
@@ -25,19 +26,45 @@
 
 umf_memory_tracker_handle_t TRACKER = NULL;
 
+// umfInitMutex guards umfRefCount and the global state it counts the users of
 static uint64_t umfRefCount = 0;
+static utils_mutex_t umfInitMutex;
+static bool umfInitMutexReady = false;
+static UTIL_ONCE_FLAG umfInitOnce = UTIL_ONCE_FLAG_INIT;
 
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
 void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
 
+static void umfInitOnceCb(void) {
+    umfInitMutexReady = (utils_mutex_init(&umfInitMutex) != NULL);
+    // the global CTL tree is static, it must not be registered again
+    initialize_global_ctl();
+}
+
+static bool umfInitLock(void) {
+    utils_init_once(&umfInitOnce, umfInitOnceCb);
+    return umfInitMutexReady && utils_mutex_lock(&umfInitMutex) == 0;
+}
+
 int umfInit(void) {
-    if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
+    if (!umfInitLock()) {
+        LOG_ERR("Failed to lock the initialization mutex");
+        return -1;
+    }
+
+    if (umfRefCount == 0) {
         utils_log_init();
-        TRACKER = umfMemoryTrackerCreate();
-        if (!TRACKER) {
+        umf_memory_tracker_handle_t tracker = TRACKER;
+        // the tracker is not destroyed when the library is torn down
+        // in the proxy library with a size threshold
+        if (!tracker) {
+            tracker = umfMemoryTrackerCreate();
+        }
+        if (!tracker) {
             LOG_ERR("Failed to create memory tracker");
+            utils_mutex_unlock(&umfInitMutex);
             return -1;
         }
 
@@ -46,22 +73,33 @@ int umfInit(void) {
         umf_result_t umf_result = umfIpcCacheGlobalInit();
         if (umf_result != UMF_RESULT_SUCCESS) {
             LOG_ERR("Failed to initialize IPC cache");
+            if (!TRACKER) {
+                umfMemoryTrackerDestroy(tracker);
+            }
+            utils_mutex_unlock(&umfInitMutex);
             return -1;
         }
 
         LOG_DEBUG("UMF IPC cache initialized");
-        initialize_global_ctl();
+        TRACKER = tracker;
     }
 
-    if (TRACKER) {
-        LOG_DEBUG("UMF library initialized");
-    }
+    umfRefCount++;
+    utils_mutex_unlock(&umfInitMutex);
+
+    LOG_DEBUG("UMF library initialized");
 
     return 0;
 }
 
 void umfTearDown(void) {
-    if (utils_fetch_and_sub_u64(&umfRefCount, 1) == 1) {
+    if (!umfInitLock()) {
+        LOG_ERR("Failed to lock the initialization mutex");
+        return;
+    }
+
+    // there is nothing to release if the initialization failed
+    if (umfRefCount > 0 && --umfRefCount == 0) {
 #if !defined(_WIN32) && !defined(UMF_NO_HWLOC)
         umfMemspaceHostAllDestroy();
         umfMemspaceHighestCapacityDestroy();
@@ -94,6 +132,8 @@ void umfTearDown(void) {
         fini_tbb_global_state();
         LOG_DEBUG("UMF library finalized");
     }
+
+    utils_mutex_unlock(&umfInitMutex);
 }
 
 int umfGetCurrentVersion(void) { return UMF_VERSION_CURRENT; }
-- 
2.43.0


From c125ef4fca227f02156c2fb6c6f30e6ae7e5c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 39/55] fix: libraries opened for pools and providers are
 opened again after the library was torn down

---
 src/pool/pool_scalable.c           |  9 ++++++++-
 src/provider/provider_cuda.c       | 11 +++++++++--
 src/provider/provider_level_zero.c | 11 +++++++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index e4da4dd..2c1e010 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -156,6 +156,7 @@ static void init_tbb_callbacks_once(void) {
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
         }
+        tbb_callbacks.lib_handle = NULL;
         tbb_init_result = -1;
     }
 }
@@ -168,12 +169,18 @@ static int init_tbb_callbacks(void) {
 void fini_tbb_global_state(void) {
     if (tbb_callbacks.lib_handle) {
         if (!utils_close_library(tbb_callbacks.lib_handle)) {
-            tbb_callbacks.lib_handle = NULL;
             LOG_DEBUG("TBB library closed");
         } else {
             LOG_ERR("TBB library cannot be unloaded");
         }
+        tbb_callbacks.lib_handle = NULL;
     }
+
+    // the library has to be opened again if UMF is initialized again
+    // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
+    tbb_init_result = 0;
 }
 
 static void *tbb_raw_alloc_wrapper(intptr_t pool_id, size_t *raw_bytes) {
diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index dd12d91..21ed902 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -13,16 +13,25 @@
 #include <umf/providers/provider_cuda.h>
 
 #include "provider_cuda_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *cu_lib_handle = NULL;
+static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_cu_global_state_failed;
 
 void fini_cu_global_state(void) {
     if (cu_lib_handle) {
         utils_close_library(cu_lib_handle);
         cu_lib_handle = NULL;
     }
+
+    // the library has to be opened again if UMF is initialized again
+    // portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&cu_is_initialized, &is_initialized, sizeof(cu_is_initialized));
+    Init_cu_global_state_failed = false;
 }
 
 #if defined(UMF_NO_CUDA_PROVIDER)
@@ -150,8 +159,6 @@ typedef struct cu_ops_t {
 typedef CUipcMemHandle cu_ipc_data_t;
 
 static cu_ops_t g_cu_ops;
-static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_cu_global_state_failed;
 
 // forward decl needed for alloc
 static umf_result_t cu_memory_provider_free(void *provider, void *ptr,
diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..c9200e9 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -15,16 +15,25 @@
 #include <umf/providers/provider_level_zero.h>
 
 #include "provider_level_zero_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *ze_lib_handle = NULL;
+static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_ze_global_state_failed;
 
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
     }
+
+    // the library has to be opened again if UMF is initialized again
+    // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&ze_is_initialized, &is_initialized, sizeof(ze_is_initialized));
+    Init_ze_global_state_failed = false;
 }
 
 #if defined(UMF_NO_LEVEL_ZERO_PROVIDER)
@@ -189,8 +198,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
 static void store_last_native_error(int32_t native_error) {
-- 
2.43.0


From a80578f9aac420779b2b3b62ac1e852681cd6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 40/55] fix: memspaces: failed filters and creations, last
 target, sparse node numbers, initialization after a failure

---
 src/memspace.c                             | 76 +++++++++++-----------
 src/memspaces/memspace_highest_bandwidth.c | 11 ++--
 src/memspaces/memspace_highest_capacity.c  | 19 ++++--
 src/memspaces/memspace_host_all.c          | 17 +++--
 src/memspaces/memspace_lowest_latency.c    |  6 +-
 src/memspaces/memspace_numa.c              |  2 +-
 src/memtargets/memtarget_numa.c            | 14 ++--
 src/topology.c                             | 11 ++--
 8 files changed, 83 insertions(+), 73 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..d70c2b3 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -153,11 +153,14 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     }
 
     clone->size = hMemspace->size;
-    clone->nodes =
-        umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
-    if (!clone->nodes) {
-        umf_ba_global_free(clone);
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    clone->nodes = NULL;
+    if (clone->size > 0) {
+        clone->nodes =
+            umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
+        if (!clone->nodes) {
+            umf_ba_global_free(clone);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
     }
 
     size_t i;
@@ -408,10 +411,13 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    umf_memtarget_handle_t *newNodes = NULL;
+    if (hMemspace->size > 1) {
+        newNodes =
+            umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
+        if (!newNodes) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
     }
 
     for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
@@ -437,48 +443,42 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    size_t idx = 0;
-    int ret;
-    umf_memtarget_handle_t *nodesToRemove =
-        umf_ba_global_alloc(sizeof(*nodesToRemove) * memspace->size);
-    if (!nodesToRemove) {
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS;
+    }
+
+    // filtered targets are put at the beginning, removed ones at the end
+    size_t nKept = 0, nRemoved = 0;
+    umf_memtarget_handle_t *nodes =
+        umf_ba_global_alloc(sizeof(*nodes) * memspace->size);
+    if (!nodes) {
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     for (size_t i = 0; i < memspace->size; i++) {
-        ret = filter(memspace, memspace->nodes[i], args);
+        int ret = filter(memspace, memspace->nodes[i], args);
         if (ret < 0) {
             LOG_ERR("filter function failed");
-            goto free_mem;
+            umf_ba_global_free(nodes);
+            return ret;
         } else if (ret == 0) {
-            nodesToRemove[idx++] = memspace->nodes[i];
+            nRemoved++;
+            nodes[memspace->size - nRemoved] = memspace->nodes[i];
+        } else {
+            nodes[nKept++] = memspace->nodes[i];
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
-        ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
-        if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
-        }
+    // nothing can fail from now on
+    for (size_t i = nKept; i < memspace->size; i++) {
+        umfMemtargetDestroy(nodes[i]);
     }
 
-    umf_ba_global_free(nodesToRemove);
-    return UMF_RESULT_SUCCESS;
+    umf_ba_global_free(memspace->nodes);
+    memspace->nodes = nodes;
+    memspace->size = nKept;
 
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
-            ret =
-                UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
-            break;
-        }
-    }
-free_mem:
-    umf_ba_global_free(nodesToRemove);
-    return ret;
+    return UMF_RESULT_SUCCESS;
 }
 
 umf_result_t umfMemspaceUserFilter(umf_memspace_handle_t memspace,
diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 93fede2..b3f2b02 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -90,12 +90,12 @@ void umfMemspaceHighestBandwidthDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_BANDWIDTH) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_BANDWIDTH);
         UMF_MEMSPACE_HIGHEST_BANDWIDTH = NULL;
-
-        // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
 }
 
 static void umfMemspaceHighestBandwidthInit(void) {
@@ -105,7 +105,6 @@ static void umfMemspaceHighestBandwidthInit(void) {
         LOG_ERR(
             "Creating the highest bandwidth memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 }
 
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..178faae 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t
 umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
@@ -50,6 +51,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
@@ -66,19 +68,22 @@ void umfMemspaceHighestCapacityDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_CAPACITY) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_CAPACITY);
         UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
-
-        // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
 }
 
 static void umfMemspaceHighestCapacityInit(void) {
     umf_result_t ret =
         umfMemspaceHighestCapacityCreate(&UMF_MEMSPACE_HIGHEST_CAPACITY);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR(
+            "Creating the highest capacity memspace failed with the error: %u",
+            ret);
+    }
 }
 
 umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index 4b7db69..c219d07 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHostAllGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t umfMemspaceHostAllCreate(umf_memspace_handle_t *hMemspace) {
     if (!hMemspace) {
@@ -85,18 +86,20 @@ void umfMemspaceHostAllDestroy(void) {
     if (UMF_MEMSPACE_HOST_ALL) {
         umfMemspaceDestroy(UMF_MEMSPACE_HOST_ALL);
         UMF_MEMSPACE_HOST_ALL = NULL;
-
-        // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
 }
 
 static void umfMemspaceHostAllInit(void) {
     umf_result_t ret = umfMemspaceHostAllCreate(&UMF_MEMSPACE_HOST_ALL);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Creating the host all memspace failed with the error: %u",
+                ret);
+    }
 
     // TODO: Setup appropriate cleanup when 'HOST ALL' memspace becomes available
     // on Windows. 'HOST ALL' memspace depends on OS provider, which currently
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..78d87b3 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -92,6 +92,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
     }
+
+    // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
 }
 
 static void umfMemspaceLowestLatencyInit(void) {
@@ -101,7 +106,6 @@ static void umfMemspaceLowestLatencyInit(void) {
         LOG_ERR(
             "Creating the lowest latency memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 
 #if defined(_WIN32) && !defined(UMF_SHARED_LIBRARY)
diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..4bc3b2a 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,19 +263,17 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
diff --git a/src/topology.c b/src/topology.c
index eab7992..eb32c26 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,12 +18,13 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
-
-        // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&topology_initialized, &is_initialized,
-               sizeof(topology_initialized));
+        topology = NULL;
     }
+
+    // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&topology_initialized, &is_initialized,
+           sizeof(topology_initialized));
 }
 
 static void umfCreateTopology(void) {
-- 
2.43.0


From 08621be8694384b4900fad7aaeef191985a9cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 41/55] fix: Level Zero provider: failed residency, failed
 initialization, missing zeMemFreeExt and lost errors

---
 src/provider/provider_level_zero.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index c9200e9..91493ae 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -426,6 +426,9 @@ static ze_relaxed_allocation_limits_exp_desc_t relaxed_device_allocation_desc =
      .pNext = NULL,
      .flags = ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE};
 
+static umf_result_t ze_memory_provider_free(void *provider, void *ptr,
+                                            size_t bytes);
+
 static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
                                              size_t alignment,
                                              void **resultPtr) {
@@ -488,6 +491,9 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            // free first, the native error of the failed call must not be lost
+            (void)ze_memory_provider_free(ze_provider, *resultPtr, size);
+            *resultPtr = NULL;
             return ze2umf_result(ze_result);
         }
     }
@@ -535,11 +541,16 @@ static umf_result_t query_min_page_size(ze_memory_provider_t *ze_provider,
     ze_result_t ze_result = g_ze_ops.zeMemGetAllocProperties(
         ze_provider->context, ptr, &properties, NULL);
 
-    *min_page_size = properties.pageSize;
+    // free first, the native error of the failed query must not be lost
+    result = ze_memory_provider_free(ze_provider, ptr, 1);
 
-    ze_memory_provider_free(ze_provider, ptr, 1);
+    if (ze_result != ZE_RESULT_SUCCESS) {
+        return ze2umf_result(ze_result);
+    }
 
-    return ze2umf_result(ze_result);
+    *min_page_size = properties.pageSize;
+
+    return result;
 }
 
 static void ze_memory_provider_finalize(void *provider) {
@@ -583,6 +594,12 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    if (umfFreePolicyToZePolicy(ze_params->freePolicy) != 0 &&
+        !g_ze_ops.zeMemFreeExt) {
+        LOG_ERR("the free policy is not supported by the Level Zero library");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
@@ -636,7 +653,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
@@ -655,6 +672,7 @@ static void ze_memory_provider_get_last_native_error(void *provider,
         return;
     }
 
+    *ppMessage = NULL;
     *pError = TLS_last_native_error;
 }
 
-- 
2.43.0


From 6bbb31820d28a1d6e0f16012b5a95f1ca47ccbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 42/55] fix: scalable pool: calloc size overflow and missing
 pool_msize symbol

---
 src/pool/pool_scalable.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 2c1e010..637965c 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -151,7 +151,7 @@ static void init_tbb_callbacks_once(void) {
     if (!tbb_callbacks.pool_malloc || !tbb_callbacks.pool_realloc ||
         !tbb_callbacks.pool_aligned_malloc || !tbb_callbacks.pool_free ||
         !tbb_callbacks.pool_create_v1 || !tbb_callbacks.pool_destroy ||
-        !tbb_callbacks.pool_identify) {
+        !tbb_callbacks.pool_identify || !tbb_callbacks.pool_msize) {
         LOG_FATAL("Could not find all TBB symbols in %s", lib_name);
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
@@ -343,6 +343,12 @@ static void *tbb_malloc(void *pool, size_t size) {
 
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) {
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        LOG_ERR("the size of the array exceeds SIZE_MAX");
+        return NULL;
+    }
+
     size_t csize = num * size;
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From 94b23cb8839397e4dc8cb5e04faca0f7e805eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:52 +0000
Subject: [PATCH 43/55] fix: last failed provider after IPC calls, native error
 before any failure and after a failed binding

---
 src/memory_provider.c                 | 30 ++++++++++++++++++---------
 src/provider/provider_devdax_memory.c |  3 ++-
 src/provider/provider_file_memory.c   |  3 ++-
 src/provider/provider_fixed_memory.c  |  3 ++-
 src/provider/provider_os_memory.c     |  4 +++-
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index 9ceb4e8..f5f8e38 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -359,8 +359,10 @@ umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t hProvider,
                                   size_t *size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((size != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv,
-                                                  size);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle_size(
+        hProvider->provider_priv, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -370,8 +372,10 @@ umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle(hProvider->provider_priv, ptr,
-                                             size, providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle(
+        hProvider->provider_priv, ptr, size, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -379,8 +383,10 @@ umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t hProvider,
                               void *providerIpcData) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.put_ipc_handle(hProvider->provider_priv,
-                                             providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.put_ipc_handle(
+        hProvider->provider_priv, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -389,8 +395,10 @@ umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.open_ipc_handle(hProvider->provider_priv,
-                                              providerIpcData, ptr);
+    umf_result_t res = hProvider->ops.ipc.open_ipc_handle(
+        hProvider->provider_priv, providerIpcData, ptr);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -398,6 +406,8 @@ umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t hProvider,
                                 void *ptr, size_t size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.close_ipc_handle(hProvider->provider_priv, ptr,
-                                               size);
+    umf_result_t res = hProvider->ops.ipc.close_ipc_handle(
+        hProvider->provider_priv, ptr, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index ddc8327..73fd849 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index fed72b5..004a0a3 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 3a9e0d9..01e7e6d 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
@@ -1180,6 +1181,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
+            os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED, 0);
             goto err_unmap;
         }
 
-- 
2.43.0


From 7b57387f55b0739a0736d9deff2049280e3e90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 44/55] fix: control names passed on to a module were looked up
 in the global tree

---
 src/ctl/ctl.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 8473bb6..df0ac74 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -388,14 +388,10 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
     int ret = -1;
     size_t name_offset = 0;
 
-    const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
-
-    if (n == NULL && ctl) {
-        ctl_delete_indexes(indexes->next);
-        indexes->next = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
-    }
+    // The entries of the global tree expect a handle of the user, so they must
+    // not be looked for in a query that was passed on to a module.
+    const umf_ctl_node_t *n = ctl_find_node(ctl ? ctl->root : CTL_NODE(global),
+                                            name, indexes, &name_offset);
 
     // if the appropriate node (leaf or subtree) is not found, then return error
     if (n == NULL ||
-- 
2.43.0


From a2058175ae370b798d0044e38451ef326ba98540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 45/55] fix: interleaved parts were counted unrounded, so
 consecutive allocations started on wrong nodes

---
 src/provider/provider_os_memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 01e7e6d..66238dd 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1074,9 +1074,10 @@ static membind_t membindFirst(os_memory_provider_t *provider, void *addr,
     if (provider->mode == UMF_NUMA_MODE_INTERLEAVE) {
         assert(provider->part_size != 0);
         size_t s = utils_fetch_and_add_u64(&provider->alloc_sum, size);
-        membind.node = (s / provider->part_size) % provider->nodeset_len;
-        membind.bitmap = provider->nodeset[membind.node];
+        // parts are bound in whole pages, so they have to be counted that way
         membind.bind_size = ALIGN_UP(provider->part_size, membind.page_size);
+        membind.node = (s / membind.bind_size) % provider->nodeset_len;
+        membind.bitmap = provider->nodeset[membind.node];
         if (membind.bind_size > membind.alloc_size) {
             membind.bind_size = membind.alloc_size;
         }
-- 
2.43.0


From 7cc9d1137b363d6c5ac2e49e9294cfc4f575fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 46/55] fix: proxy library: start-up allocator: misaligned
 blocks, size overflows, crash when out of memory

Blocks of malloc(), calloc() and realloc() of the start-up allocator were
aligned to 8 bytes only, sizes of calloc() and aligned_alloc() overflowed,
and a failed creation of the allocator led to a null pointer dereference.
---
 src/proxy_lib/proxy_lib.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..1ca6f5f 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -45,6 +45,7 @@
 
 #include <assert.h>
 #include <limits.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #include <umf/memory_pool.h>
@@ -125,6 +126,10 @@ static umf_ba_linear_pool_t *Base_alloc_leak = NULL;
 static umf_memory_provider_handle_t OS_memory_provider = NULL;
 static umf_memory_pool_handle_t Proxy_pool = NULL;
 
+// malloc(), calloc() and realloc() have to return memory aligned
+// for every type, like alignof(max_align_t)
+#define BA_LEAK_ALIGNMENT 16
+
 // it protects us from recursion in umfPool*()
 static __TLS int was_called_from_umfPool = 0;
 
@@ -276,13 +281,15 @@ fini_proxy_lib_destroy_common:
 /*** Generic version of realloc() of linear base allocator *******************/
 /*****************************************************************************/
 
+static inline void *ba_leak_malloc(size_t size);
+
 static inline void *ba_generic_realloc(umf_ba_linear_pool_t *pool, void *ptr,
                                        size_t new_size, size_t max_size) {
     assert(ptr);      // it should be verified in the main realloc()
     assert(new_size); // it should be verified in the main realloc()
     assert(max_size); // max_size should be set in the main realloc()
 
-    void *new_ptr = umf_ba_linear_alloc(pool, new_size);
+    void *new_ptr = ba_leak_malloc(new_size);
     if (!new_ptr) {
         return NULL;
     }
@@ -315,19 +322,27 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (!Base_alloc_leak || size > SIZE_MAX - alignment) {
+        return NULL;
+    }
+
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
 
 static inline void *ba_leak_malloc(size_t size) {
-    return ba_leak_aligned_alloc(0, size);
+    return ba_leak_aligned_alloc(BA_LEAK_ALIGNMENT, size);
 }
 
 static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
     // umf_ba_linear_alloc() returns zeroed memory
-    // so ba_leak_aligned_alloc() does too
-    return ba_leak_aligned_alloc(0, nmemb * size);
+    // so ba_leak_malloc() does too
+    if (size != 0 && nmemb > SIZE_MAX / size) {
+        return NULL;
+    }
+
+    return ba_leak_malloc(nmemb * size);
 }
 
 static inline void *ba_leak_realloc(void *ptr, size_t size, size_t max_size) {
@@ -337,11 +352,19 @@ static inline void *ba_leak_realloc(void *ptr, size_t size, size_t max_size) {
 
 static inline int ba_leak_free(void *ptr) {
     ba_leak_init_once();
+    if (!Base_alloc_leak) {
+        return -1;
+    }
+
     return umf_ba_linear_free(Base_alloc_leak, ptr);
 }
 
 static inline size_t ba_leak_pool_contains_pointer(void *ptr) {
     ba_leak_init_once();
+    if (!Base_alloc_leak) {
+        return 0;
+    }
+
     return umf_ba_linear_pool_contains_pointer(Base_alloc_leak, ptr);
 }
 
-- 
2.43.0


From d38e9fa5c58656f395822c1329a9912df155429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 47/55] fix: disjoint pool: allocations above 2 GB indexed past
 the buckets when max_poolable_size is larger

---
 src/pool/pool_disjoint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index b4915cb..8b645d2 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -649,6 +649,9 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
 
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
+    // there are no buckets for chunks larger than CutOff
+    disjoint_pool->params.max_poolable_size =
+        utils_min(disjoint_pool->params.max_poolable_size, CutOff);
     disjoint_pool->slab_readers = 0;
     disjoint_pool->retired_slabs = NULL;
 
-- 
2.43.0


From 677362a352c31ee908120f4c712ab2a016721c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 48/55] fix: tracking provider: blocks with inner blocks can be
 merged, merged inner blocks are no longer counted

---
 src/provider/provider_tracking.c | 59 ++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 876fa49..d21d183 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -174,6 +174,43 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
     return rvalue;
 }
 
+// Find the entry of the given pool with the `ptr` key. In contrast to
+// get_most_nested_alloc_segment() the entry may have children.
+static tracker_alloc_info_t *
+get_alloc_segment_of_pool(umf_memory_tracker_handle_t hTracker,
+                          umf_memory_pool_handle_t pool, const void *ptr,
+                          int *_level, tracker_alloc_info_t **_parent_value) {
+    tracker_alloc_info_t *parent_value = NULL;
+
+    for (int level = 0; level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; level++) {
+        tracker_alloc_info_t *rvalue = NULL;
+        uintptr_t rkey = 0;
+        uint64_t rsize = 0;
+
+        int found =
+            critnib_find(hTracker->alloc_segments_map[level], (uintptr_t)ptr,
+                         FIND_LE, (void *)&rkey, (void **)&rvalue);
+        if (!found || !rvalue) {
+            return NULL;
+        }
+
+        if (rkey == (uintptr_t)ptr && rvalue->pool == pool) {
+            *_level = level;
+            *_parent_value = parent_value;
+            return rvalue;
+        }
+
+        utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
+        if ((uintptr_t)ptr >= rkey + rsize) {
+            return NULL;
+        }
+
+        parent_value = rvalue;
+    }
+
+    return NULL;
+}
+
 static umf_result_t
 umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
                            umf_memory_pool_handle_t pool, const void *ptr,
@@ -737,23 +774,26 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     tracker_reader_enter(provider->hTracker);
 
-    tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
-        0 /* no_children */); // can have children
+    tracker_alloc_info_t *lowParent = NULL;
+    tracker_alloc_info_t *highParent = NULL;
+
+    tracker_alloc_info_t *lowValue =
+        get_alloc_segment_of_pool(provider->hTracker, provider->pool, lowPtr,
+                                  &lowLevel, &lowParent); // can have children
     if (!lowValue) {
         LOG_FATAL("no left value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
-        0 /* no_children */); // can have children
+    tracker_alloc_info_t *highValue =
+        get_alloc_segment_of_pool(provider->hTracker, provider->pool, highPtr,
+                                  &highLevel, &highParent); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    if (lowLevel != highLevel) {
+    if (lowLevel != highLevel || lowParent != highParent) {
         LOG_FATAL("tracker level mismatch");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
@@ -800,6 +840,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     (void)erasedhighValue;
 
+    // the parent has one child less
+    if (highParent) {
+        utils_atomic_decrement_u64((uint64_t *)&highParent->n_children);
+    }
+
     tracker_reader_exit(provider->hTracker);
     // free the old values that were replaced with mergedValue
     tracker_retire(provider->hTracker, provider->hTracker->alloc_info_allocator,
-- 
2.43.0


From 394a139a6c7d441c829d7b98843a55fe0a3e6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 49/55] fix: logging a message does not change errno

Writing to the log can fail or set errno. The providers and the IPC code log
a failed system call first and translate errno (or store it as the native
error) afterwards, so the cause they reported depended on the logger.
---
 src/utils/utils_log.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 2fd28fc..9e8b5db 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -106,6 +106,9 @@ static void utils_log_internal(utils_log_level_t level, int perror,
         return;
     }
 
+    // the callers use errno after a message is logged
+    int saved_errno = errno;
+
     int pid = utils_getpid();
     int tid = utils_gettid();
 
@@ -220,6 +223,8 @@ static void utils_log_internal(utils_log_level_t level, int perror,
     if (level >= loggerConfig.flushLevel) {
         fflush(out);
     }
+
+    errno = saved_errno;
 }
 
 #if defined(_MSC_VER)
-- 
2.43.0


From df57d9ddd872e33cefff36fb0e28139fa59907dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 50/55] fix: the log file is opened only once

utils_log_init() runs each time the library is initialized (and once more in
the constructor of the coarse library), and each time it opened the log file
again without closing the previous stream.
---
 src/utils/utils_log.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 9e8b5db..5ed3729 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -262,7 +262,9 @@ void utils_log_init(void) {
     } else if (utils_parse_var(envVar, "output:stderr", NULL)) {
         loggerConfig.output = stderr;
     } else if (utils_parse_var(envVar, "output:file", &arg)) {
-        loggerConfig.output = NULL;
+        // the file opened by the last call, it stays open until the process ends
+        static FILE *logFile = NULL;
+        static char logFileName[MAX_FILE_PATH + 1];
         const char *argEnd = strstr(arg, ";");
         char file[MAX_FILE_PATH + 1];
         size_t len = 0;
@@ -282,12 +284,18 @@ void utils_log_init(void) {
 
         memcpy(file, arg, len);
         file[len] = '\0';
-        loggerConfig.output = fopen(file, "a");
-        if (!loggerConfig.output) {
-            loggerConfig.output = stderr;
-            LOG_PERR("Cannot open output file %s - logging disabled", file);
-            loggerConfig.output = NULL;
-            return;
+        // do not open the file again if the logger uses it already
+        if (!loggerConfig.output || loggerConfig.output != logFile ||
+            strcmp(logFileName, file) != 0) {
+            loggerConfig.output = fopen(file, "a");
+            if (!loggerConfig.output) {
+                loggerConfig.output = stderr;
+                LOG_PERR("Cannot open output file %s - logging disabled", file);
+                loggerConfig.output = NULL;
+                return;
+            }
+            logFile = loggerConfig.output;
+            memcpy(logFileName, file, len + 1);
         }
     } else {
         loggerConfig.output = stderr;
-- 
2.43.0


From f524e50d7569891fc89fd428e7139d79267eef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:17 +0000
Subject: [PATCH 51/55] fix: UMF_LOG options are found even if the log file's
 path contains their text

---
 src/utils/utils_common.c | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..2374a17 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -59,33 +59,34 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
-    const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
+    const char *found = NULL;
+    // the same string may be a part of another option, e.g. of a path
+    while ((found = strstr(found ? found + 1 : var, option)) != NULL) {
+        // if found string is not at the beginning of var ensure it's preceded by ';'
+        if (found != var && *(found - 1) != ';') {
+            continue;
+        }
 
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+        const char *endFound = found + strlen(option);
+        if (!extraArg) {
+            // if there is no argument, matched string should end with ';' or '\0'
+            if (*endFound != '\0' && *endFound != ';') {
+                continue;
+            }
+            return found;
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
-    }
+        // check if matched string ends with ','
+        if (*endFound != ',') {
+            continue;
+        }
+
+        *extraArg = endFound + 1;
 
-    *extraArg = endFound + 1;
+        return found;
+    }
 
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 1c61daa4e718a4a7e4ec30b8d8bbb829d516fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 52/55] fix: file provider: the file does not grow while free
 blocks of the same size are aligned

---
 src/provider/provider_file_memory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 004a0a3..ffd6621 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -257,6 +257,10 @@ static umf_result_t file_initialize(void *params, void **provider) {
     coarse_params_t coarse_params = {0};
     coarse_params.provider = file_provider;
     coarse_params.page_size = file_provider->page_size;
+    // A free block that is not tried costs a new part of the file,
+    // which is never given back.
+    coarse_params.allocation_strategy =
+        UMF_COARSE_MEMORY_STRATEGY_CHECK_ALL_SIZE;
     coarse_params.cb.alloc = file_alloc_cb;
     coarse_params.cb.free = NULL; // not available for the file provider
     coarse_params.cb.split = file_allocation_split_cb;
-- 
2.43.0


From 7011739ef46ae04e2ec2a20d2ac7b26aaf99d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 53/55] fix: file provider: an allocation that cannot be
 recorded does not use up the file

---
 src/provider/provider_file_memory.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index ffd6621..ab81b76 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -498,6 +498,24 @@ static umf_result_t file_alloc(void *provider, size_t size, size_t alignment,
     return coarse_alloc(file_provider->coarse, size, alignment, resultPtr);
 }
 
+// Gives back the last allocation of file_alloc_aligned().
+static void file_undo_alloc(file_memory_provider_t *file_provider, void *addr,
+                            size_t size) {
+    if (utils_mutex_lock(&file_provider->lock)) {
+        LOG_ERR("locking file data failed");
+        return;
+    }
+
+    // only the last part taken from the mapping can be given back
+    if ((uintptr_t)file_provider->base_mmap + file_provider->offset_mmap ==
+        (uintptr_t)addr + size) {
+        file_provider->offset_mmap -= size;
+        file_provider->offset_fd -= size;
+    }
+
+    utils_mutex_unlock(&file_provider->lock);
+}
+
 static umf_result_t file_alloc_cb(void *provider, size_t size, size_t alignment,
                                   void **resultPtr) {
     umf_result_t umf_result;
@@ -539,8 +557,7 @@ static umf_result_t file_alloc_cb(void *provider, size_t size, size_t alignment,
         LOG_ERR("inserting a value to the file descriptor offset map failed "
                 "(addr=%p, offset=%zu)",
                 addr, alloc_offset_fd);
-        // We cannot undo the file_alloc_aligned() call here,
-        // because the file memory provider does not support the free operation.
+        file_undo_alloc(file_provider, addr, size);
         return UMF_RESULT_ERROR_UNKNOWN;
     }
 
-- 
2.43.0


From 403dedcd326d26cb62c48e4673f47cebd4a512a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 54/55] fix: ctl: a configuration file that grows while it is
 read does not overflow the buffer

---
 src/ctl/ctl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index df0ac74..e76bbaf 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -550,6 +550,10 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
             } else if (c == '\n') {
                 is_comment_section = 0;
             } else if (!is_comment_section && !isspace(c)) {
+                // the file has grown since its size was read
+                if (bufpos == (size_t)fsize) {
+                    goto error_free_buf;
+                }
                 buf[bufpos++] = (char)c;
             }
         }
@@ -557,6 +561,7 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
 
     ret = ctl_load_config(ctl, ctx, buf);
 
+error_free_buf:
     umf_ba_global_free(buf);
 
 error_file_parse:
-- 
2.43.0


From 2d315c6e7dc654990cd99ce58911380979063f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 55/55] fix: ctl: a part of a configuration file is not applied
 when the rest cannot be read

---
 src/ctl/ctl.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index e76bbaf..9626f14 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -550,8 +550,8 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
             } else if (c == '\n') {
                 is_comment_section = 0;
             } else if (!is_comment_section && !isspace(c)) {
-                // the file has grown since its size was read
-                if (bufpos == (size_t)fsize) {
+                // not a text, or the file has grown since its size was read
+                if (c == '\0' || bufpos == (size_t)fsize) {
                     goto error_free_buf;
                 }
                 buf[bufpos++] = (char)c;
@@ -559,6 +559,11 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
         }
     }
 
+    // do not apply a part of the configuration
+    if (ferror(fp)) {
+        goto error_free_buf;
+    }
+
     ret = ctl_load_config(ctl, ctx, buf);
 
 error_free_buf:
-- 
2.43.0

