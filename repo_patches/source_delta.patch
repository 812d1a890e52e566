From afbd85e27df6e0fe805823ee5979839b6251c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/90] fix: critnib: prune iteration by the highest key of a
 subtree

The upper bound of the keys of a subtree was computed by setting the bits
above the node's nibble instead of the bits below, so that iterating a range
with a non-zero lower bound skipped the whole tree when the root discriminates
on the topmost nibble.
---
 src/critnib/critnib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..a769ba9 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -797,7 +797,7 @@ static int iter(struct critnib_node *__restrict n, word min, word max,
     if (n->path > max) {
         return 1;
     }
-    if ((n->path | path_mask(n->shift)) < min) {
+    if ((n->path | ~path_mask(n->shift)) < min) {
         return 0;
     }
 
-- 
2.43.0


From a90545927274e3a8f721300be181ce09fcee9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 02/90] fix: critnib: do not load a child twice in
 find_predecessor/successor

The child found non-NULL was loaded again, and a concurrent removal of it made
the search report that nothing was found although other keys, present during
the whole search, satisfy the query.
---
 src/critnib/critnib.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index a769ba9..32e4235 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -524,8 +524,8 @@ static struct critnib_leaf *
 find_predecessor(struct critnib_node *__restrict n) {
     while (1) {
         int nib;
+        struct critnib_node *m = NULL;
         for (nib = NIB; nib >= 0; nib--) {
-            struct critnib_node *m;
             utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
             if (m) {
                 break;
@@ -536,11 +536,8 @@ find_predecessor(struct critnib_node *__restrict n) {
             return NULL;
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
+        /* do not load the child again, it could have been removed meanwhile */
+        n = m;
 
         if (is_leaf(n)) {
             return to_leaf(n);
@@ -644,8 +641,8 @@ void *critnib_find_le(struct critnib *c, word key) {
 static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
     while (1) {
         unsigned nib;
+        struct critnib_node *m = NULL;
         for (nib = 0; nib <= NIB; nib++) {
-            struct critnib_node *m;
             utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
             if (m) {
                 break;
@@ -656,11 +653,8 @@ static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
             return NULL;
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
+        /* do not load the child again, it could have been removed meanwhile */
+        n = m;
 
         if (is_leaf(n)) {
             return to_leaf(n);
-- 
2.43.0


From 4d885f29a7c735b5980798fb6198e7afefcdc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 03/90] fix: critnib: break cycles through freed nodes

A freed node kept its other children, so two freed nodes could point at each
other (one through the stale child, the other through the free list). A reader
stalled in one of them went around forever: critnib_get() looped and
critnib_find_le() overflowed the stack before it could notice, by comparing
the remove counters, that it has to restart.
---
 src/critnib/critnib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 32e4235..8a84898 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -246,6 +246,16 @@ static void free_node(struct critnib *__restrict c,
     }
 
     ASSERT(!is_leaf(n));
+
+    /*
+     * The node can still point to a node that is freed later and will be
+     * linked back to this one. Break such cycles, otherwise a stalled reader
+     * could walk around forever and never notice that it has to restart.
+     */
+    for (int i = 1; i < SLNODES; i++) {
+        n->child[i] = NULL;
+    }
+
     n->child[0] = c->deleted_node;
     c->deleted_node = n;
 }
-- 
2.43.0


From ee481791ba0312a896a269b5abc10bf0f8462cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 04/90] fix: base_alloc: return NULL when memory cannot be
 obtained

umf_ba_global_aligned_alloc() wrote the metadata of the allocation through
the NULL pointer returned by the failed allocation.
---
 src/base_alloc/base_alloc_global.c | 6 +++++-
 src/base_alloc/base_alloc_linux.c  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..e2a6233 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -95,9 +95,13 @@ static int size_to_idx(size_t size) {
 // size and 'offset' that specifies how far is the returned ptr from
 // the origin ptr (used for aligned alloc)
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
+    if (!ptr) {
+        // the allocation of memory failed
+        return NULL;
+    }
+
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
diff --git a/src/base_alloc/base_alloc_linux.c b/src/base_alloc/base_alloc_linux.c
index 9b1dc63..b1d7dd3 100644
--- a/src/base_alloc/base_alloc_linux.c
+++ b/src/base_alloc/base_alloc_linux.c
@@ -17,6 +17,10 @@ static size_t Page_size;
 void *ba_os_alloc(size_t size) {
     void *ptr = utils_mmap(NULL, size, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+    if (ptr == NULL) {
+        return NULL;
+    }
+
     // this should be unnecessary but pairs of mmap/munmap do not reset
     // asan's user-poisoning flags, leading to invalid error reports
     // Bug 81619: https://gcc.gnu.org/bugzilla/show_bug.cgi?id=81619
-- 
2.43.0


From e2807dc52da785ea75ce243f70b6e2b825add51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 05/90] fix: coarse: initialize the used flag of an aligned
 block

---
 src/coarse/coarse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..7856234 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -695,6 +695,9 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
+        // it is not used (and not in the list of free blocks) yet
+        aligned_block->used = false;
+
         curr->used = false;
         curr->size = padding;
 
-- 
2.43.0


From abebdf2eb290fa2cf33215f2c2c38b9830ede4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 06/90] fix: coarse: reject allocations of size 0

---
 src/coarse/coarse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 7856234..b7ded6c 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1035,6 +1035,11 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (size == 0) {
+        LOG_ERR("size of the allocation is 0");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     // alignment must be a power of two and a multiple or a divider of the page size
     if (alignment == 0) {
         alignment = coarse->page_size;
-- 
2.43.0


From 9a0246ead6f11b26b0087da98c9efdc607e2acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 07/90] fix: file provider: do not allocate beyond the end of
 the mapping

---
 src/provider/provider_file_memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..b778654 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -454,7 +454,9 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    // aligning can move the offset beyond the end of the current mapping
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From a0193ffe0f1e55cdfc7c3460013220a6b6b45ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 08/90] fix: file provider: keep the file offset in step with
 an aligned mapping

---
 src/provider/provider_file_memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index b778654..73d21db 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -411,6 +411,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->base_mmap = (void *)aligned_ptr;
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
+    // base_mmap maps the file starting from this offset
+    file_provider->offset_fd =
+        aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From d6fd2d5700b8808f0e30dfb784fbd592136bbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 09/90] fix: file provider: do not merge blocks that are not
 adjacent in the file

---
 src/provider/provider_file_memory.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 73d21db..fdb9e1b 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -685,7 +685,6 @@ static umf_result_t file_allocation_merge(void *provider, void *lowPtr,
 
 static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
                                              void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
@@ -693,6 +692,19 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // blocks that are adjacent in memory can belong to different mappings,
+    // they can be merged only if they are adjacent in the file too
+    uintptr_t low_value =
+        (uintptr_t)critnib_get(file_provider->fd_offset_map, (uintptr_t)lowPtr);
+    uintptr_t high_value = (uintptr_t)critnib_get(file_provider->fd_offset_map,
+                                                  (uintptr_t)highPtr);
+    if (high_value - low_value != (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_DEBUG("cannot merge blocks that are not adjacent in the file "
+                  "(lowPtr=%p, highPtr=%p)",
+                  lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 660758cccff728df6496e2fc74c2062eb732fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 10/90] fix: file, devdax: open IPC handles of allocations at
 any offset

---
 src/provider/provider_devdax_memory.c |  5 +++--
 src/provider/provider_file_memory.c   | 22 ++++++++--------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..8226ff4 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -499,7 +499,7 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
               devdax_ipc_data->path, length_aligned,
               devdax_ipc_data->protection, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    *ptr = addr + (devdax_ipc_data->offset - offset_aligned);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -507,7 +507,8 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
 static umf_result_t devdax_close_ipc_handle(void *provider, void *ptr,
                                             size_t size) {
     (void)provider; // unused
-    size = ALIGN_UP(size, DEVDAX_PAGE_SIZE_2MB);
+    // see devdax_open_ipc_handle()
+    utils_align_ptr_down_size_up(&ptr, &size, DEVDAX_PAGE_SIZE_2MB);
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index fdb9e1b..4795fd6 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -797,13 +797,11 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
     size_t offset_aligned = file_ipc_data->offset_fd;
     size_t size_aligned = file_ipc_data->size;
 
-    if (file_provider->is_fsdax) {
-        // It is just a workaround for case when
-        // file_alloc() was called with the size argument
-        // that is not a multiplier of FSDAX_PAGE_SIZE_2MB.
-        utils_align_ptr_down_size_up((void **)&offset_aligned, &size_aligned,
-                                     FSDAX_PAGE_SIZE_2MB);
-    }
+    // The offset and the size do not have to be multiples of the page size
+    // (file_alloc() could be called with such a size or the allocation
+    // could be split), but those of a mapping have to be.
+    utils_align_ptr_down_size_up((void **)&offset_aligned, &size_aligned,
+                                 file_provider->page_size);
 
     fd = utils_file_open(file_ipc_data->path);
     if (fd == -1) {
@@ -830,7 +828,7 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
               file_ipc_data->path, size_aligned, file_ipc_data->protection,
               file_ipc_data->visibility, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    *ptr = addr + (file_ipc_data->offset_fd - offset_aligned);
 
     return ret;
 }
@@ -843,12 +841,8 @@ static umf_result_t file_close_ipc_handle(void *provider, void *ptr,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    if (file_provider->is_fsdax) {
-        // It is just a workaround for case when
-        // file_alloc() was called with the size argument
-        // that is not a multiplier of FSDAX_PAGE_SIZE_2MB.
-        utils_align_ptr_down_size_up(&ptr, &size, FSDAX_PAGE_SIZE_2MB);
-    }
+    // see file_open_ipc_handle()
+    utils_align_ptr_down_size_up(&ptr, &size, file_provider->page_size);
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
-- 
2.43.0


From 3e97b680c64930691468795dfd188f48d9942743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 11/90] fix: file provider: leave the file offset unchanged
 when mapping fails

---
 src/provider/provider_file_memory.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 4795fd6..3ce417f 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -378,10 +378,6 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         file_provider->size_fd = new_size_fd;
     }
 
-    if (aligned_offset_fd > offset_fd) {
-        file_provider->offset_fd = aligned_offset_fd;
-    }
-
     ASSERT_IS_ALIGNED(extended_size, page_size);
     ASSERT_IS_ALIGNED(aligned_offset_fd, page_size);
 
-- 
2.43.0


From a8992e4f2bdbbdeb0fdf3856fb03f88154c986b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 12/90] fix: disjoint pool: use the real end of a slab

slab_get_end() assumed every slab to be slab_min_size bytes long, but a
slab of a bucket larger than slab_min_size is as long as the bucket. A
pointer past slab_min_size in such a slab (aligned_malloc returns them)
was taken for a provider allocation when it was freed.
---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..909a540 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From 626f18439714cac9a7550985c14da6afd5040a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 13/90] fix: disjoint pool: reject sizes that overflow when
 aligned

aligned_malloc added the alignment to the requested size without checking
for overflow, so a huge request could succeed with a small block.
---
 src/pool/pool_disjoint.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 909a540..a124b5f 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -724,6 +724,12 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
         return disjoint_pool_allocate(pool, size);
     }
 
+    if (size > SIZE_MAX - (alignment - 1)) {
+        // the size rounded up to the alignment is not representable
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     size_t aligned_size;
     if (alignment <= disjoint_pool->provider_min_page_size) {
         // This allocation will be served from a Bucket which size is multiple
-- 
2.43.0


From 94ee889c065345b121c29fd3956b471f0a0533ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 14/90] fix: disjoint pool: do not pool sizes larger than the
 largest bucket

A max_poolable_size above CutOff made allocations larger than the largest
bucket look for a bucket that does not exist.
---
 src/pool/pool_disjoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index a124b5f..edc8c6f 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -597,6 +597,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
 
+    // Allocations with size > CutOff have no bucket and bypass the pool.
+    disjoint_pool->params.max_poolable_size =
+        utils_min(disjoint_pool->params.max_poolable_size, CutOff);
+
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
         goto err_free_disjoint_pool;
-- 
2.43.0


From 9e84f5e14443f261dd2188ed58c06420f69245a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 15/90] fix: disjoint pool: give pooled slabs back to the
 shared limits

Slabs kept in a pool that is being destroyed are returned to the provider
but stayed accounted for in the shared limits, so the limits shrank with
every destroyed pool.
---
 src/pool/pool_disjoint.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index edc8c6f..10e5948 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -257,6 +257,14 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
+    // slabs kept in the pool are returned to the provider
+    if (bucket->chunked_slabs_in_pool) {
+        utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                                bucket->chunked_slabs_in_pool *
+                                    bucket_slab_alloc_size(bucket));
+        bucket->chunked_slabs_in_pool = 0;
+    }
+
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
-- 
2.43.0


From ab4233006be48654595f494b1210a7ad5f85823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 16/90] fix: os provider: reject sizes that overflow when
 extended

The length of a mapping is extended by the alignment without checking for
overflow, so a huge aligned request mapped a small region and then unmapped
memory which does not belong to it.
---
 src/provider/provider_os_memory.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..9a7dfbc 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -838,6 +838,11 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (length > SIZE_MAX - alignment) {
+            LOG_ERR("length %zu with alignment %zu is too big", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
@@ -849,7 +854,8 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (extended_length > max_fd_size ||
+            *fd_size > max_fd_size - extended_length) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
-- 
2.43.0


From 73f42830a6c0dcb850d19750a3f9ba4805ec0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 17/90] fix: os provider: keep the file offset in step with the
 mapping

Allocations of the shared visibility mode are mapped from increasing offsets
of a file. The offset was not kept page-aligned, so every allocation after
one of an unaligned size failed, it was not given back when the mapping
failed, and the recorded offset of an aligned allocation did not include the
unmapped head, so its IPC handle showed other bytes.
---
 src/provider/provider_os_memory.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 9a7dfbc..d36a433 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -848,21 +848,32 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
 
     *fd_offset = 0;
 
+    // offsets in the file have to be page-aligned
+    size_t fd_length = extended_length;
+
     if (fd > 0) {
+        if (fd_length & (page_size - 1)) {
+            fd_length = (fd_length | (page_size - 1));
+            if (fd_length == SIZE_MAX) {
+                LOG_ERR("length %zu is too big", length);
+                return -1;
+            }
+            fd_length++;
+        }
+
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
         }
 
-        if (extended_length > max_fd_size ||
-            *fd_size > max_fd_size - extended_length) {
+        if (fd_length > max_fd_size || *fd_size > max_fd_size - fd_length) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += extended_length;
+        *fd_size += fd_length;
         utils_mutex_unlock(lock_fd);
     }
 
@@ -870,6 +881,12 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
+        if (fd > 0 && utils_mutex_lock(lock_fd) == 0) {
+            if (*fd_size == *fd_offset + fd_length) {
+                *fd_size = *fd_offset;
+            }
+            utils_mutex_unlock(lock_fd);
+        }
         return -1;
     }
 
@@ -888,6 +905,9 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
         }
+        if (fd > 0) {
+            *fd_offset += head_len;
+        }
 
         // tail address has to page-aligned
         uintptr_t tail = aligned_addr + length;
-- 
2.43.0


From 57fb72a0681e1cedc1442fc435a672c3c8b0d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 18/90] fix: os provider: close the file descriptor in finalize

The file descriptor of a provider with the shared visibility mode was never
closed, so every such provider leaked a descriptor and its memory.
---
 src/provider/provider_os_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index d36a433..d9be306 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -765,6 +765,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 098ee758b4e82b016d2608c671ee102cefeba6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 19/90] fix: scalable pool: check calloc for overflow

---
 src/pool/pool_scalable.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..17b6d01 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -336,6 +336,11 @@ static void *tbb_malloc(void *pool, size_t size) {
 
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) {
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     size_t csize = num * size;
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From 414a8f43420f941db12013e966836185156af2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 20/90] fix: os provider: reject aligned allocations of size 0

An allocation of size 0 fails, but with an alignment larger than the page
size it succeeded with an address that is not mapped and cannot be freed.
---
 src/provider/provider_os_memory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index d9be306..a786372 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -832,6 +832,11 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
                               size_t *fd_offset) {
     assert(out_addr);
 
+    if (length == 0) {
+        LOG_ERR("length of a mapping cannot be 0");
+        return -1;
+    }
+
     size_t extended_length = length;
 
     if (alignment > page_size) {
-- 
2.43.0


From 16c1d3e2d10c72804513f963536324a4d96b937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 21/90] fix: tracker: do not read records that another thread
 may free

Lookups in the tracker are lock-free and read the record of the closest
lower region, which another thread can remove and reuse at the same time.
A stale size made lookups of live memory and allocations fail or attached
regions to the wrong parent, and the counters of nested regions were
updated without synchronization. Protect the records with a read-write
lock.
---
 src/provider/provider_tracking.c | 127 +++++++++++++++++++++++++++----
 1 file changed, 114 insertions(+), 13 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..5bffd2c 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -41,6 +41,9 @@ struct umf_memory_tracker_t {
     utils_mutex_t splitMergeMutex;
     umf_ba_pool_t *ipc_info_allocator;
     critnib *ipc_segments_map;
+    // Protects the values stored in the maps: they are read under the read
+    // lock and added, modified or removed (freed) under the write lock.
+    utils_rwlock_t valuesLock;
 };
 
 typedef struct tracker_alloc_info_t {
@@ -62,6 +65,7 @@ typedef struct tracker_ipc_info_t {
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
 // The function returns the entry if found, otherwise NULL.
+// NOTE: this function must be called under hTracker->valuesLock
 static tracker_alloc_info_t *get_most_nested_alloc_segment(
     umf_memory_tracker_handle_t hTracker, const void *ptr, int *_level,
     uintptr_t *_parent_key, tracker_alloc_info_t **_parent_value,
@@ -122,6 +126,7 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
     return rvalue;
 }
 
+// NOTE: this function must be called under the write lock of hTracker->valuesLock
 static umf_result_t
 umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
                            umf_memory_pool_handle_t pool, const void *ptr,
@@ -174,9 +179,10 @@ umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
     return umf_result;
 }
 
-static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
-                                        umf_memory_pool_handle_t pool,
-                                        const void *ptr, size_t size) {
+static umf_result_t
+umfMemoryTrackerAddLocked(umf_memory_tracker_handle_t hTracker,
+                          umf_memory_pool_handle_t pool, const void *ptr,
+                          size_t size) {
     assert(ptr);
 
     umf_result_t umf_result = UMF_RESULT_ERROR_UNKNOWN;
@@ -232,8 +238,24 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
     return UMF_RESULT_SUCCESS;
 }
 
-static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
-                                           const void *ptr) {
+static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
+                                        umf_memory_pool_handle_t pool,
+                                        const void *ptr, size_t size) {
+    if (utils_write_lock(&hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
+    umf_result_t ret = umfMemoryTrackerAddLocked(hTracker, pool, ptr, size);
+
+    utils_write_unlock(&hTracker->valuesLock);
+
+    return ret;
+}
+
+static umf_result_t
+umfMemoryTrackerRemoveLocked(umf_memory_tracker_handle_t hTracker,
+                             const void *ptr) {
     assert(ptr);
 
     // TODO: there is no support for removing partial ranges (or multiple entries
@@ -276,6 +298,20 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     return UMF_RESULT_SUCCESS;
 }
 
+static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
+                                           const void *ptr) {
+    if (utils_write_lock(&hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
+    umf_result_t ret = umfMemoryTrackerRemoveLocked(hTracker, ptr);
+
+    utils_write_unlock(&hTracker->valuesLock);
+
+    return ret;
+}
+
 static umf_result_t
 umfMemoryTrackerAddIpcSegment(umf_memory_tracker_handle_t hTracker,
                               const void *ptr, size_t size,
@@ -325,8 +361,17 @@ umfMemoryTrackerRemoveIpcSegment(umf_memory_tracker_handle_t hTracker,
                                  const void *ptr) {
     assert(ptr);
 
+    // no thread can be reading the value once it has been removed
+    // under the write lock
+    if (utils_write_lock(&hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
     void *value = critnib_remove(hTracker->ipc_segments_map, (uintptr_t)ptr);
 
+    utils_write_unlock(&hTracker->valuesLock);
+
     if (!value) {
         LOG_ERR("pointer %p not found in the ipc_segments_map", ptr);
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -379,6 +424,11 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     int level = 0;
     int found = 0;
 
+    if (utils_read_lock(&TRACKER->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
     do {
         assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
         found = critnib_find(TRACKER->alloc_segments_map[level], (uintptr_t)ptr,
@@ -396,6 +446,7 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
              rvalue->n_children);
 
     if (!top_most_value) {
+        utils_read_unlock(&TRACKER->valuesLock);
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -405,6 +456,8 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     pAllocInfo->baseSize = top_most_value->size;
     pAllocInfo->pool = top_most_value->pool;
 
+    utils_read_unlock(&TRACKER->valuesLock);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -428,9 +481,16 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
 
     uintptr_t rkey;
     tracker_ipc_info_t *rvalue = NULL;
+
+    if (utils_read_lock(&TRACKER->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
     int found = critnib_find(TRACKER->ipc_segments_map, (uintptr_t)ptr, FIND_LE,
                              (void *)&rkey, (void **)&rvalue);
     if (!found || (uintptr_t)ptr >= rkey + rvalue->size) {
+        utils_read_unlock(&TRACKER->valuesLock);
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -440,6 +500,8 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
     pIpcInfo->baseSize = rvalue->size;
     pIpcInfo->provider = rvalue->provider;
 
+    utils_read_unlock(&TRACKER->valuesLock);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -525,9 +587,18 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
+    if (utils_read_lock(&provider->hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        goto err;
+    }
+
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         provider->hTracker, ptr, &level, &parent_key, &parent_value,
         1 /* no_children */);
+
+    // the caller owns the region, so no other thread removes its value
+    utils_read_unlock(&provider->hTracker->valuesLock);
+
     if (!value) {
         LOG_ERR("region for split is not found in the tracker");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -547,6 +618,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    (void)utils_write_lock(&provider->hTracker->valuesLock);
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     int cret =
         critnib_insert(provider->hTracker->alloc_segments_map[level],
@@ -577,9 +650,12 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
         // so it's unlikely but probably the best solution would be to try to preallocate everything
         // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
+        utils_write_unlock(&provider->hTracker->valuesLock);
         goto err;
     }
 
+    utils_write_unlock(&provider->hTracker->valuesLock);
+
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -628,17 +704,26 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_lock;
     }
 
+    if (utils_read_lock(&provider->hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        goto not_merged;
+    }
+
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
         provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
         0 /* no_children */); // can have children
+    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
+        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        0 /* no_children */); // can have children
+
+    // the caller owns both regions, so no other thread removes their values
+    utils_read_unlock(&provider->hTracker->valuesLock);
+
     if (!lowValue) {
         LOG_FATAL("no left value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
-        0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -660,8 +745,6 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
-    mergedValue->n_children = lowValue->n_children + highValue->n_children;
-
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -669,8 +752,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto not_merged;
     }
 
+    (void)utils_write_lock(&provider->hTracker->valuesLock);
+
     size_t lno = lowValue->n_children;
     size_t hno = highValue->n_children;
+    mergedValue->n_children = lno + hno;
 
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
@@ -681,13 +767,14 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     assert(cret == 0);
     (void)cret;
 
-    // free old value that we just replaced with mergedValue
-    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
-
     void *erasedhighValue = critnib_remove(
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    utils_write_unlock(&provider->hTracker->valuesLock);
+
+    // free old values that we just replaced with mergedValue
+    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -794,6 +881,11 @@ static void check_if_tracker_is_empty(umf_memory_tracker_handle_t hTracker,
                                       umf_memory_pool_handle_t pool) {
     size_t n_items = 0;
 
+    if (utils_read_lock(&hTracker->valuesLock)) {
+        LOG_ERR("locking the tracker failed");
+        return;
+    }
+
     for (int i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         uintptr_t last_key = 0;
         uintptr_t rkey;
@@ -809,6 +901,8 @@ static void check_if_tracker_is_empty(umf_memory_tracker_handle_t hTracker,
         }
     }
 
+    utils_read_unlock(&hTracker->valuesLock);
+
     if (n_items) {
         // Do not log the error if we are running in the proxy library,
         // because it may need those resources till
@@ -1211,6 +1305,10 @@ umf_memory_tracker_handle_t umfMemoryTrackerCreate(void) {
         goto err_destroy_alloc_info_allocator;
     }
 
+    if (!utils_rwlock_init(&handle->valuesLock)) {
+        goto err_destroy_mutex;
+    }
+
     int i;
     for (i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         handle->alloc_segments_map[i] = critnib_new();
@@ -1243,6 +1341,8 @@ err_destroy_alloc_segments_map:
             critnib_delete(handle->alloc_segments_map[i]);
         }
     }
+    utils_rwlock_destroy_not_free(&handle->valuesLock);
+err_destroy_mutex:
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
 err_destroy_alloc_info_allocator:
     umf_ba_destroy(alloc_info_allocator);
@@ -1276,6 +1376,7 @@ void umfMemoryTrackerDestroy(umf_memory_tracker_handle_t handle) {
             handle->alloc_segments_map[i] = NULL;
         }
     }
+    utils_rwlock_destroy_not_free(&handle->valuesLock);
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
     umf_ba_destroy(handle->alloc_info_allocator);
     handle->alloc_info_allocator = NULL;
-- 
2.43.0


From e1a8d3c8dcadd1f17d8c6a19e8cc63c5c128f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 22/90] fix: disjoint pool: do not read a slab that another
 thread may free

free() and malloc_usable_size() look up the closest lower slab and check
whether it contains the pointer. When the pointer comes directly from the
provider, that slab can be removed and freed by another thread at the same
time. Keep slabs registered while they are being examined.
---
 src/pool/pool_disjoint.c          | 37 ++++++++++++++++++++++++++-----
 src/pool/pool_disjoint_internal.h |  5 +++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 10e5948..d36e0e0 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -232,11 +232,30 @@ static umf_result_t pool_unregister_slab(disjoint_pool_t *pool, slab_t *slab) {
     // TODO ASSERT_IS_ALIGNED((uintptr_t)slab_addr, bucket->size);
     LOG_DEBUG("slab: %p, start: %p", (void *)slab, slab_addr);
 
+    // no thread can be examining the slab once it has been removed
+    utils_write_lock(&pool->known_slabs_lock);
     critnib_remove(slabs, (uintptr_t)slab_addr);
+    utils_write_unlock(&pool->known_slabs_lock);
 
     return UMF_RESULT_SUCCESS;
 }
 
+// Returns the slab containing the live allocation ptr,
+// or NULL if it comes directly from the provider.
+static slab_t *pool_find_slab(disjoint_pool_t *pool, const void *ptr) {
+    utils_read_lock(&pool->known_slabs_lock);
+
+    slab_t *slab =
+        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
+    if (slab && ptr >= slab_get_end(slab)) {
+        slab = NULL;
+    }
+
+    utils_read_unlock(&pool->known_slabs_lock);
+
+    return slab;
+}
+
 static bucket_t *
 create_bucket(size_t sz, disjoint_pool_t *pool,
               umf_disjoint_pool_shared_limits_handle_t shared_limits) {
@@ -614,6 +633,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
         goto err_free_disjoint_pool;
     }
 
+    if (utils_rwlock_init(&disjoint_pool->known_slabs_lock) == NULL) {
+        goto err_delete_known_slabs;
+    }
+
     // Generate buckets sized such as: 64, 96, 128, 192, ..., CutOff.
     // Powers of 2 and the value halfway between the powers of 2.
     size_t Size1 = disjoint_pool->params.min_bucket_size;
@@ -688,6 +711,9 @@ err_free_shared_limits:
     umfDisjointPoolSharedLimitsDestroy(disjoint_pool->default_shared_limits);
 
 err_free_known_slabs:
+    utils_rwlock_destroy_not_free(&disjoint_pool->known_slabs_lock);
+
+err_delete_known_slabs:
     critnib_delete(disjoint_pool->known_slabs);
 
 err_free_disjoint_pool:
@@ -825,9 +851,8 @@ size_t disjoint_pool_malloc_usable_size(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
+    if (slab == NULL) {
         // memory comes directly from the provider
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
         umf_result_t ret = umfMemoryTrackerGetAllocInfo(ptr, &allocInfo);
@@ -854,10 +879,9 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
 
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    if (slab == NULL) {
 
         // regular free
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
@@ -942,6 +966,7 @@ void disjoint_pool_finalize(void *pool) {
 
     umfDisjointPoolSharedLimitsDestroy(hPool->default_shared_limits);
     critnib_delete(hPool->known_slabs);
+    utils_rwlock_destroy_not_free(&hPool->known_slabs_lock);
 
     umf_ba_global_free(hPool);
 }
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index 7a63dd7..ce2ecfb 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -142,6 +142,11 @@ typedef struct disjoint_pool_t {
     // free()
     critnib *known_slabs; // (void *, slab_t *)
 
+    // A slab found in known_slabs can be examined under the read lock only,
+    // unless it is known to contain a live allocation. Slabs are removed from
+    // known_slabs under the write lock.
+    utils_rwlock_t known_slabs_lock;
+
     // Handle to the memory provider
     umf_memory_provider_handle_t provider;
 
-- 
2.43.0


From 3d8601f9aaba13d69bd1e670914081e4869fc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 23/90] fix: tracker: split and merge nested regions correctly

Merging regions of a nested pool did not decrease the number of children of
the parent region, so the parent could never be removed from the tracker
after that. Merging regions that have children of their own took a child at
the same address for the region itself, or used the wrong level when no
child starts at that address.
---
 src/provider/provider_tracking.c | 86 +++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 5bffd2c..cb7b550 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -61,28 +61,32 @@ typedef struct tracker_ipc_info_t {
     ipc_opened_cache_value_t *ipc_cache_value;
 } tracker_ipc_info_t;
 
-// Get the most nested (on the highest level) allocation segment in the map with the `ptr` key.
+// Get the most nested (on the highest level) allocation segment in the map
+// with the `ptr` key that belongs to the `pool` (or to any pool if it is NULL).
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
 // The function returns the entry if found, otherwise NULL.
 // NOTE: this function must be called under hTracker->valuesLock
 static tracker_alloc_info_t *get_most_nested_alloc_segment(
-    umf_memory_tracker_handle_t hTracker, const void *ptr, int *_level,
-    uintptr_t *_parent_key, tracker_alloc_info_t **_parent_value,
-    int no_children) {
+    umf_memory_tracker_handle_t hTracker, umf_memory_pool_handle_t pool,
+    const void *ptr, int *_level, uintptr_t *_parent_key,
+    tracker_alloc_info_t **_parent_value, int no_children) {
     assert(ptr);
 
+    tracker_alloc_info_t *found_value = NULL;
+    tracker_alloc_info_t *found_parent_value = NULL;
+    uintptr_t found_parent_key = 0;
+    int found_level = 0;
+
     tracker_alloc_info_t *parent_value = NULL;
-    tracker_alloc_info_t *rvalue = NULL;
     uintptr_t parent_key = 0;
-    uintptr_t rkey = 0;
-    uint64_t rsize = 0;
-    int level = 0;
-    int found = 0;
 
-    do {
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        found =
+    for (int level = 0; level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; level++) {
+        tracker_alloc_info_t *rvalue = NULL;
+        uintptr_t rkey = 0;
+        uint64_t rsize = 0;
+
+        int found =
             critnib_find(hTracker->alloc_segments_map[level], (uintptr_t)ptr,
                          FIND_LE, (void *)&rkey, (void **)&rvalue);
         if (!found || !rvalue) {
@@ -91,39 +95,44 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
 
         utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
 
-        if (found && (uintptr_t)ptr < rkey + rsize) {
-            if (rvalue->n_children) {
-                if (level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
-                    break;
-                }
-                level++;
-                parent_key = rkey;
-                parent_value = rvalue;
-            }
+        if ((uintptr_t)ptr >= rkey + rsize) {
+            break;
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
 
-    if (!rvalue || rkey != (uintptr_t)ptr) {
+        if (rkey == (uintptr_t)ptr && (pool == NULL || rvalue->pool == pool)) {
+            found_value = rvalue;
+            found_level = level;
+            found_parent_key = parent_key;
+            found_parent_value = parent_value;
+        }
+
+        if (rvalue->n_children == 0) {
+            break;
+        }
+
+        parent_key = rkey;
+        parent_value = rvalue;
+    }
+
+    if (!found_value) {
         return NULL;
     }
 
-    if (no_children && (rvalue->n_children > 0)) {
+    if (no_children && (found_value->n_children > 0)) {
         return NULL;
     }
 
     if (_level) {
-        *_level = level;
+        *_level = found_level;
     }
     if (_parent_key) {
-        *_parent_key = parent_key;
+        *_parent_key = found_parent_key;
     }
     if (_parent_value) {
-        *_parent_value = parent_value;
+        *_parent_value = found_parent_value;
     }
 
-    assert(!no_children || rvalue->n_children == 0);
-
-    return rvalue;
+    return found_value;
 }
 
 // NOTE: this function must be called under the write lock of hTracker->valuesLock
@@ -270,7 +279,8 @@ umfMemoryTrackerRemoveLocked(umf_memory_tracker_handle_t hTracker,
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        hTracker, ptr, &level, &parent_key, &parent_value, 1 /* no_children */);
+        hTracker, NULL, ptr, &level, &parent_key, &parent_value,
+        1 /* no_children */);
     if (!value) {
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -593,7 +603,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     }
 
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        provider->hTracker, ptr, &level, &parent_key, &parent_value,
+        provider->hTracker, provider->pool, ptr, &level, &parent_key,
+        &parent_value,
         1 /* no_children */);
 
     // the caller owns the region, so no other thread removes its value
@@ -695,6 +706,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     mergedValue->size = totalSize;
     mergedValue->n_children = 0;
 
+    tracker_alloc_info_t *parent_value = NULL;
+
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
@@ -710,10 +723,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     }
 
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
+        provider->hTracker, provider->pool, lowPtr, &lowLevel, NULL,
+        &parent_value,
         0 /* no_children */); // can have children
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        provider->hTracker, provider->pool, highPtr, &highLevel, NULL, NULL,
         0 /* no_children */); // can have children
 
     // the caller owns both regions, so no other thread removes their values
@@ -771,6 +785,10 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    if (parent_value) {
+        parent_value->n_children--;
+    }
+
     utils_write_unlock(&provider->hTracker->valuesLock);
 
     // free old values that we just replaced with mergedValue
-- 
2.43.0


From c1082f60c0913344407b6091b48aaacb3c30d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 24/90] fix: tracker: undo the upstream split when it cannot be
 recorded

---
 src/provider/provider_tracking.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index cb7b550..82e58b6 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -658,10 +658,14 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // this cannot fail since we know the element exists (nothing to allocate)
         assert(cret == 0);
         (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
-        // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
         utils_write_unlock(&provider->hTracker->valuesLock);
+        // rollback the split of the upstream provider
+        umf_result_t ret_merge = umfMemoryProviderAllocationMerge(
+            provider->hUpstream, ptr, highPtr, totalSize);
+        if (ret_merge != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to rollback the split, ret=%d",
+                    ret_merge);
+        }
         goto err;
     }
 
-- 
2.43.0


From 6bc7571f222a54ddafd0ad8e727b683a7e30533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 25/90] fix: tracker: put cached IPC handles of split and
 merged regions

---
 src/provider/provider_tracking.c | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 82e58b6..786d41b 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -569,6 +569,24 @@ static umf_result_t trackingAlloc(void *hProvider, size_t size,
     return UMF_RESULT_SUCCESS;
 }
 
+// Put back the IPC handle of the region that starts at `ptr` (if there is any).
+static void putCachedIpcHandle(umf_tracking_memory_provider_t *p,
+                               const void *ptr) {
+    ipc_cache_value_t *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
+    if (!value) {
+        return;
+    }
+
+    umf_result_t ret =
+        umfMemoryProviderPutIPCHandle(p->hUpstream, value->providerIpcData);
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, ret = %d",
+                ptr, ret);
+    }
+
+    umf_ba_global_free(value);
+}
+
 static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
                                             size_t totalSize,
                                             size_t firstSize) {
@@ -622,6 +640,9 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    // the cached IPC handle describes the whole region
+    putCachedIpcHandle(provider, ptr);
+
     ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                            firstSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -763,6 +784,10 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
+    // the cached IPC handles describe the regions before the merge
+    putCachedIpcHandle(provider, lowPtr);
+    putCachedIpcHandle(provider, highPtr);
+
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -847,18 +872,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
         }
     }
 
-    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
-    if (value) {
-        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
-        ret = umfMemoryProviderPutIPCHandle(p->hUpstream,
-                                            cache_value->providerIpcData);
-        if (ret != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    ptr, size, ret);
-        }
-        umf_ba_global_free(value);
-    }
+    putCachedIpcHandle(p, ptr);
 
     ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
     if (ret != UMF_RESULT_SUCCESS) {
-- 
2.43.0


From 3c489c6d623b602bd1f650dc9d4eb5aa480bb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 26/90] fix: ipc cache: close an evicted mapping through its
 own provider

---
 src/ipc_cache.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..cbc4516 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -7,8 +7,6 @@
  *
  */
 
-#include <stdbool.h>
-
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
 #include "uthash.h"
@@ -35,6 +33,7 @@ typedef struct ipc_opened_cache_entry_t {
     uint64_t handle_id;
     hash_map_t
         *hash_table; // pointer to the hash table to which the entry belongs
+    struct ipc_opened_cache_t *cache; // the cache to which the entry belongs
     ipc_opened_cache_value_t value;
 } ipc_opened_cache_entry_t;
 
@@ -181,8 +180,6 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
                                   ipc_opened_cache_value_t **retEntry) {
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
-    bool evicted = false;
-    ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
         LOG_ERR("Some arguments are NULL, cache=%p, key=%p, retEntry=%p",
@@ -227,9 +224,10 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
-            evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
-            evicted_value.mapped_size = entry->value.mapped_size;
-            evicted = true;
+            // The entry can belong to another cache, so use its own key and
+            // callback. It is done under the lock, because that cache must not
+            // be destroyed in the meantime.
+            entry->cache->eviction_cb(&entry->key, &entry->value);
         } else { // allocate the new entry
             entry = umf_ba_alloc(cache->global->cache_allocator);
             if (!entry) {
@@ -239,7 +237,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
@@ -249,6 +247,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         entry->ref_count = 0;
         entry->handle_id = handle_id;
         entry->hash_table = &cache->hash_table;
+        entry->cache = cache;
         entry->value.mapped_size = 0;
         entry->value.mapped_base_ptr = NULL;
 
@@ -265,10 +264,6 @@ exit:
 
     utils_mutex_unlock(&(cache->global->cache_lock));
 
-    if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
-    }
-
     return ret;
 }
 
-- 
2.43.0


From 8f75712aa4225e6492ce1733e85387da0d8b4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 27/90] fix: ipc cache: do not unmap a stale mapping that is
 still open

---
 src/ipc_cache.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index cbc4516..f57bd48 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -156,6 +156,17 @@ umfIpcOpenedCacheCreate(ipc_opened_cache_eviction_cb_t eviction_cb) {
     return cache;
 }
 
+// NOTE: this function must be called under cache_lock
+static void closeDetachedEntry(ipc_opened_cache_entry_t *entry) {
+    ipc_opened_cache_global_t *global = entry->cache->global;
+
+    DL_DELETE(global->lru_list, entry);
+    global->cur_size -= 1;
+    entry->cache->eviction_cb(&entry->key, &entry->value);
+    utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
+    umf_ba_free(global->cache_allocator, entry);
+}
+
 void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t cache) {
     ipc_opened_cache_entry_t *entry, *tmp;
 
@@ -169,6 +180,12 @@ void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t cache) {
         umf_ba_free(cache->global->cache_allocator, entry);
     }
     HASH_CLEAR(hh, cache->hash_table);
+    // stale entries that have not been released
+    DL_FOREACH_SAFE(cache->global->lru_list, entry, tmp) {
+        if (entry->cache == cache) {
+            closeDetachedEntry(entry);
+        }
+    }
     utils_mutex_unlock(&(cache->global->cache_lock));
 
     umf_ba_global_free(cache);
@@ -199,6 +216,18 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         // add the entry to the head of the list
         DL_PREPEND(cache->global->lru_list, entry);
     } else { //cache miss
+        if (entry) {
+            uint64_t ref_count = 0;
+            utils_atomic_load_acquire_u64(&entry->ref_count, &ref_count);
+            if (ref_count > 0) {
+                // The entry is stale, but it is still in use so it cannot be
+                // evicted now. It will be closed when it is released.
+                HASH_DEL(cache->hash_table, entry);
+                entry->hash_table = NULL;
+                entry = NULL;
+            }
+        }
+
         // Look for eviction candidate
         if (entry == NULL && cache->global->max_size != 0 &&
             cache->global->cur_size >= cache->global->max_size) {
@@ -278,8 +307,16 @@ umfIpcHandleMappedCacheRelease(ipc_opened_cache_value_t *cacheValue) {
     ipc_opened_cache_entry_t *entry =
         (ipc_opened_cache_entry_t *)((char *)cacheValue -
                                      offsetof(ipc_opened_cache_entry_t, value));
+    ipc_opened_cache_global_t *global = entry->cache->global;
+
+    utils_mutex_lock(&(global->cache_lock));
     // decrement the ref count
-    utils_atomic_decrement_u64(&entry->ref_count);
+    uint64_t ref_count = utils_atomic_decrement_u64(&entry->ref_count);
+    if (ref_count == 0 && entry->hash_table == NULL) {
+        // a stale entry is not in use any more
+        closeDetachedEntry(entry);
+    }
+    utils_mutex_unlock(&(global->cache_lock));
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From ea599794e79444a68e73b19afcbf98f43b995eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 28/90] fix: tracker: leave nothing behind when an IPC handle
 cannot be opened

---
 src/provider/provider_tracking.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 786d41b..f9c6134 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1114,22 +1114,23 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
                                const ipc_opened_cache_value_t *value) {
     umf_tracking_memory_provider_t *p =
         (umf_tracking_memory_provider_t *)key->local_provider;
+    if (value->mapped_base_ptr == NULL) {
+        return; // the handle has never been opened
+    }
     // umfMemoryTrackerRemoveIpcSegment should be called before umfMemoryProviderCloseIPCHandle
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
+    umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(p->hTracker,
+                                                        value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
     }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
+    ret = umfMemoryProviderCloseIPCHandle(
         p->hUpstream, value->mapped_base_ptr, value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
@@ -1232,6 +1233,8 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From 62f90dc60110461ec37f7c1201db7788264f13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 29/90] fix: tracker: release the caches when the provider
 cannot be created

---
 src/provider/provider_tracking.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index f9c6134..ce42a3c 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1302,6 +1302,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create IPC mapped cache");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1309,8 +1314,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From 5b40e932898800d4f9fed55ae562b659816899cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 30/90] fix: providers: report a valid native error before any
 error happened

---
 src/provider/provider_devdax_memory.c | 3 ++-
 src/provider/provider_file_memory.c   | 3 ++-
 src/provider/provider_fixed_memory.c  | 3 ++-
 src/provider/provider_os_memory.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8226ff4..d2ca740 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 3ce417f..7f32ee3 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index a786372..af8d8cb 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
-- 
2.43.0


From d9b6600031b3ffbdfcc47ee255ee304393ba3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 31/90] fix: os provider: release the node sets when they
 cannot be created

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index af8d8cb..34baecf 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -326,7 +326,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(os_provider->nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
-- 
2.43.0


From bb08938d857c8d778a0f649b8218c40edf1918e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 32/90] fix: os provider: check that the partitions could be
 created

---
 src/provider/provider_os_memory.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 34baecf..2d28d73 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -661,7 +661,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -752,6 +757,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
     return UMF_RESULT_SUCCESS;
 
 err_destroy_bitmaps:
+    umf_ba_global_free(os_provider->partitions);
     free_bitmaps(os_provider);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 5ec0c8cc73fe69f669841f290d1988a9534d1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 33/90] fix: os provider: return documented error codes when
 the shared file cannot be created

---
 src/provider/provider_os_memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 2d28d73..f63651a 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -457,7 +457,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -468,7 +468,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
-- 
2.43.0


From ad8ee1347e090b8d322fd204bd9ac0a8759a17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 34/90] fix: os provider: close the shared file when
 initialization fails

---
 src/provider/provider_os_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index f63651a..a901e94 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -734,6 +734,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
+            (void)utils_close_fd(os_provider->fd);
             goto err_destroy_bitmaps;
         }
     }
-- 
2.43.0


From 1c257e4e8cbadbb1c2903bd679540848a6a4fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 35/90] fix: os provider: undo an allocation that cannot be
 bound or recorded completely

---
 src/provider/provider_os_memory.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index a901e94..1748d2b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1176,7 +1176,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
-            goto err_unmap;
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
         do {
@@ -1187,15 +1188,20 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                                          os_provider->numa_flags);
 
             if (ret) {
+                int bind_errno = errno; // logging can change errno
                 os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED,
-                                           errno);
+                                           bind_errno);
                 LOG_PERR("binding memory to NUMA node failed");
                 // TODO: (errno == 0) when hwloc_set_area_membind() fails on Windows,
                 // ignore this temporarily
-                if (errno != ENOSYS &&
-                    errno != 0) { // ENOSYS - Function not implemented
+                if (bind_errno != ENOSYS &&
+                    bind_errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
+                        os_provider->nodeset_len != 1) {
+                        hwloc_bitmap_free(membind.bitmap);
+                    }
                     goto err_unmap;
                 }
             }
@@ -1212,6 +1218,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
             LOG_ERR("os_alloc(): inserting a value to the file descriptor "
                     "offset map failed (addr=%p, offset=%zu)",
                     addr, fd_offset);
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
     }
 
-- 
2.43.0


From 4a39952982e50989f1a015910c2eeef1e5895a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 36/90] fix: os provider: keep the file offset of memory that
 could not be unmapped

---
 src/provider/provider_os_memory.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1748d2b..df6478a 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1262,8 +1262,11 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
 
+    // The offset has to be removed before the memory is unmapped, because
+    // another thread can map the same address right after that.
+    void *fd_offset = NULL;
     if (os_provider->fd > 0) {
-        critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
+        fd_offset = critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
 
     errno = 0;
@@ -1272,6 +1275,15 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
         os_store_last_native_error(UMF_OS_RESULT_ERROR_FREE_FAILED, errno);
         LOG_PERR("memory deallocation failed");
 
+        // the memory is still allocated
+        if (fd_offset &&
+            critnib_insert(os_provider->fd_offset_map, (uintptr_t)ptr,
+                           fd_offset, 0 /* update */)) {
+            LOG_ERR("os_free(): restoring the file descriptor offset failed "
+                    "(addr=%p)",
+                    ptr);
+        }
+
         return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
     }
 
-- 
2.43.0


From 0dda163636ecd5c59048b906e1a6546a2efe5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 37/90] fix: ipc cache: fail instead of exiting when out of
 memory

---
 src/ipc_cache.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index f57bd48..ef7fc4f 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -9,6 +9,10 @@
 
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
+
+// running out of memory must not terminate the process
+#define HASH_NONFATAL_OOM 1
+#define uthash_nonfatal_oom(entry) (entry)->hash_table = NULL
 #include "uthash.h"
 #include "utils_common.h"
 #include "utils_concurrency.h"
@@ -281,6 +285,13 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         entry->value.mapped_base_ptr = NULL;
 
         HASH_ADD(hh, cache->hash_table, key, sizeof(entry->key), entry);
+        if (entry->hash_table == NULL) {
+            LOG_ERR("Failed to add a new entry to the IPC cache");
+            utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
+            umf_ba_free(cache->global->cache_allocator, entry);
+            ret = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+            goto exit;
+        }
         DL_PREPEND(cache->global->lru_list, entry);
         cache->global->cur_size += 1;
     }
-- 
2.43.0


From 9800dbe065170706980b1c791c1e689b3c86c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 38/90] fix: ctl: hand indexes over to the handlers and free
 them

---
 src/ctl/ctl.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..44829e4 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -121,7 +121,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -161,7 +161,8 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            index_entry->name = NULL;
+            LL_PREPEND(*indexes, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -392,21 +393,16 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
      * query has been handled.
      */
     umf_ctl_index_utlist_t *indexes = NULL;
-    indexes = Zalloc(sizeof(*indexes));
-    if (!indexes) {
-        return -1;
-    }
-
     int ret = -1;
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From da8ef292c8786639adc2763fe88ea1b32759b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 39/90] fix: ctl: reject names that go on beyond a leaf

---
 src/ctl/ctl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 44829e4..b680690 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -145,6 +145,9 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) { // the name goes on beyond a leaf
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
-- 
2.43.0


From 96f7d207eccc85f12328b5d397e8df9c95205244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 40/90] fix: ctl: report failures of queries by handle

---
 src/memory_pool.c     | 5 +++--
 src/memory_provider.c | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..654b379 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    umf_result_t ret =
+        hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..b838be4 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,10 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    umf_result_t ret =
+        hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name,
+                           arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 35b1ca041eadddfbe55956b7e82888b41fb244fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 41/90] fix: ctl: do not use trees of the os provider and the
 scalable pool after they were freed

---
 src/ctl/ctl.c                     | 17 -----------------
 src/ctl/ctl.h                     | 17 +++++++++++++++++
 src/pool/pool_scalable.c          |  7 +++----
 src/provider/provider_os_memory.c |  9 ++++-----
 4 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index b680690..e972737 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -36,8 +36,6 @@
 #include <stdio.h>
 #endif
 
-#define CTL_MAX_ENTRIES 100
-
 #define MAX_CONFIG_FILE_LEN (1 << 20) /* 1 megabyte */
 
 #define CTL_STRING_QUERY_SEPARATOR ";"
@@ -49,21 +47,6 @@
 static int ctl_global_first_free = 0;
 static umf_ctl_node_t CTL_NODE(global)[CTL_MAX_ENTRIES];
 
-/*
- * This is the top level node of the ctl tree structure. Each node can contain
- * children and leaf nodes.
- *
- * Internal nodes simply create a new path in the tree whereas child nodes are
- * the ones providing the read/write functionality by the means of callbacks.
- *
- * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
- * convenience.
- */
-struct ctl {
-    umf_ctl_node_t root[CTL_MAX_ENTRIES];
-    int first_free;
-};
-
 void *Zalloc(size_t sz) {
     void *ptr = umf_ba_global_alloc(sz);
     if (ptr) {
diff --git a/src/ctl/ctl.h b/src/ctl/ctl.h
index 968998f..2b9f3c8 100644
--- a/src/ctl/ctl.h
+++ b/src/ctl/ctl.h
@@ -23,6 +23,8 @@
 
 #include <umf/memory_pool.h>
 
+#define CTL_MAX_ENTRIES 100
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -98,6 +100,21 @@ typedef struct ctl_node {
     const struct ctl_node *children;
 } umf_ctl_node_t;
 
+/*
+ * This is the top level node of the ctl tree structure. Each node can contain
+ * children and leaf nodes.
+ *
+ * Internal nodes simply create a new path in the tree whereas child nodes are
+ * the ones providing the read/write functionality by the means of callbacks.
+ *
+ * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
+ * convenience.
+ */
+struct ctl {
+    umf_ctl_node_t root[CTL_MAX_ENTRIES];
+    int first_free;
+};
+
 struct ctl *ctl_new(void);
 void ctl_delete(struct ctl *stats);
 
diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 17b6d01..1f0fe8a 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -116,7 +116,7 @@ static const char *tbb_symbol[TBB_POOL_SYMBOLS_MAX] = {
 #endif
 };
 
-struct ctl *pool_scallable_ctl_root;
+static struct ctl pool_scallable_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -435,8 +435,7 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_pool_ctl(void) {
-    pool_scallable_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
+    CTL_REGISTER_MODULE(&pool_scallable_ctl_root, params);
 }
 
 static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
@@ -444,7 +443,7 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
-    return ctl_query(pool_scallable_ctl_root, pool_provider,
+    return ctl_query(&pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
 }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index df6478a..2b3b6dd 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -171,7 +171,7 @@ static const char *Native_error_str[] = {
         "HWLOC topology discovery failed",
 };
 
-struct ctl *os_memory_ctl_root;
+static struct ctl os_memory_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -258,9 +258,8 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_os_ctl(void) {
-    os_memory_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(os_memory_ctl_root, params);
-    CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, params);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, stats);
 }
 
 static void os_store_last_native_error(int32_t native_error, int errno_value) {
@@ -1594,7 +1593,7 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
-    return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
+    return ctl_query(&os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg);
 }
 
-- 
2.43.0


From 37c6ef5fd1cf169df57f7d627cddc05d8faf40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 42/90] fix: libumf: register the global ctl nodes only once

---
 src/libumf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..72853f3 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -30,7 +30,13 @@ static uint64_t umfRefCount = 0;
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
-void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
+void initialize_global_ctl(void) {
+    static int initialized = 0;
+    if (!initialized) { // the library can be initialized many times
+        initialized = 1;
+        CTL_REGISTER_MODULE(NULL, umf);
+    }
+}
 
 int umfInit(void) {
     if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
-- 
2.43.0


From 6b3387b1780c95532f9eff0fcfedd23db8234071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 43/90] fix: libumf: serialize initialization and undo it when
 it fails

---
 src/libumf.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index 72853f3..fa08419 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -18,6 +18,7 @@
 #include "provider_level_zero_internal.h"
 #include "provider_tracking.h"
 #include "utils_common.h"
+#include "utils_concurrency.h"
 #include "utils_log.h"
 #if !defined(UMF_NO_HWLOC)
 #include "topology.h"
@@ -27,6 +28,11 @@ umf_memory_tracker_handle_t TRACKER = NULL;
 
 static uint64_t umfRefCount = 0;
 
+static utils_mutex_t initMutex;
+static UTIL_ONCE_FLAG initMutexOnce = UTIL_ONCE_FLAG_INIT;
+
+static void initialize_init_mutex(void) { utils_mutex_init(&initMutex); }
+
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
@@ -39,12 +45,18 @@ void initialize_global_ctl(void) {
 }
 
 int umfInit(void) {
-    if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
+    int ret = 0;
+
+    utils_init_once(&initMutexOnce, initialize_init_mutex);
+    utils_mutex_lock(&initMutex);
+
+    if (umfRefCount == 0) {
         utils_log_init();
         TRACKER = umfMemoryTrackerCreate();
         if (!TRACKER) {
             LOG_ERR("Failed to create memory tracker");
-            return -1;
+            ret = -1;
+            goto out;
         }
 
         LOG_DEBUG("UMF tracker created");
@@ -52,22 +64,32 @@ int umfInit(void) {
         umf_result_t umf_result = umfIpcCacheGlobalInit();
         if (umf_result != UMF_RESULT_SUCCESS) {
             LOG_ERR("Failed to initialize IPC cache");
-            return -1;
+            umfMemoryTrackerDestroy(TRACKER);
+            TRACKER = NULL;
+            ret = -1;
+            goto out;
         }
 
         LOG_DEBUG("UMF IPC cache initialized");
         initialize_global_ctl();
     }
 
+    umfRefCount++;
+
     if (TRACKER) {
         LOG_DEBUG("UMF library initialized");
     }
 
-    return 0;
+out:
+    utils_mutex_unlock(&initMutex);
+    return ret;
 }
 
 void umfTearDown(void) {
-    if (utils_fetch_and_sub_u64(&umfRefCount, 1) == 1) {
+    utils_init_once(&initMutexOnce, initialize_init_mutex);
+    utils_mutex_lock(&initMutex);
+
+    if (umfRefCount-- == 1) {
 #if !defined(_WIN32) && !defined(UMF_NO_HWLOC)
         umfMemspaceHostAllDestroy();
         umfMemspaceHighestCapacityDestroy();
@@ -100,6 +122,8 @@ void umfTearDown(void) {
         fini_tbb_global_state();
         LOG_DEBUG("UMF library finalized");
     }
+
+    utils_mutex_unlock(&initMutex);
 }
 
 int umfGetCurrentVersion(void) { return UMF_VERSION_CURRENT; }
-- 
2.43.0


From 80b8f2ca939aca962ca1bdd482f0599ef4eabab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 44/90] fix: scalable pool: load TBB again after it was closed

---
 src/pool/pool_scalable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 1f0fe8a..372e860 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -169,6 +169,9 @@ void fini_tbb_global_state(void) {
     if (tbb_callbacks.lib_handle) {
         if (!utils_close_library(tbb_callbacks.lib_handle)) {
             tbb_callbacks.lib_handle = NULL;
+            // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+            static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+            memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
             LOG_DEBUG("TBB library closed");
         } else {
             LOG_ERR("TBB library cannot be unloaded");
-- 
2.43.0


From 04ddbe97c1874d6319c363b8b4999facf5214e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 45/90] fix: topology: do not destroy the topology twice

---
 src/topology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology.c b/src/topology.c
index eab7992..4930b11 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,6 +18,7 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
+        topology = NULL;
 
         // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
         static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-- 
2.43.0


From 0efb29e0ab1e09ed1ec148452fec0911ed056998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 46/90] fix: memspace: create the lowest latency memspace again
 after it was destroyed

---
 src/memspaces/memspace_lowest_latency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..4d34eac 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -91,6 +91,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
     if (UMF_MEMSPACE_LOWEST_LATENCY) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
+
+        // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+        memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+               sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
     }
 }
 
-- 
2.43.0


From af233f16fb053dbfd154368e0a2e10efe13b2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 47/90] fix: base_alloc: the global allocator is not destroyed
 after it was created again

---
 src/base_alloc/base_alloc_global.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index e2a6233..4346738 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -58,6 +58,8 @@ void umf_ba_destroy_global(void) {
 bool umf_ba_global_is_destroyed(void) { return ba_is_destroyed; }
 
 static void umf_ba_create_global(void) {
+    ba_is_destroyed = false;
+
     for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) {
         // allocation classes need to be powers of 2
         assert(0 == (BASE_ALLOC.ac_sizes[i] & (BASE_ALLOC.ac_sizes[i] - 1)));
-- 
2.43.0


From 8673cb56aff2951131fd9d343585916801eab7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 48/90] fix: disjoint pool: free the bucket table with the pool

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index d36e0e0..aeb7ce1 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -961,6 +961,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From 94447e53ea523f2117d3e73d709da2967052a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 49/90] fix: memory provider: remember the provider of a failed
 IPC operation

---
 src/memory_provider.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index b838be4..39ed978 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -359,8 +359,10 @@ umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t hProvider,
                                   size_t *size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((size != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv,
-                                                  size);
+    umf_result_t res =
+        hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -370,8 +372,10 @@ umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle(hProvider->provider_priv, ptr,
-                                             size, providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle(
+        hProvider->provider_priv, ptr, size, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -379,8 +383,10 @@ umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t hProvider,
                               void *providerIpcData) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.put_ipc_handle(hProvider->provider_priv,
-                                             providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.put_ipc_handle(
+        hProvider->provider_priv, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -389,8 +395,10 @@ umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.open_ipc_handle(hProvider->provider_priv,
-                                              providerIpcData, ptr);
+    umf_result_t res = hProvider->ops.ipc.open_ipc_handle(
+        hProvider->provider_priv, providerIpcData, ptr);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -398,6 +406,8 @@ umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t hProvider,
                                 void *ptr, size_t size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.close_ipc_handle(hProvider->provider_priv, ptr,
-                                               size);
+    umf_result_t res = hProvider->ops.ipc.close_ipc_handle(
+        hProvider->provider_priv, ptr, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
-- 
2.43.0


From cf5f46cada4a9796a9af1f4f04c4dfb3151b9b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 50/90] fix: coarse: do not lose free blocks when out of memory

A free block that could not be added to the list of free blocks was never
found again and an empty list was left in the tree. Such a block is put on
the list later now.
---
 src/coarse/coarse.c | 80 ++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index b7ded6c..b7931f2 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -52,6 +52,10 @@ typedef struct coarse_t {
 
     struct utils_mutex_t lock;
 
+    // true if there may be free blocks that could not be added
+    // to the free_blocks tree, because there was no memory
+    bool unlisted_blocks;
+
     // statistics
     size_t used_size;
     size_t alloc_size;
@@ -346,6 +350,13 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
+        if (head_node->head == NULL) {
+            // do not leave an empty list
+            node = ravl_find(free_blocks, &head_node_data, RAVL_PREDICATE_EQUAL);
+            assert(node);
+            ravl_remove(free_blocks, node);
+            umf_ba_global_free(head_node);
+        }
         return -1; // out of memory
     }
 
@@ -354,6 +365,33 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
     return 0;
 }
 
+// free_blocks_add_or_defer - add a free block to the list of free blocks
+// of the same size or, if there is no memory for it, leave that
+// to free_blocks_add_unlisted().
+static void free_blocks_add_or_defer(coarse_t *coarse, block_t *block) {
+    if (free_blocks_add(coarse->free_blocks, block)) {
+        LOG_ERR("out of the host memory, free block will be listed later");
+        coarse->unlisted_blocks = true;
+    }
+}
+
+static void free_blocks_add_unlisted_cb(void *data, void *arg) {
+    ravl_data_t *node_data = data;
+    block_t *block = node_data->value;
+    coarse_t *coarse = arg;
+    if (!block->used && !block->free_list_ptr) {
+        free_blocks_add_or_defer(coarse, block);
+    }
+}
+
+// free_blocks_add_unlisted - add the free blocks that could not be added before
+static void free_blocks_add_unlisted(coarse_t *coarse) {
+    if (coarse->unlisted_blocks) {
+        coarse->unlisted_blocks = false;
+        ravl_foreach(coarse->all_blocks, free_blocks_add_unlisted_cb, coarse);
+    }
+}
+
 // free_blocks_rm_ge - remove the first free block of a size greater or equal to the given size only if it can be properly aligned
 // If it was the last block, the head node is freed and removed from the tree.
 // It is used during memory allocation (looking for a free block).
@@ -672,7 +710,6 @@ static umf_result_t can_provider_split(coarse_t *coarse, void *ptr,
 static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
                                          size_t alignment, block_t **current) {
     (void)orig_size; // unused in the Release version
-    int rv;
 
     block_t *curr = *current;
 
@@ -701,10 +738,7 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
         curr->used = false;
         curr->size = padding;
 
-        rv = free_blocks_add(coarse->free_blocks, curr);
-        if (rv) {
-            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-        }
+        free_blocks_add_or_defer(coarse, curr);
 
         // use aligned block
         *current = aligned_block;
@@ -735,10 +769,7 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
 
     new_block->used = false;
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
-    if (rv) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_blocks_add_or_defer(coarse, get_node_block(new_node));
 
     return UMF_RESULT_SUCCESS;
 }
@@ -801,7 +832,7 @@ static block_t *find_free_block(struct ravl *free_blocks, size_t size,
     return NULL;
 }
 
-static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
+static void free_blocks_re_add(coarse_t *coarse, block_t *block) {
     assert(coarse);
 
     ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
@@ -811,7 +842,7 @@ static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    return free_blocks_add(coarse->free_blocks, get_node_block(node));
+    free_blocks_add_or_defer(coarse, get_node_block(node));
 }
 
 static void ravl_cb_count(void *data, void *arg) {
@@ -828,15 +859,12 @@ static void ravl_cb_count_free(void *data, void *arg) {
 
     ravl_data_t *node_data = data;
     assert(node_data);
-    ravl_free_blocks_head_t *head_node = node_data->value;
-    assert(head_node);
-    struct ravl_free_blocks_elem_t *free_block = head_node->head;
-    assert(free_block);
+    block_t *block = node_data->value;
+    assert(block);
 
-    size_t *num_all_blocks = arg;
-    while (free_block) {
-        (*num_all_blocks)++;
-        free_block = free_block->next;
+    size_t *num_free_blocks = arg;
+    if (!block->used) {
+        (*num_free_blocks)++;
     }
 }
 
@@ -848,7 +876,7 @@ static umf_result_t coarse_get_stats_no_lock(coarse_t *coarse,
     ravl_foreach(coarse->all_blocks, ravl_cb_count, &num_all_blocks);
 
     size_t num_free_blocks = 0;
-    ravl_foreach(coarse->free_blocks, ravl_cb_count_free, &num_free_blocks);
+    ravl_foreach(coarse->all_blocks, ravl_cb_count_free, &num_free_blocks);
 
     stats->alloc_size = coarse->alloc_size;
     stats->used_size = coarse->used_size;
@@ -1061,6 +1089,8 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
 
     assert(debug_check(coarse));
 
+    free_blocks_add_unlisted(coarse);
+
     // Find a block with greater or equal size using the given memory allocation strategy
     block_t *curr = find_free_block(coarse->free_blocks, size, alignment,
                                     coarse->allocation_strategy);
@@ -1082,7 +1112,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         if (alignment > 0) {
             umf_result = create_aligned_block(coarse, size, alignment, &curr);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
         }
@@ -1091,7 +1121,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
             // Split the current block and put the new block after the one that we use.
             umf_result = split_current_block(coarse, curr, size);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
 
@@ -1202,11 +1232,7 @@ umf_result_t coarse_free(coarse_t *coarse, void *ptr, size_t bytes) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(node));
-    if (rv) {
-        utils_mutex_unlock(&coarse->lock);
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_blocks_add_or_defer(coarse, get_node_block(node));
 
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
-- 
2.43.0


From 4039f8f9af0aea251517e457524abc951ec19300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 51/90] fix: coarse: split upstream only when the split can be
 recorded

The split of the upstream provider was not undone when there was no memory
for the new block.
---
 src/coarse/coarse.c | 50 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index b7931f2..691df5b 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -718,13 +718,6 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
     uintptr_t aligned_data = ALIGN_UP(orig_data, alignment);
     size_t padding = aligned_data - orig_data;
     if (alignment > 0 && padding > 0) {
-        // check if block can be split by the upstream provider
-        umf_result_t umf_result =
-            can_provider_split(coarse, curr->data, curr->size, padding);
-        if (umf_result != UMF_RESULT_SUCCESS) {
-            return umf_result;
-        }
-
         block_t *aligned_block =
             coarse_ravl_add_new(coarse->all_blocks, curr->data + padding,
                                 curr->size - padding, NULL);
@@ -732,6 +725,15 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
+        // check if block can be split by the upstream provider
+        umf_result_t umf_result =
+            can_provider_split(coarse, curr->data, curr->size, padding);
+        if (umf_result != UMF_RESULT_SUCCESS) {
+            coarse_ravl_rm(coarse->all_blocks, aligned_block->data);
+            umf_ba_global_free(aligned_block);
+            return umf_result;
+        }
+
         // it is not used (and not in the list of free blocks) yet
         aligned_block->used = false;
 
@@ -752,24 +754,24 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
 static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
                                         size_t size) {
 
+    block_t *new_block = coarse_ravl_add_new(
+        coarse->all_blocks, curr->data + size, curr->size - size, NULL);
+    if (new_block == NULL) {
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
+
     // check if block can be split by the upstream provider
     umf_result_t umf_result =
         can_provider_split(coarse, curr->data, curr->size, size);
     if (umf_result != UMF_RESULT_SUCCESS) {
+        coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
         return umf_result;
     }
 
-    ravl_node_t *new_node = NULL;
-
-    block_t *new_block = coarse_ravl_add_new(
-        coarse->all_blocks, curr->data + size, curr->size - size, &new_node);
-    if (new_block == NULL) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
-
     new_block->used = false;
 
-    free_blocks_add_or_defer(coarse, get_node_block(new_node));
+    free_blocks_add_or_defer(coarse, new_block);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -1354,13 +1356,6 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         goto err_mutex_unlock;
     }
 
-    // check if block can be split by the memory provider
-    umf_result = can_provider_split(coarse, ptr, totalSize, firstSize);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        LOG_ERR("memory provider cannot split a memory block");
-        goto err_mutex_unlock;
-    }
-
     umf_result = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 
     block_t *new_block =
@@ -1370,6 +1365,15 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         goto err_mutex_unlock;
     }
 
+    // check if block can be split by the memory provider
+    umf_result = can_provider_split(coarse, ptr, totalSize, firstSize);
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("memory provider cannot split a memory block");
+        coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
+        goto err_mutex_unlock;
+    }
+
     block->size = firstSize;
     new_block->used = true;
 
-- 
2.43.0


From 33528664a6b236de40683debdd2a1c0ada0e05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 52/90] fix: critnib: updating an existing key needs no memory

The tracker relies on it, but critnib_insert() allocated a leaf before it
looked for the key.
---
 src/critnib/critnib.c | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 8a84898..f4d6f70 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -320,6 +320,26 @@ static struct critnib_leaf *alloc_leaf(struct critnib *__restrict c) {
 int critnib_insert(struct critnib *c, word key, void *value, int update) {
     utils_mutex_lock(&c->mutex);
 
+    struct critnib_node **parent = &c->root;
+    struct critnib_node *prev = c->root;
+    struct critnib_node *n = c->root;
+
+    while (n && !is_leaf(n) && (key & path_mask(n->shift)) == n->path) {
+        prev = n;
+        parent = &n->child[slice_index(key, n->shift)];
+        n = *parent;
+    }
+
+    /* an existing key needs no new leaf */
+    if (n && is_leaf(n) && to_leaf(n)->key == key) {
+        if (update) {
+            to_leaf(n)->value = value;
+        }
+        utils_mutex_unlock(&c->mutex);
+
+        return update ? 0 : EEXIST;
+    }
+
     struct critnib_leaf *k = alloc_leaf(c);
     if (!k) {
         utils_mutex_unlock(&c->mutex);
@@ -334,22 +354,12 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
 
     struct critnib_node *kn = (void *)((word)k | 1);
 
-    struct critnib_node *n = c->root;
-    if (!n) {
+    if (!prev) {
         utils_atomic_store_release_ptr((void **)&c->root, kn);
         utils_mutex_unlock(&c->mutex);
         return 0;
     }
 
-    struct critnib_node **parent = &c->root;
-    struct critnib_node *prev = c->root;
-
-    while (n && !is_leaf(n) && (key & path_mask(n->shift)) == n->path) {
-        prev = n;
-        parent = &n->child[slice_index(key, n->shift)];
-        n = *parent;
-    }
-
     if (!n) {
         n = prev;
         utils_atomic_store_release_ptr(
@@ -363,19 +373,7 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
     word path = is_leaf(n) ? to_leaf(n)->key : n->path;
     /* Find where the path differs from our key. */
     word at = path ^ key;
-    if (!at) {
-        ASSERT(is_leaf(n));
-        free_leaf(c, to_leaf(kn));
-
-        if (update) {
-            to_leaf(n)->value = value;
-            utils_mutex_unlock(&c->mutex);
-            return 0;
-        } else {
-            utils_mutex_unlock(&c->mutex);
-            return EEXIST;
-        }
-    }
+    ASSERT(at);
 
     /* and convert that to an index. */
     sh_t sh = utils_msb64(at) & (sh_t) ~(SLICE - 1);
-- 
2.43.0


From 2570dad8c4287a5c12367854fa7d0cd53782fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 53/90] fix: memspace: do not use the array of targets after it
 was freed

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From 18c349b7ded75249da7b11ebe6f47d197df45575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 54/90] fix: memspace: release the memspace that cannot be
 sorted

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..c6cf1c1 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From cbe20032e4ed56d75e20e76a563110c2432b4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 55/90] fix: memspace: try again after teardown when the
 creation failed

The flags of the predefined memspaces and of the topology were reset only if
they had been created, so a failure lasted beyond umfTearDown().
---
 src/memspaces/memspace_highest_bandwidth.c | 10 +++++-----
 src/memspaces/memspace_highest_capacity.c  | 10 +++++-----
 src/memspaces/memspace_host_all.c          | 10 +++++-----
 src/memspaces/memspace_lowest_latency.c    | 10 +++++-----
 src/topology.c                             | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 93fede2..162109e 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -90,12 +90,12 @@ void umfMemspaceHighestBandwidthDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_BANDWIDTH) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_BANDWIDTH);
         UMF_MEMSPACE_HIGHEST_BANDWIDTH = NULL;
-
-        // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
 }
 
 static void umfMemspaceHighestBandwidthInit(void) {
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c6cf1c1..c981f3a 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -67,12 +67,12 @@ void umfMemspaceHighestCapacityDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_CAPACITY) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_CAPACITY);
         UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
-
-        // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
 }
 
 static void umfMemspaceHighestCapacityInit(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index 4b7db69..e22105d 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -85,12 +85,12 @@ void umfMemspaceHostAllDestroy(void) {
     if (UMF_MEMSPACE_HOST_ALL) {
         umfMemspaceDestroy(UMF_MEMSPACE_HOST_ALL);
         UMF_MEMSPACE_HOST_ALL = NULL;
-
-        // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
 }
 
 static void umfMemspaceHostAllInit(void) {
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 4d34eac..7ba127e 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -91,12 +91,12 @@ void umfMemspaceLowestLatencyDestroy(void) {
     if (UMF_MEMSPACE_LOWEST_LATENCY) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
-
-        // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
 }
 
 static void umfMemspaceLowestLatencyInit(void) {
diff --git a/src/topology.c b/src/topology.c
index 4930b11..eb32c26 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -19,12 +19,12 @@ void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
         topology = NULL;
-
-        // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&topology_initialized, &is_initialized,
-               sizeof(topology_initialized));
     }
+
+    // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&topology_initialized, &is_initialized,
+           sizeof(topology_initialized));
 }
 
 static void umfCreateTopology(void) {
-- 
2.43.0


From 1e254e61c66e6fc484b9100dbd21fb0f8afdb3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 56/90] fix: memspace: do not abort when a predefined memspace
 cannot be created

---
 src/memspaces/memspace_highest_bandwidth.c | 1 -
 src/memspaces/memspace_highest_capacity.c  | 8 ++++++--
 src/memspaces/memspace_host_all.c          | 7 +++++--
 src/memspaces/memspace_lowest_latency.c    | 1 -
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 162109e..b3f2b02 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -105,7 +105,6 @@ static void umfMemspaceHighestBandwidthInit(void) {
         LOG_ERR(
             "Creating the highest bandwidth memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 }
 
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c981f3a..178faae 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t
 umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
@@ -78,8 +79,11 @@ void umfMemspaceHighestCapacityDestroy(void) {
 static void umfMemspaceHighestCapacityInit(void) {
     umf_result_t ret =
         umfMemspaceHighestCapacityCreate(&UMF_MEMSPACE_HIGHEST_CAPACITY);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR(
+            "Creating the highest capacity memspace failed with the error: %u",
+            ret);
+    }
 }
 
 umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index e22105d..c219d07 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHostAllGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t umfMemspaceHostAllCreate(umf_memspace_handle_t *hMemspace) {
     if (!hMemspace) {
@@ -95,8 +96,10 @@ void umfMemspaceHostAllDestroy(void) {
 
 static void umfMemspaceHostAllInit(void) {
     umf_result_t ret = umfMemspaceHostAllCreate(&UMF_MEMSPACE_HOST_ALL);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Creating the host all memspace failed with the error: %u",
+                ret);
+    }
 
     // TODO: Setup appropriate cleanup when 'HOST ALL' memspace becomes available
     // on Windows. 'HOST ALL' memspace depends on OS provider, which currently
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 7ba127e..78d87b3 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -106,7 +106,6 @@ static void umfMemspaceLowestLatencyInit(void) {
         LOG_ERR(
             "Creating the lowest latency memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 
 #if defined(_WIN32) && !defined(UMF_SHARED_LIBRARY)
-- 
2.43.0


From b235539a17141b2299eb94ad22fcc411c6a80685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 57/90] fix: memtarget: leave no handle of a clone that failed

---
 src/memtarget.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memtarget.c b/src/memtarget.c
index 8eb6e4e..a5150fd 100644
--- a/src/memtarget.c
+++ b/src/memtarget.c
@@ -72,6 +72,7 @@ umf_result_t umfMemtargetClone(umf_const_memtarget_handle_t memoryTarget,
     umf_result_t ret = memoryTarget->ops->clone(memoryTarget->priv, &outPriv);
     if (ret != UMF_RESULT_SUCCESS) {
         umf_ba_global_free(*outHandle);
+        *outHandle = NULL;
         return ret;
     }
 
-- 
2.43.0


From dd5f5dac8e7a657d8252f20fcf9c9841ce2b4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 58/90] fix: memspace: remove targets without allocating memory

Removing the last target of a memspace always failed, and a filter that
removed all targets used targets that had been destroyed already and left
the memspace changed.
---
 src/memspace.c | 38 +++++++++-----------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..900eff4 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -408,22 +408,13 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    umfMemtargetDestroy(hMemspace->nodes[i]);
 
-    for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
-        if (j != i) {
-            newNodes[z++] = hMemspace->nodes[j];
-        }
+    hMemspace->size--;
+    for (size_t j = i; j < hMemspace->size; j++) {
+        hMemspace->nodes[j] = hMemspace->nodes[j + 1];
     }
 
-    umfMemtargetDestroy(hMemspace->nodes[i]);
-    umf_ba_global_free(hMemspace->nodes);
-    hMemspace->nodes = newNodes;
-    hMemspace->size--;
     return UMF_RESULT_SUCCESS;
 }
 
@@ -455,27 +446,16 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
-        ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
-        if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
-        }
-    }
-
-    umf_ba_global_free(nodesToRemove);
-    return UMF_RESULT_SUCCESS;
-
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
+    ret = UMF_RESULT_SUCCESS;
+    for (size_t i = 0; i < idx; i++) {
+        if (umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]) !=
+            UMF_RESULT_SUCCESS) {
             ret =
                 UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
             break;
         }
     }
+
 free_mem:
     umf_ba_global_free(nodesToRemove);
     return ret;
-- 
2.43.0


From 00090c006858fd2a709de5efa54ebf5cfe5a709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 59/90] fix: memspace: clone and filter empty memspaces

---
 src/memspace.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memspace.c b/src/memspace.c
index 900eff4..7d99a88 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -155,7 +155,7 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     clone->size = hMemspace->size;
     clone->nodes =
         umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
-    if (!clone->nodes) {
+    if (!clone->nodes && clone->size) {
         umf_ba_global_free(clone);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
@@ -428,6 +428,10 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS;
+    }
+
     size_t idx = 0;
     int ret;
     umf_memtarget_handle_t *nodesToRemove =
-- 
2.43.0


From 58d8b2f9d8e3addcb7f9a43ef80459e598b5f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 60/90] fix: file provider: unmap the file when the mapping
 cannot be recorded

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 7f32ee3..9143da8 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -395,6 +395,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        (void)utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From 7525dd559910a63aa8b279fa445ce0d1150e0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 61/90] fix: scalable pool: look for TBB again after teardown
 when it was not found

---
 src/pool/pool_scalable.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 372e860..f116c16 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -156,6 +156,7 @@ static void init_tbb_callbacks_once(void) {
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
         }
+        tbb_callbacks.lib_handle = NULL;
         tbb_init_result = -1;
     }
 }
@@ -167,16 +168,18 @@ static int init_tbb_callbacks(void) {
 
 void fini_tbb_global_state(void) {
     if (tbb_callbacks.lib_handle) {
-        if (!utils_close_library(tbb_callbacks.lib_handle)) {
-            tbb_callbacks.lib_handle = NULL;
-            // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
-            static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-            memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
-            LOG_DEBUG("TBB library closed");
-        } else {
+        if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("TBB library cannot be unloaded");
+            return;
         }
+        tbb_callbacks.lib_handle = NULL;
+        LOG_DEBUG("TBB library closed");
     }
+
+    // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
+    tbb_init_result = 0;
 }
 
 static void *tbb_raw_alloc_wrapper(intptr_t pool_id, size_t *raw_bytes) {
-- 
2.43.0


From 2fff766fe68d3b7125826cdade49c2b7df9db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 62/90] fix: tracker: record the upper part of a split before
 the upstream splits

---
 src/provider/provider_tracking.c | 61 ++++++++++++++++----------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index ce42a3c..4a87195 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -643,53 +643,54 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     // the cached IPC handle describes the whole region
     putCachedIpcHandle(provider, ptr);
 
-    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
-                                           firstSize);
-    if (ret != UMF_RESULT_SUCCESS) {
-        LOG_ERR("upstream provider failed to split the region");
-        goto err;
-    }
-
-    (void)utils_write_lock(&provider->hTracker->valuesLock);
-
-    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-    int cret =
-        critnib_insert(provider->hTracker->alloc_segments_map[level],
-                       (uintptr_t)ptr, (void *)splitValue, 1 /* update */);
-    // this cannot fail since we know the element exists (nothing to allocate)
-    assert(cret == 0);
-    (void)cret;
-
     void *highPtr = (void *)(((uintptr_t)ptr) + firstSize);
     size_t secondSize = totalSize - firstSize;
 
+    (void)utils_write_lock(&provider->hTracker->valuesLock);
+
+    // Add the upper part first, because nothing has to be allocated afterwards.
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
+    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
                                      highPtr, secondSize, parent_key,
                                      parent_value);
+
+    utils_write_unlock(&provider->hTracker->valuesLock);
+
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("failed to add the split region to the tracker, ptr=%p, "
                 "size=%zu, ret=%d",
                 highPtr, secondSize, ret);
+        goto err;
+    }
+
+    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
+                                           firstSize);
+
+    (void)utils_write_lock(&provider->hTracker->valuesLock);
+
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("upstream provider failed to split the region");
         // revert the split
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        cret = critnib_insert(provider->hTracker->alloc_segments_map[level],
-                              (uintptr_t)ptr, (void *)value, 1 /* update */);
-        // this cannot fail since we know the element exists (nothing to allocate)
-        assert(cret == 0);
-        (void)cret;
-        utils_write_unlock(&provider->hTracker->valuesLock);
-        // rollback the split of the upstream provider
-        umf_result_t ret_merge = umfMemoryProviderAllocationMerge(
-            provider->hUpstream, ptr, highPtr, totalSize);
-        if (ret_merge != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to rollback the split, ret=%d",
-                    ret_merge);
+        void *highValue =
+            critnib_remove(provider->hTracker->alloc_segments_map[level],
+                           (uintptr_t)highPtr);
+        if (parent_value) {
+            parent_value->n_children--;
         }
+        utils_write_unlock(&provider->hTracker->valuesLock);
+        umf_ba_free(provider->hTracker->alloc_info_allocator, highValue);
         goto err;
     }
 
+    int cret =
+        critnib_insert(provider->hTracker->alloc_segments_map[level],
+                       (uintptr_t)ptr, (void *)splitValue, 1 /* update */);
+    // this cannot fail since we know the element exists (nothing to allocate)
+    assert(cret == 0);
+    (void)cret;
+
     utils_write_unlock(&provider->hTracker->valuesLock);
 
     // free the original value
-- 
2.43.0


From 44f3b4f2187f0cc5b7a02789a926266087955a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:42 +0000
Subject: [PATCH 63/90] fix: ctl: reject configuration files that cannot be
 read or are longer than they claim

---
 src/ctl/ctl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index e972737..ab7e0f4 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -548,16 +548,22 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
             } else if (c == '\n') {
                 is_comment_section = 0;
             } else if (!is_comment_section && !isspace(c)) {
+                if (bufpos == (size_t)fsize) { // more than its size
+                    goto error_file_parse;
+                }
                 buf[bufpos++] = (char)c;
             }
         }
+
+        if (ferror(fp)) {
+            goto error_file_parse;
+        }
     }
 
     ret = ctl_load_config(ctl, ctx, buf);
 
-    umf_ba_global_free(buf);
-
 error_file_parse:
+    umf_ba_global_free(buf);
     (void)fclose(fp);
     return ret;
 }
-- 
2.43.0


From a369de6e72dd133d933b904e3d0ec830f3314ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 64/90] fix: ctl: do not look up the names of a given tree in
 the global one

---
 src/ctl/ctl.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index ab7e0f4..3354d75 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -382,14 +382,10 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
     int ret = -1;
     size_t name_offset = 0;
 
-    const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
-
-    if (n == NULL && ctl) {
-        ctl_delete_indexes(indexes);
-        indexes = NULL;
-        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
-    }
+    // The context belongs to the nodes of the given tree only, so the global
+    // tree is not searched for what the given tree does not have.
+    const umf_ctl_node_t *n = ctl_find_node(ctl ? ctl->root : CTL_NODE(global),
+                                            name, &indexes, &name_offset);
 
     // if the appropriate node (leaf or subtree) is not found, then return error
     if (n == NULL ||
-- 
2.43.0


From 011f0f8c454f3aba14afab13f7a5625d17b41679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 65/90] fix: memtarget: look NUMA nodes up by their physical
 index when comparing bandwidth and latency

hwloc_get_obj_by_type() takes a logical index, but memory targets hold
the OS index. On machines where these differ, the bandwidth and latency
of the wrong nodes were compared, or the lookup failed.
---
 src/memtargets/memtarget_numa.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..3dcf815 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,19 +263,17 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC NUMA node by its OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC NUMA node by its OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From f0fa5322fc27ca0f84793d874cc683b4352b95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 66/90] fix: logger: do not abort on an empty message

vsnprintf() returns 0 for an empty message, which is not an error.
---
 src/utils/utils_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 2fd28fc..31a46af 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -120,7 +120,7 @@ static void utils_log_internal(utils_log_level_t level, int perror,
     b_size -= (int)tmp;
 
     tmp = vsnprintf(b_pos, b_size, format, args);
-    ASSERT(tmp > 0);
+    ASSERT(tmp >= 0);
 
     b_pos += (int)tmp;
     b_size -= (int)tmp;
-- 
2.43.0


From 4766a10c9134d46c349d52a1182296fa5fb8c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 67/90] fix: logger: preserve errno

Writing a message can fail and set errno. Callers inspect errno after
logging.
---
 src/utils/utils_log.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 31a46af..ce91622 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -106,6 +106,9 @@ static void utils_log_internal(utils_log_level_t level, int perror,
         return;
     }
 
+    // the caller's errno has to survive logging
+    const int caller_errno = errno;
+
     int pid = utils_getpid();
     int tid = utils_gettid();
 
@@ -134,13 +137,13 @@ static void utils_log_internal(utils_log_level_t level, int perror,
             b_size -= 2;
 #if defined(_WIN32)
             char err[80]; // max size according to msdn
-            if (strerror_s(err, sizeof(err), errno)) {
+            if (strerror_s(err, sizeof(err), caller_errno)) {
                 *err = '\0';
                 postfix = "[strerror_s failed]";
             }
 #elif defined(__APPLE__)
             char err[1024]; // max size according to manpage.
-            int saveno = errno;
+            int saveno = caller_errno;
             errno = 0;
             if (strerror_r(saveno, err, sizeof(err))) {
                 /* should never happen */
@@ -154,7 +157,7 @@ static void utils_log_internal(utils_log_level_t level, int perror,
             errno = saveno;
 #else
             char err_buff[1024]; // max size according to manpage.
-            int saveno = errno;
+            int saveno = caller_errno;
             errno = 0;
             const char *err = strerror_r(saveno, err_buff, sizeof(err_buff));
             if (errno == ERANGE) {
@@ -220,6 +223,8 @@ static void utils_log_internal(utils_log_level_t level, int perror,
     if (level >= loggerConfig.flushLevel) {
         fflush(out);
     }
+
+    errno = caller_errno;
 }
 
 #if defined(_MSC_VER)
-- 
2.43.0


From 916676bb23ee6186a3dbff3325ad7f9a35302636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 68/90] fix: utils: find an option that follows a similar text
 in the variable

Only the first occurrence of the text of an option was considered, so
that e.g. "output:file,/tmp/level:debug;level:debug" ignored the level.
---
 src/utils/utils_common.c | 42 ++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..195cae7 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -59,33 +59,29 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
-    const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
-
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+    const char *found = var;
+    while ((found = strstr(found, option)) != NULL) {
+        const char *endFound = found + strlen(option);
+
+        // if found string is not at the beginning of var ensure it's preceded by ';'
+        if (found == var || *(found - 1) == ';') {
+            if (!extraArg) {
+                // if there is no argument, matched string should end with ';' or '\0'
+                if (*endFound == '\0' || *endFound == ';') {
+                    return found;
+                }
+            } else if (*endFound == ',') {
+                // matched string ends with ','
+                *extraArg = endFound + 1;
+                return found;
+            }
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
+        // this is a part of something else, look for the next one
+        found++;
     }
 
-    *extraArg = endFound + 1;
-
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 1284bdd1089f8acaeda7ac4195515041513d4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 69/90] fix: logger: do not open the log file again when it is
 already open

The logger is initialized each time the library is, and every
umfInit() after umfTearDown() left the previous file open.
---
 src/utils/utils_log.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index ce91622..be46229 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -256,6 +256,11 @@ void utils_log_init(void) {
         return;
     }
 
+    // the file that was opened by a previous initialization, if it is in use
+    static FILE *logFile = NULL;
+    static char logFilePath[MAX_FILE_PATH + 1];
+    FILE *openFile = (logFile && loggerConfig.output == logFile) ? logFile : NULL;
+
     const char *arg;
     if (utils_parse_var(envVar, "output:stdout", NULL)) {
         loggerConfig.output = stdout;
@@ -282,7 +287,16 @@ void utils_log_init(void) {
 
         memcpy(file, arg, len);
         file[len] = '\0';
-        loggerConfig.output = fopen(file, "a");
+
+        if (openFile && strcmp(file, logFilePath) == 0) {
+            loggerConfig.output = openFile;
+        } else {
+            if (openFile) {
+                fclose(openFile);
+            }
+            logFile = loggerConfig.output = fopen(file, "a");
+            memcpy(logFilePath, file, len + 1);
+        }
         if (!loggerConfig.output) {
             loggerConfig.output = stderr;
             LOG_PERR("Cannot open output file %s - logging disabled", file);
-- 
2.43.0


From b49f4f9aec9da1b3bd9e7fa8585977faf08289c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 70/90] fix: level_zero: finalize the provider when its page
 size cannot be queried

ze_memory_provider_initialize() passed the address of the caller's
variable instead of the provider to ze_memory_provider_finalize(), which
released arbitrary memory and leaked the provider.
---
 src/provider/provider_level_zero.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..af81e84 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -629,7 +629,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
-- 
2.43.0


From b69b1dff0d9b0920545d5a6f908959d350ff0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 71/90] fix: level_zero: release memory which cannot be made
 resident

When zeContextMakeMemoryResident() failed, the allocation was reported
as failed but its memory was never given back to the driver.
---
 src/provider/provider_level_zero.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index af81e84..7c097ad 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -419,6 +419,9 @@ static ze_relaxed_allocation_limits_exp_desc_t relaxed_device_allocation_desc =
      .pNext = NULL,
      .flags = ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE};
 
+static umf_result_t ze_memory_provider_free(void *provider, void *ptr,
+                                            size_t bytes);
+
 static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
                                              size_t alignment,
                                              void **resultPtr) {
@@ -481,6 +484,10 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            LOG_ERR("making the memory resident failed");
+            (void)ze_memory_provider_free(ze_provider, *resultPtr, size);
+            *resultPtr = NULL;
+            // converted last, because it stores the native error
             return ze2umf_result(ze_result);
         }
     }
-- 
2.43.0


From 77541e101db0bf5e4445f89bb1595a2f851543c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 72/90] fix: level_zero: check that the driver can apply the
 free policy

zeMemFreeExt() is optional in the Level Zero loader, but it was called
without checking that it was found.
---
 src/provider/provider_level_zero.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 7c097ad..4aaa105 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -583,6 +583,13 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    if (umfFreePolicyToZePolicy(ze_params->freePolicy) != 0 &&
+        g_ze_ops.zeMemFreeExt == NULL) {
+        LOG_ERR("zeMemFreeExt() is not available, the requested free policy "
+                "is not supported");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
-- 
2.43.0


From b167e33c2fbefd825b820c63d62cf4e3d9b34c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 73/90] fix: level_zero: set the message of the last native
 error

ze_memory_provider_get_last_native_error() left *ppMessage unset.
---
 src/provider/provider_level_zero.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 4aaa105..7104c71 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -662,6 +662,8 @@ static void ze_memory_provider_get_last_native_error(void *provider,
         return;
     }
 
+    // there are no messages for the native errors
+    *ppMessage = "";
     *pError = TLS_last_native_error;
 }
 
-- 
2.43.0


From f031c11ba3494f83d36ea86d9e5a0699551caa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 74/90] fix: level_zero: look the driver library up again after
 teardown

fini_ze_global_state() closed the library but left the symbols marked
as resolved, so that a provider created after umfTearDown() and
umfInit() called into a library UMF no longer held, and a library
missing once was missing forever.
---
 src/provider/provider_level_zero.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 7104c71..c46237c 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -15,16 +15,24 @@
 #include <umf/providers/provider_level_zero.h>
 
 #include "provider_level_zero_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *ze_lib_handle = NULL;
+static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_ze_global_state_failed;
 
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
     }
+
+    // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&ze_is_initialized, &is_initialized, sizeof(ze_is_initialized));
+    Init_ze_global_state_failed = false;
 }
 
 #if defined(UMF_NO_LEVEL_ZERO_PROVIDER)
@@ -115,7 +123,6 @@ umf_memory_provider_ops_t *umfLevelZeroMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 #include "ze_api.h"
@@ -189,8 +196,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
 static void store_last_native_error(int32_t native_error) {
-- 
2.43.0


From dfa2d99770581253b69ae36dacc5ae5b302c0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 75/90] fix: level_zero: copy the array of resident devices

umfLevelZeroMemoryProviderParamsSetResidentDevices() kept the caller's
pointer, so the array had to outlive the params, unlike the data given to
the other setters of the library.
---
 src/provider/provider_level_zero.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index c46237c..15606ef 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -305,7 +305,10 @@ umf_result_t umfLevelZeroMemoryProviderParamsCreate(
 
 umf_result_t umfLevelZeroMemoryProviderParamsDestroy(
     umf_level_zero_memory_provider_params_handle_t hParams) {
-    umf_ba_global_free(hParams);
+    if (hParams != NULL) {
+        umf_ba_global_free(hParams->resident_device_handles);
+        umf_ba_global_free(hParams);
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -379,7 +382,19 @@ umf_result_t umfLevelZeroMemoryProviderParamsSetResidentDevices(
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hParams->resident_device_handles = hDevices;
+    ze_device_handle_t *hDevicesCopy = NULL;
+    if (deviceCount) {
+        hDevicesCopy =
+            umf_ba_global_alloc(sizeof(*hDevicesCopy) * deviceCount);
+        if (!hDevicesCopy) {
+            LOG_ERR("Cannot allocate memory for resident devices");
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
+        memcpy(hDevicesCopy, hDevices, sizeof(*hDevicesCopy) * deviceCount);
+    }
+
+    umf_ba_global_free(hParams->resident_device_handles);
+    hParams->resident_device_handles = hDevicesCopy;
     hParams->resident_device_count = deviceCount;
 
     return UMF_RESULT_SUCCESS;
-- 
2.43.0


From 7e41fd60d4b6856f4b69f6cdc9109b3eda463a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 76/90] fix: disjoint: give pools the whole default name

Only the first character of the default name was copied to new
parameters.
---
 src/pool/pool_disjoint.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index aeb7ce1..2af9770 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1008,8 +1008,6 @@ void umfDisjointPoolSharedLimitsDestroy(
 
 umf_result_t
 umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
-    static char *DEFAULT_NAME = "disjoint_pool";
-
     if (!hParams) {
         LOG_ERR("disjoint pool params handle is NULL");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -1030,7 +1028,7 @@ umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
         .cur_pool_size = 0,
         .pool_trace = 0,
         .shared_limits = NULL,
-        .name = {*DEFAULT_NAME},
+        .name = "disjoint_pool",
     };
 
     *hParams = params;
-- 
2.43.0


From 51309e0577ed9af5bb108959d1ce5c035da27ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 77/90] fix: disjoint: refuse a NULL name

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 2af9770..10f08a0 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1131,6 +1131,11 @@ umfDisjointPoolParamsSetName(umf_disjoint_pool_params_handle_t hParams,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (!name) {
+        LOG_ERR("name is NULL");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     strncpy(hParams->name, name, sizeof(hParams->name) - 1);
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 70b557085a889f2b75e8f2d19c478bdccc2e9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 78/90] fix: file: report a path that is too long

The initialization was abandoned but reported success, so the caller got
a provider whose private data had been freed or was never set.
---
 src/provider/provider_file_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 9143da8..a242283 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -215,6 +215,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From 394ee46703d9b2dac9d6ce8c039661b827799123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 79/90] fix: devdax: report a path that is too long

The initialization was abandoned but reported success, so the caller got
a provider whose private data had been freed or was never set.
---
 src/provider/provider_devdax_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index d2ca740..b1f1dff 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -205,6 +205,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
-- 
2.43.0


From aecb5bf7c7baaad26a9407be00b25968c39e315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 80/90] fix: proxy_lib: use memmove() in realloc() of the
 linear allocator

The size of the old block is not known, so the copied range can reach
into the new block, which lies behind the old one in the same pool.
memcpy() of overlapping ranges is undefined.
---
 src/proxy_lib/proxy_lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..55956d7 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -291,7 +291,8 @@ static inline void *ba_generic_realloc(umf_ba_linear_pool_t *pool, void *ptr,
         new_size = max_size;
     }
 
-    memcpy(new_ptr, ptr, new_size);
+    // the size of the old block is not known, so the ranges can overlap
+    memmove(new_ptr, ptr, new_size);
 
     // we can free the old ptr now
     umf_ba_linear_free(pool, ptr);
-- 
2.43.0


From 82ddbb1c799dbc534bb2613ec5ca05cd44161e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 81/90] fix: proxy_lib: check the sizes given to the linear
 allocator

calloc() and aligned_alloc() served by the "LEAK" linear allocator did
not check nmemb * size and size + alignment for an overflow, so that they
returned a block which was much too small.
---
 src/proxy_lib/proxy_lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index 55956d7..b30b1e7 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -316,6 +316,9 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (size > SIZE_MAX - alignment) {
+        return NULL;
+    }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
@@ -326,6 +329,9 @@ static inline void *ba_leak_malloc(size_t size) {
 
 static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
+    if (size != 0 && nmemb > SIZE_MAX / size) {
+        return NULL;
+    }
     // umf_ba_linear_alloc() returns zeroed memory
     // so ba_leak_aligned_alloc() does too
     return ba_leak_aligned_alloc(0, nmemb * size);
-- 
2.43.0


From 864d24d9c0d9e5ac501694a41b15969ffd64c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 82/90] fix: base_alloc_linear: check the size of a new pool
 for an overflow

The size of a pool for an allocation of nearly SIZE_MAX bytes wrapped
around, so that a tiny pool was created for it.
---
 src/base_alloc/base_alloc_linear.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..d00539a 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -137,6 +137,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size - usable_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("pool_size overflow");
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From 4c48aeb3348325832222464586450df58fdad488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 83/90] fix: proxy_lib: do not destroy a pool which was not
 created

When the constructor refused its configuration and called exit(), the
destructor passed NULL handles to umfPoolDestroy() and crashed.
---
 src/proxy_lib/proxy_lib.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index b30b1e7..0bbe0d9 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -261,11 +261,15 @@ void proxy_lib_destroy_common(void) {
 
     umf_memory_pool_handle_t pool = Proxy_pool;
     Proxy_pool = NULL;
-    umfPoolDestroy(pool);
+    if (pool) {
+        umfPoolDestroy(pool);
+    }
 
     umf_memory_provider_handle_t provider = OS_memory_provider;
     OS_memory_provider = NULL;
-    umfMemoryProviderDestroy(provider);
+    if (provider) {
+        umfMemoryProviderDestroy(provider);
+    }
     LOG_DEBUG("proxy library destroyed");
 
 fini_proxy_lib_destroy_common:
-- 
2.43.0


From 4678fe57c94fcc5ca06c4200a24bc60ba71ce702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 84/90] fix: disjoint: account the size of a pool atomically

The statistics of a pool (cur_pool_size and the total size of the
limits) were updated or read under the lock of a single bucket only,
so threads using different buckets of a pool, or pools sharing
limits, raced when tracing was enabled.
---
 src/pool/pool_disjoint.c          | 29 +++++++++++++++++++++--------
 src/pool/pool_disjoint_internal.h |  2 +-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 10f08a0..f268be5 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -439,8 +439,14 @@ static void bucket_update_stats(bucket_t *bucket, int in_use, int in_pool) {
 
     // Increment or decrement current pool sizes based on whether
     // slab was added to or removed from pool.
-    bucket->pool->params.cur_pool_size +=
-        in_pool * bucket_slab_alloc_size(bucket);
+    // It is shared by all buckets of the pool, so it is updated atomically.
+    if (in_pool > 0) {
+        utils_fetch_and_add_u64(&bucket->pool->params.cur_pool_size,
+                                in_pool * bucket_slab_alloc_size(bucket));
+    } else if (in_pool < 0) {
+        utils_fetch_and_sub_u64(&bucket->pool->params.cur_pool_size,
+                                -in_pool * bucket_slab_alloc_size(bucket));
+    }
 }
 
 static bool bucket_can_pool(bucket_t *bucket) {
@@ -537,8 +543,10 @@ static void disjoint_pool_print_stats(disjoint_pool_t *pool) {
         utils_mutex_unlock(&bucket->bucket_lock);
     }
 
-    LOG_DEBUG("current pool size: %" PRIu64,
-              disjoint_pool_get_limits(pool)->total_size);
+    uint64_t total_size = 0;
+    utils_atomic_load_acquire_u64(&disjoint_pool_get_limits(pool)->total_size,
+                                  &total_size);
+    LOG_DEBUG("current pool size: %" PRIu64, total_size);
     LOG_DEBUG("suggested setting=;%c%s:%zu,%zu,64K", (char)tolower(name[0]),
               (name + 1), high_bucket_size, high_peak_slabs_in_use);
 }
@@ -934,12 +942,17 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
 
     if (disjoint_pool->params.pool_trace > 2) {
         const char *name = disjoint_pool->params.name;
+        uint64_t total_size = 0;
+        uint64_t cur_pool_size = 0;
+        utils_atomic_load_acquire_u64(
+            &disjoint_pool_get_limits(disjoint_pool)->total_size, &total_size);
+        utils_atomic_load_acquire_u64(&disjoint_pool->params.cur_pool_size,
+                                      &cur_pool_size);
         LOG_DEBUG("freed %s %p to %s, current total pool size: %" PRIu64
                   ", current "
-                  "pool size for %s: %zu",
-                  name, ptr, (to_pool ? "pool" : "provider"),
-                  disjoint_pool_get_limits(disjoint_pool)->total_size, name,
-                  disjoint_pool->params.cur_pool_size);
+                  "pool size for %s: %" PRIu64,
+                  name, ptr, (to_pool ? "pool" : "provider"), total_size, name,
+                  cur_pool_size);
     }
 
     return UMF_RESULT_SUCCESS;
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index ce2ecfb..4271aa2 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -123,7 +123,7 @@ typedef struct umf_disjoint_pool_params_t {
     size_t min_bucket_size;
 
     // Holds size of the pool managed by the allocator.
-    size_t cur_pool_size;
+    uint64_t cur_pool_size; // requires atomic access
 
     // Whether to print pool usage statistics
     int pool_trace;
-- 
2.43.0


From ea21edd23053e7868c850e76fac49d779ba9a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:49 +0000
Subject: [PATCH 85/90] fix: mempolicy: copy the caller's partitions

The policy kept a pointer to the array passed to
umfMempolicySetCustomSplitPartitions(), which nothing obliges the caller to
keep: a provider created after the array went out of scope read freed memory.
---
 src/mempolicy.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/mempolicy.c b/src/mempolicy.c
index 1b78053..02e717b 100644
--- a/src/mempolicy.c
+++ b/src/mempolicy.c
@@ -6,6 +6,9 @@
  * SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
  *
  */
+#include <stdint.h>
+#include <string.h>
+
 #include <umf/mempolicy.h>
 
 #include "base_alloc_global.h"
@@ -27,6 +30,7 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
     if (bind == UMF_MEMPOLICY_INTERLEAVE) {
         (*policy)->ops.interleave.part_size = 0;
     } else if (bind == UMF_MEMPOLICY_SPLIT) {
+        (*policy)->ops.split.part = NULL;
         (*policy)->ops.split.part_len = 0;
     }
 
@@ -34,6 +38,9 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
 }
 
 umf_result_t umfMempolicyDestroy(umf_mempolicy_handle_t policy) {
+    if (policy && policy->type == UMF_MEMPOLICY_SPLIT) {
+        umf_ba_global_free(policy->ops.split.part);
+    }
     umf_ba_global_free(policy);
     return UMF_RESULT_SUCCESS;
 }
@@ -63,7 +70,25 @@ umfMempolicySetCustomSplitPartitions(umf_mempolicy_handle_t policy,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    policy->ops.split.part = partList;
+    if (partListLen && partList == NULL) {
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
+    // the caller's array does not have to outlive the policy
+    umf_mempolicy_split_partition_t *new_list = NULL;
+    if (partListLen) {
+        if (partListLen > SIZE_MAX / sizeof(*new_list)) {
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        }
+        new_list = umf_ba_global_alloc(partListLen * sizeof(*new_list));
+        if (new_list == NULL) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
+        memcpy(new_list, partList, partListLen * sizeof(*new_list));
+    }
+
+    umf_ba_global_free(policy->ops.split.part);
+    policy->ops.split.part = new_list;
     policy->ops.split.part_len = partListLen;
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 1e1119aa60845b4a17fba6b57546bc585c602261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 86/90] fix: cuda: look the driver library up again after
 teardown

---
 src/provider/provider_cuda.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index dd12d91..1935cff 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -13,16 +13,24 @@
 #include <umf/providers/provider_cuda.h>
 
 #include "provider_cuda_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *cu_lib_handle = NULL;
+static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_cu_global_state_failed;
 
 void fini_cu_global_state(void) {
     if (cu_lib_handle) {
         utils_close_library(cu_lib_handle);
         cu_lib_handle = NULL;
     }
+
+    // portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&cu_is_initialized, &is_initialized, sizeof(cu_is_initialized));
+    Init_cu_global_state_failed = false;
 }
 
 #if defined(UMF_NO_CUDA_PROVIDER)
@@ -98,7 +106,6 @@ umf_memory_provider_ops_t *umfCUDAMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 
@@ -150,8 +157,6 @@ typedef struct cu_ops_t {
 typedef CUipcMemHandle cu_ipc_data_t;
 
 static cu_ops_t g_cu_ops;
-static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_cu_global_state_failed;
 
 // forward decl needed for alloc
 static umf_result_t cu_memory_provider_free(void *provider, void *ptr,
-- 
2.43.0


From 0d84d154d186dd824c28aa2f8b47ba0ec3440185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 87/90] fix: cuda: do not leak the params when the driver
 library is unavailable

---
 src/provider/provider_cuda.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index 1935cff..8ed0212 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -264,6 +264,12 @@ umf_result_t umfCUDAMemoryProviderParamsCreate(
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    utils_init_once(&cu_is_initialized, init_cu_global_state);
+    if (Init_cu_global_state_failed) {
+        LOG_FATAL("Loading CUDA symbols failed");
+        return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
+    }
+
     umf_cuda_memory_provider_params_handle_t params_data =
         umf_ba_global_alloc(sizeof(umf_cuda_memory_provider_params_t));
     if (!params_data) {
@@ -271,12 +277,6 @@ umf_result_t umfCUDAMemoryProviderParamsCreate(
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
-    utils_init_once(&cu_is_initialized, init_cu_global_state);
-    if (Init_cu_global_state_failed) {
-        LOG_FATAL("Loading CUDA symbols failed");
-        return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
-    }
-
     // initialize context and device to the current ones
     CUcontext current_ctx = NULL;
     CUresult cu_result = g_cu_ops.cuCtxGetCurrent(&current_ctx);
-- 
2.43.0


From 6191199563a038acc77f66cac942f94068b8bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 88/90] fix: jemalloc pool: check calloc for overflow

---
 src/pool/pool_jemalloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_jemalloc.c b/src/pool/pool_jemalloc.c
index 10e00de..819c268 100644
--- a/src/pool/pool_jemalloc.c
+++ b/src/pool/pool_jemalloc.c
@@ -6,6 +6,7 @@
 */
 
 #include <assert.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -316,6 +317,11 @@ static umf_result_t op_free(void *pool, void *ptr) {
 
 static void *op_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) {
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     size_t csize = num * size;
     void *ptr = op_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From 1e139043a2fae3ff87448f7ca633a21d6981c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 89/90] fix: jemalloc pool: do not clear the entry of an arena
 index that is in use again

---
 src/pool/pool_jemalloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_jemalloc.c b/src/pool/pool_jemalloc.c
index 819c268..6d2263e 100644
--- a/src/pool/pool_jemalloc.c
+++ b/src/pool/pool_jemalloc.c
@@ -443,7 +443,8 @@ static void op_finalize(void *pool) {
     char cmd[64];
     snprintf(cmd, sizeof(cmd), "arena.%u.destroy", je_pool->arena_index);
     (void)je_mallctl(cmd, NULL, 0, NULL, 0);
-    pool_by_arena_index[je_pool->arena_index] = NULL;
+    // pool_by_arena_index[] is not cleared: from here on the index
+    // can already belong to an arena created by another thread
     umf_ba_global_free(je_pool);
 
     VALGRIND_DO_DESTROY_MEMPOOL(pool);
-- 
2.43.0


From f74af4b08f83764d183a6acd48297c4b88cdb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 90/90] fix: os, file, devdax: descriptor 0 was not taken for a
 descriptor

---
 src/provider/provider_file_memory.c |  6 +++---
 src/provider/provider_os_memory.c   | 22 +++++++++++-----------
 src/utils/utils_linux_common.c      |  2 +-
 src/utils/utils_posix_common.c      |  1 -
 4 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index a242283..74687cf 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -338,7 +338,7 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     size_t offset_fd = file_provider->offset_fd;
     size_t page_size = file_provider->page_size;
 
-    assert(fd > 0);
+    assert(fd >= 0);
 
     // We have to increase size by alignment to be able to "cut out"
     // the correctly aligned part of the memory
@@ -643,7 +643,7 @@ static umf_result_t file_allocation_split_cb(void *provider, void *ptr,
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
-    if (file_provider->fd <= 0) {
+    if (file_provider->fd < 0) {
         return UMF_RESULT_SUCCESS;
     }
 
@@ -688,7 +688,7 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
-    if (file_provider->fd <= 0) {
+    if (file_provider->fd < 0) {
         return UMF_RESULT_SUCCESS;
     }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 2b3b6dd..c41bd3e 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -437,7 +437,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                    os_memory_provider_t *provider) {
     umf_result_t result;
 
-    // size_fd will be increased during each allocation if (provider->fd > 0)
+    // size_fd will be increased during each allocation if (provider->fd >= 0)
     provider->size_fd = 0;
     provider->shm_name[0] = '\0'; // zero shm_name
 
@@ -477,7 +477,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
     }
 
     provider->fd = utils_create_anonymous_fd();
-    if (provider->fd <= 0) {
+    if (provider->fd < 0) {
         LOG_ERR(
             "creating an anonymous file descriptor for memory mapping failed");
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -496,7 +496,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
     return UMF_RESULT_SUCCESS;
 
 err_close_file:
-    if (provider->fd > 0) {
+    if (provider->fd >= 0) {
         (void)utils_close_fd(provider->fd);
     }
 
@@ -729,7 +729,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         goto err_destroy_bitmaps;
     }
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
@@ -771,7 +771,7 @@ err_free_os_provider:
 static void os_finalize(void *provider) {
     os_memory_provider_t *os_provider = provider;
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
         (void)utils_close_fd(os_provider->fd);
     }
@@ -865,7 +865,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
     // offsets in the file have to be page-aligned
     size_t fd_length = extended_length;
 
-    if (fd > 0) {
+    if (fd >= 0) {
         if (fd_length & (page_size - 1)) {
             fd_length = (fd_length | (page_size - 1));
             if (fd_length == SIZE_MAX) {
@@ -895,7 +895,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
-        if (fd > 0 && utils_mutex_lock(lock_fd) == 0) {
+        if (fd >= 0 && utils_mutex_lock(lock_fd) == 0) {
             if (*fd_size == *fd_offset + fd_length) {
                 *fd_size = *fd_offset;
             }
@@ -919,7 +919,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
         }
-        if (fd > 0) {
+        if (fd >= 0) {
             *fd_offset += head_len;
         }
 
@@ -1208,7 +1208,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         } while (membind.alloc_size > 0);
     }
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         // store (fd_offset + 1) to be able to store fd_offset == 0
         ret =
             critnib_insert(os_provider->fd_offset_map, (uintptr_t)addr,
@@ -1264,7 +1264,7 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
     // The offset has to be removed before the memory is unmapped, because
     // another thread can map the same address right after that.
     void *fd_offset = NULL;
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         fd_offset = critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
 
@@ -1539,7 +1539,7 @@ static umf_result_t os_open_ipc_handle(void *provider, void *providerIpcData,
 
     if (os_ipc_data->shm_name_len) {
         fd = utils_shm_open(os_ipc_data->shm_name);
-        if (fd <= 0) {
+        if (fd < 0) {
             LOG_PERR("opening a shared memory file (%s) failed",
                      os_ipc_data->shm_name);
             return UMF_RESULT_ERROR_UNKNOWN;
diff --git a/src/utils/utils_linux_common.c b/src/utils/utils_linux_common.c
index cd0fefd..dd83b91 100644
--- a/src/utils/utils_linux_common.c
+++ b/src/utils/utils_linux_common.c
@@ -221,7 +221,7 @@ int utils_create_anonymous_fd(void) {
 
     if (!utils_env_var_has_str("UMF_MEM_FD_FUNC", "memfd_create")) {
         fd = syscall_memfd_secret();
-        if (fd > 0) {
+        if (fd >= 0) {
             return fd;
         }
     }
diff --git a/src/utils/utils_posix_common.c b/src/utils/utils_posix_common.c
index 613b8ea..857f36b 100644
--- a/src/utils/utils_posix_common.c
+++ b/src/utils/utils_posix_common.c
@@ -157,7 +157,6 @@ int utils_translate_purge_advise(umf_purge_advise_t advise) {
 
 void *utils_mmap(void *hint_addr, size_t length, int prot, int flag, int fd,
                  size_t fd_offset) {
-    fd = (fd == 0) ? -1 : fd;
     if (fd == -1) {
         // MAP_ANONYMOUS - the mapping is not backed by any file
         flag |= MAP_ANONYMOUS;
-- 
2.43.0

