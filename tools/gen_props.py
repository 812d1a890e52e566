#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "Live pool allocations are disjoint, aligned, big enough and keep their bytes",
  "For every pool manager (disjoint, scalable, jemalloc, proxy) on every provider, each successful allocation has the requested alignment, a usable size of at least the request, lies inside memory the pool holds from its provider, and overlaps no other live allocation, whatever the history of allocations and frees and however many threads make it. "
  "Bytes written to a live allocation are never changed by the library until the owner frees it; calloc memory is zeroed and realloc keeps the common prefix. "
  "An allocation request whose size or alignment cannot be served returns NULL rather than a smaller block.",
  ["histories", "schedules", "inputs", "configurations"],
  "all interleaved histories of malloc/calloc/realloc/aligned_malloc/free on a pool from any number of threads, all sizes (0 .. SIZE_MAX) and power-of-two alignments, all pool parameters and providers",
  "tests allocate a handful of fixed sizes, check a pattern in one or two buffers and never compare all live ranges; slab reuse, bucket selection and aligned allocation interact over long histories and racing frees",
  ["src/pool/pool_disjoint.c", "src/pool/pool_disjoint_internal.h", "src/pool/pool_scalable.c", "src/pool/pool_jemalloc.c", "src/pool/pool_proxy.c", "src/memory_pool.c", "src/provider/provider_os_memory.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_file_memory.c"],
  [("slab chunk bitmap and free/unavailable lists under the bucket lock", "src/pool/pool_disjoint.c"), ("known-slabs map used to find the slab of an address", "src/pool/pool_disjoint.c"), ("umfPool* dispatch", "src/memory_pool.c")],
  [("slab chunks", "which chunks of a slab are handed out", "pool_disjoint_internal.h slab_t")],
  ["umfPoolMalloc", "umfPoolAlignedMalloc", "umfPoolCalloc", "umfPoolRealloc", "umfPoolFree", "umfPoolMallocUsableSize"])

prop("C02", "A pool gives back to its provider exactly what it took, once",
  "Every block a pool obtains from its memory provider is returned at most once while the pool lives and exactly once by the time the pool is destroyed, with the base address and size with which it was obtained. "
  "A block is never returned while the user still holds an allocation in it, no memory is used after it was returned, and destroying a pool whose allocations were all freed leaves its provider with nothing outstanding. "
  "A pool created with ownership of its provider destroys the provider exactly once, after the last block came back; otherwise the provider stays usable.",
  ["histories", "schedules", "configurations"],
  "all allocation/free histories, pool parameters and thread schedules",
  "the test provider only counts calls in a few single-scenario tests; leaks or double returns that need a slab to move between lists, a shared limit to be hit or a race are not sampled",
  ["src/pool/pool_disjoint.c", "src/pool/pool_scalable.c", "src/pool/pool_proxy.c", "src/memory_pool.c", "src/memory_provider.c", "src/provider/provider_tracking.c"],
  [("slab destruction and pool finalize", "src/pool/pool_disjoint.c"), ("trackingFree ordering", "src/provider/provider_tracking.c"), ("umfPoolDestroy ownership flag", "src/memory_pool.c")],
  [], ["the provider's alloc/free/finalize callbacks (a recording provider)"])

prop("C03", "Pointer-to-pool lookup is exact for every address",
  "While an allocation made through a tracked pool is live, looking up the pool of any address inside the memory the pool obtained returns exactly the innermost pool owning that address, and free-by-pointer releases it in that pool; after the memory went back to the provider, and for addresses no tracked pool holds, the lookup reports no pool. "
  "This also holds with pools stacked on memory of other pools, after splits and merges, and while other threads allocate and free elsewhere; pools created without tracking never appear.",
  ["histories", "schedules", "inputs"],
  "all addresses, all histories of allocation, free, split and merge over any nesting up to the supported depth, all schedules in which the looked-up allocation itself stays live",
  "tests look up base addresses of a few live blocks single-threaded; interior and one-past-end addresses, adjacent blocks of different pools, nesting and concurrent updates are not covered",
  ["src/provider/provider_tracking.c", "src/provider/provider_tracking.h", "src/critnib/critnib.c", "src/memory_pool.c"],
  [("multi-level address map with child counts", "src/provider/provider_tracking.c"), ("remove-before-free, add-after-alloc ordering", "src/provider/provider_tracking.c")],
  [("alloc_segments_map", "address ranges per nesting level", "provider_tracking.c")],
  ["umfPoolByPtr", "umfFree", "umfMemoryTrackerGetAllocInfo"])

prop("C04", "Region-carving providers partition their region exactly",
  "A provider that carves allocations out of memory it was given (fixed-buffer, file, DAX) returns only aligned ranges inside that memory, never two live ranges that overlap, and never fails a request that a free range of the region, larger than the request by its alignment, could satisfy. "
  "Freed neighbours (for a file: neighbours in the file) always coalesce, so that when everything is freed the whole region can be allocated again as one block, and its size statistics equal the sum of the live allocations at every point. "
  "A free, split or merge that names a range which is not a live allocation is rejected and changes nothing.",
  ["histories", "inputs", "configurations", "schedules"],
  "all histories of alloc/free/split/merge with any size and alignment, all region sizes, bases and allocation strategies, any number of threads",
  "tests run short scripted sequences on one region size; coalescing and split bookkeeping depends on the order in which neighbours are freed and on alignment remainders",
  ["src/coarse/coarse.c", "src/coarse/coarse.h", "src/ravl/ravl.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_devdax_memory.c", "src/provider/provider_file_memory.c"],
  [("all-blocks and free-blocks trees under one lock", "src/coarse/coarse.c"), ("coalescing of adjacent free blocks", "src/coarse/coarse.c")],
  [("used_size, alloc_size, num_all_blocks, num_free_blocks", "allocator statistics", "coarse.c")],
  ["coarse_alloc/coarse_free/coarse_split/coarse_merge/coarse_get_stats", "umfMemoryProviderAlloc/Free on fixed, file and DAX providers"])

prop("C05", "Splitting and merging allocations conserves memory and ownership",
  "Splitting a live provider allocation yields exactly two independently freeable allocations covering the same bytes with the same contents, and merging two adjacent ones of the same origin yields exactly one; nothing is gained, lost or moved, and pointer lookup agrees at each step. "
  "A split or merge with sizes, addresses or adjacency that do not match live allocations, or that the underlying provider refuses, fails and leaves everything as it was.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all sequences of alloc/split/merge/free on each provider supporting them and through a pool's tracking layer, all size arguments, refusals by the underlying provider, concurrent use of unrelated blocks",
  "tests do one split and one merge of fixed sizes per provider and check return codes, not the resulting ownership map",
  ["src/memory_provider.c", "src/provider/provider_tracking.c", "src/coarse/coarse.c", "src/provider/provider_os_memory.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_file_memory.c"],
  [("argument validation in the dispatch layer", "src/memory_provider.c"), ("split/merge mutex and value replacement", "src/provider/provider_tracking.c"), ("coarse_split/coarse_merge", "src/coarse/coarse.c")],
  [], ["umfMemoryProviderAllocationSplit", "umfMemoryProviderAllocationMerge", "umfPoolByPtr"])

prop("C06", "The OS memory provider maps and unmaps exactly what it reports",
  "Each allocation of the OS memory provider is a fresh mapping of at least the requested size with the requested alignment and protection that overlaps no other mapping, is zero-filled, and disappears completely (and nothing else with it) when freed; after all frees the process has the same mappings and descriptors as before. "
  "Forced purge discards contents but keeps the range usable, and the provider's allocated/peak statistics equal the true current and maximum totals. "
  "Requests it cannot serve fail without side effects.",
  ["histories", "inputs", "configurations", "schedules", "fault_sequences"],
  "all sizes, alignments, protections, visibilities and NUMA modes, all alloc/free histories and schedules, and failing system calls at any point",
  "tests check pointers and return codes of a few sizes; they never compare the process's address space before and after, nor statistics after failed or concurrent operations",
  ["src/provider/provider_os_memory.c", "src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c"],
  [("aligned mmap with trimming", "src/provider/provider_os_memory.c"), ("atomic statistics", "src/provider/provider_os_memory.c"), ("fd offset bookkeeping for shared mappings", "src/provider/provider_os_memory.c")],
  [("stats.allocated_memory / peak_memory", "current and peak bytes", "provider_os_memory.c")],
  ["umfMemoryProviderAlloc/Free/PurgeForce", "mmap/munmap calls at the linker boundary", "/proc/self/maps", "umfCtlGet provider stats"])

prop("C07", "Live file-provider allocations are distinct ranges of the file",
  "Two live allocations of a file memory provider never share bytes of the file, whatever their sizes and alignments, and with shared visibility what is written through one is exactly what the file holds for it, readable through any other mapping of the same range. "
  "The file only grows to cover the allocations made, and freed ranges are reused without disturbing live ones.",
  ["histories", "inputs", "configurations", "schedules"],
  "all alloc/free/split/merge histories with any size and alignment, private and shared visibility, any number of threads",
  "tests write one buffer at a time; aliasing needs several live allocations with alignment above the page size or crossing an internal mapping boundary",
  ["src/provider/provider_file_memory.c", "src/coarse/coarse.c", "src/utils/utils_linux_common.c"],
  [("file offset bookkeeping per mapping", "src/provider/provider_file_memory.c"), ("address-to-offset map", "src/provider/provider_file_memory.c")],
  [("offset_fd / size_fd / fd_offset_map", "file layout", "provider_file_memory.c")],
  ["memory returned by umfMemoryProviderAlloc", "pread of the backing file", "IPC handle of the allocation"])

prop("C08", "An opened IPC handle shows exactly the exported bytes",
  "Opening an IPC handle obtained for any address inside a live pool allocation yields, in the same or another process, an address whose bytes are the exported bytes from that address to the end of the block, in both directions for shared memory, regardless of how many handles were made, opened and closed before and of earlier allocations that lived at the same address. "
  "The handle is self-contained for its reported size, exporting an address no tracked pool holds is refused, and the provider-side handle is created once per block and released once when the block is freed.",
  ["histories", "inputs", "configurations", "schedules"],
  "all offsets inside blocks, all histories of allocation, get, put, open, close and free, providers with IPC support (OS shared memory, file, custom), same-process and cross-process use, concurrent openers",
  "the IPC tests exchange one fixed buffer with a fixed pattern; interior offsets, address reuse after free, cache hits for stale addresses and concurrency are barely sampled and most cross-process tests cannot even run here",
  ["src/ipc.c", "src/ipc_cache.c", "src/provider/provider_tracking.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c"],
  [("handle carries base, offset, pid and a unique id", "src/ipc.c, src/ipc_internal.h"), ("per-provider producer cache keyed by block", "src/provider/provider_tracking.c"), ("consumer cache keyed by remote base, pid and provider", "src/ipc_cache.c")],
  [], ["umfGetIPCHandle", "umfOpenIPCHandle", "umfCloseIPCHandle", "umfPutIPCHandle", "provider IPC callbacks of a recording provider"])

prop("C09", "IPC mappings are opened once, stay valid while open and closed exactly once",
  "While a consumer has opened a handle and not closed it, the mapping it got stays open; each successful open of a mapping in the provider is matched by exactly one close, made through the same provider, at the latest when the consumer's pool is destroyed. "
  "Repeated opens of the same handle share one mapping. With UMF_MAX_OPENED_IPC_HANDLES set, a new mapping opened while the limit is reached first closes the least recently opened mapping that nobody uses; mappings in use are never closed, and without the limit none is closed while its allocation lives. "
  "A failed open leaves no mapping, no count and no later misbehaviour behind.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "all histories and schedules of opens and closes over many handles, pools and limits, with failing provider opens",
  "one test opens a few handles against a mock with a fixed limit; eviction across pools, eviction of busy entries, stale handle ids and failing opens need specific histories",
  ["src/ipc_cache.c", "src/ipc_cache.h", "src/provider/provider_tracking.c", "src/ipc.c"],
  [("global LRU of unused mappings", "src/ipc_cache.c"), ("reference count per mapping", "src/ipc_cache.c"), ("per-entry map lock", "src/provider/provider_tracking.c")],
  [("ref_count / lru_list", "use count and eviction order", "ipc_cache.c")],
  ["open_ipc_handle/close_ipc_handle callbacks of a recording provider", "umfOpenIPCHandle", "umfCloseIPCHandle"])

prop("C10", "The address index is a linearizable map with ordered search",
  "The lock-free-read ordered map from addresses to values behaves, for every key set over the full 64-bit key range and under any interleaving, like a sequential ordered map in which each insert, update, removal and exact lookup takes effect at one instant between its call and return. "
  "Less-than, less-or-equal, greater and greater-or-equal searches return a key with a value it really had during the call and never pass over a key that was present throughout, and range iteration visits exactly the keys of the range; no lookup ever blocks, crashes or loops, however long it is stalled.",
  ["schedules", "histories", "inputs"],
  "all key sets over 64-bit keys, all operation histories, all thread interleavings with up to several writers and readers",
  "tests insert fixed keys and search sequentially; concurrent tests check only that nothing crashes, not that answers were ever correct",
  ["src/critnib/critnib.c", "src/critnib/critnib.h"],
  [("radix tree with per-slot release stores", "src/critnib/critnib.c"), ("deferred reuse of removed nodes and retry on remove count", "src/critnib/critnib.c")],
  [("remove_count / pending_del_nodes", "grace period for removed nodes", "critnib.c")],
  ["critnib_insert", "critnib_remove", "critnib_get", "critnib_find_le", "critnib_find"])

prop("C11", "The internal allocators hand out disjoint memory and take it back",
  "The library's own metadata allocators never hand out overlapping or misaligned blocks, never recycle a block before it is freed or lose one after it is freed, and keep working when used from many threads, for every chunk size. "
  "Blocks carry at least the requested bytes, and an allocator knows exactly which addresses belong to it.",
  ["histories", "schedules", "inputs"],
  "all alloc/free histories, chunk sizes, allocation sizes and thread schedules",
  "the tests fill a pool once per size and free in one order; growth by extra OS pages, free-list reuse and races are sampled lightly",
  ["src/base_alloc/base_alloc.c", "src/base_alloc/base_alloc_global.c", "src/base_alloc/base_alloc_linear.c"],
  [("free list under the pool lock", "src/base_alloc/base_alloc.c"), ("size classes and header of the global allocator", "src/base_alloc/base_alloc_global.c"), ("bump pointer and per-pool counters", "src/base_alloc/base_alloc_linear.c")],
  [], ["umf_ba_alloc/free", "umf_ba_global_alloc/free/aligned_alloc", "umf_ba_linear_alloc/free/pool_contains_pointer"])

prop("C12", "The ordered tree behaves as an ordered set",
  "The balanced tree that orders free and used blocks contains exactly the elements inserted and not removed; duplicates are refused; predicate searches (equal, less, greater and combinations), first/last and in-order traversal give the same answers as a sorted set after any history. "
  "Its depth stays logarithmic under insertion-only histories, and clearing releases every node.",
  ["histories", "inputs"],
  "all histories of insert, copy-insert, remove and find with any comparison keys, including removal of inner nodes",
  "the tree's tests insert and remove a few fixed keys; rebalancing with removals has many shapes",
  ["src/ravl/ravl.c", "src/ravl/ravl.h"],
  [("rank-based rebalancing after insertion", "src/ravl/ravl.c"), ("removal by successor copy", "src/ravl/ravl.c")],
  [], ["ravl_insert", "ravl_emplace_copy", "ravl_find", "ravl_remove", "ravl_foreach"])

prop("C13", "Failures of memory sources are contained",
  "If the underlying provider, the operating system or the library's own metadata allocation fails at any point of any operation, the operation reports failure (NULL or an error code) without crashing, the pool or provider keeps serving later requests correctly once memory is available again, and every allocation live before the failure is intact. "
  "No block obtained from a provider or the operating system before the failure is leaked: after everything is freed and destroyed, nothing is outstanding.",
  ["fault_sequences", "histories", "configurations"],
  "the k-th upstream allocation, upstream free, mmap or metadata allocation failing, for every k reached by a workload, once or repeatedly, on every pool and provider",
  "tests inject one failing provider alloc at one point; the error paths of multi-step operations (slab creation, tracking, block splitting, cache insertion, create functions) are never all taken",
  ["src/pool/pool_disjoint.c", "src/provider/provider_tracking.c", "src/coarse/coarse.c", "src/critnib/critnib.c", "src/memory_pool.c", "src/memory_provider.c", "src/ipc_cache.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/memspaces/memspace_numa.c", "src/memspace.c"],
  [("goto-based cleanup paths", "all create/alloc functions")],
  [], ["return values", "upstream ledger of a recording provider", "umf_ba_global_alloc at the linker boundary", "mmap/munmap at the linker boundary"])

prop("C14", "Error reporting is accurate and per thread",
  "After an operation fails, the documented error query (pool last allocation error, provider last native error, last failed provider) issued by the same thread describes that failure, and operations of other threads never change it. "
  "Error messages are valid strings that stay readable, and every failing allocation of a pool has set its error before it returns.",
  ["schedules", "histories", "inputs"],
  "all interleavings of failing and succeeding operations over several threads, pools and providers",
  "tests check single-threaded sequences on one provider at a time",
  ["src/memory_provider.c", "src/memory_provider_get_last_failed.c", "src/memory_pool.c", "src/pool/pool_disjoint.c", "src/pool/pool_proxy.c", "src/pool/pool_scalable.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/provider/provider_fixed_memory.c"],
  [("thread-local error state", "pools and providers"), ("umfGetLastFailedMemoryProvider", "src/memory_provider_get_last_failed.c")],
  [], ["umfPoolGetLastAllocationError", "umfMemoryProviderGetLastNativeError", "umfGetLastFailedMemoryProvider"])

prop("C15", "The disjoint pool keeps to its configured limits",
  "A disjoint pool takes memory from its provider in slabs of at least the configured minimum size, serves requests above the pooling limit directly, keeps no more empty slabs per size class than its capacity and no more pooled bytes than the (possibly shared) limit, and returns everything beyond that to the provider as it is freed. "
  "A slab that becomes empty is kept while capacity and limit allow it, pooled memory is reused before new memory is taken, and the shared limit accounting returns to zero when all sharing pools are destroyed.",
  ["histories", "schedules", "configurations"],
  "all parameter combinations, histories and schedules, several pools sharing one limit object",
  "tests try one configuration of capacity and one shared-limit scenario; the accounting is exercised through few transitions and one thread at a time",
  ["src/pool/pool_disjoint.c", "src/pool/pool_disjoint_internal.h"],
  [("bucket_can_pool / shared limits total_size", "src/pool/pool_disjoint.c"), ("per-bucket available slab counters", "src/pool/pool_disjoint.c")],
  [("total_size of shared limits", "bytes pooled", "pool_disjoint.c"), ("chunked_slabs_in_pool", "empty slabs kept per bucket", "pool_disjoint.c")],
  ["the provider's alloc/free callbacks", "umfPoolMalloc/umfPoolFree"])

prop("C16", "The provider and pool API layer forwards calls faithfully",
  "Each public provider and pool call reaches the implementation's callback exactly once with the caller's arguments and private state and returns its result and output unchanged; handles created with different private states never mix. "
  "Calls with documented-invalid arguments are refused without reaching the implementation, missing optional callbacks report 'not supported', creation with incomplete callbacks or a failing initializer leaves nothing behind, and destruction finalizes exactly once. "
  "Setting a pool tag returns the previous tag atomically.",
  ["inputs", "programs", "histories", "schedules"],
  "all public functions, valid and invalid argument combinations, callback tables with any subset of optional members, any callback result",
  "tests call most functions once with one mock; argument permutations, results other than success and combinations of missing callbacks are sampled",
  ["src/memory_provider.c", "src/memory_pool.c", "src/ipc.c", "src/libumf.c", "include/umf/memory_provider_ops.h", "include/umf/memory_pool_ops.h"],
  [("dispatch through ops tables with default ext/ipc/ctl callbacks", "src/memory_provider.c, src/memory_pool.c")],
  [], ["callbacks of recording provider and pool implementations"])

prop("C17", "NUMA placement follows the configured mode",
  "Every allocation of a NUMA-configured OS provider has its whole page range bound, before it is returned, to the nodes that the configured mode prescribes: all listed nodes for bind, preferred and interleave, fixed-size parts round-robin across nodes continuing from allocation to allocation, and contiguous parts proportional to the weights for split; parts cover the range without gap or overlap. "
  "Invalid combinations of mode, node list and parts are refused at creation, and a failed binding unmaps the memory and reports the error.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all node lists, modes, part sizes, weights and allocation sizes and sequences, failing bind calls",
  "this machine and most CI machines have one NUMA node, so existing tests cannot observe placement; the tests check few sizes",
  ["src/provider/provider_os_memory.c", "src/memtargets/memtarget_numa.c", "src/mempolicy.c"],
  [("initializePartitions / nodeset selection and tiling", "src/provider/provider_os_memory.c")],
  [("alloc_sum", "position in the round-robin", "provider_os_memory.c")],
  ["hwloc_set_area_membind calls at the linker boundary"])

prop("C18", "Memory spaces, targets and policies behave as sets with exact filtering",
  "A memspace holds a sequence of targets, to which the same target is never added twice: add, remove, clone, sort and the filters (by id, by capacity, by user callback) yield exactly the expected targets, leave the inputs of non-mutating calls unchanged, and on any error leave the memspace as it was. "
  "Targets given out describe the machine's nodes truthfully, and a provider created from a memspace and policy uses exactly the selected nodes and mode.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of memspace operations over sets of node ids, all filter callbacks including failing ones, all policies",
  "tests use the one or two nodes of the machine and fixed callbacks",
  ["src/memspace.c", "src/memtarget.c", "src/memtargets/memtarget_numa.c", "src/mempolicy.c", "src/memspaces/memspace_numa.c", "src/memspaces/memspace_host_all.c", "src/memspaces/memspace_highest_capacity.c", "src/memspaces/memspace_highest_bandwidth.c", "src/memspaces/memspace_lowest_latency.c"],
  [("target arrays rebuilt per change", "src/memspace.c"), ("policy to provider parameter translation", "src/memtargets/memtarget_numa.c")],
  [], ["umfMemspace*", "umfMemtarget*", "umfMempolicy*", "umfMemoryProviderCreateFromMemspace"])

prop("C19", "Control queries find the right node and never corrupt state",
  "A control query by path reaches exactly the node the path names with the given context and argument, with index components delivered as given; unknown paths, wrong access kinds and malformed configuration text are reported as errors without calling any handler and without leaking or damaging state. "
  "Configuration strings and files are applied completely in order, and values outside a parameter's range are rejected.",
  ["inputs", "programs", "histories"],
  "all query strings, trees of nodes, configuration texts and argument types",
  "tests query a dozen fixed strings on one debug tree; malformed and long inputs are not explored",
  ["src/ctl/ctl.c", "src/ctl/ctl.h", "src/memory_pool.c", "src/memory_provider.c", "src/libumf.c", "src/provider/provider_os_memory.c", "src/pool/pool_scalable.c"],
  [("path tokenizer and node lookup", "src/ctl/ctl.c"), ("argument parsers", "src/ctl/ctl.c")],
  [], ["ctl_query", "ctl_load_config_from_string/file", "umfCtlGet/Set/Exec"])

prop("C20", "Log output is complete, filtered and never damages the caller",
  "Each message at or above the configured level appears exactly once, as one uninterrupted line with its level and text (marked when truncated), in the configured output, and messages below the level never appear; messages of any length from any number of threads are safe. "
  "Logging never changes the caller's error state, and a malformed logging configuration disables logging instead of misdirecting it.",
  ["inputs", "schedules", "configurations"],
  "all message lengths and contents, all logger settings and environment strings, any number of threads",
  "tests compare a few messages and settings",
  ["src/utils/utils_log.c", "src/utils/utils_log.h", "src/utils/utils_common.c"],
  [("line composed in a local buffer, one write per record", "src/utils/utils_log.c"), ("option parsing", "src/utils/utils_common.c")],
  [], ["the log stream"])

prop("C21", "The proxy library is a faithful malloc replacement",
  "With the proxy library preloaded, any program's malloc, calloc, realloc, aligned_alloc, free and malloc_usable_size keep their C semantics: disjoint aligned live blocks, zeroed calloc, preserved realloc prefix, safe free of any earlier result including those obtained before the library was ready, for any number of threads. "
  "With a size threshold set, requests below it are served by the system allocator and the others by the pool, and every combination of realloc and free across the boundary works.",
  ["programs", "histories", "schedules", "configurations"],
  "all programs and allocation histories, all thresholds and page dispositions",
  "the proxy tests run a few unit tests and gtest binaries under the library; realloc across the threshold and concurrent histories are not checked for content",
  ["src/proxy_lib/proxy_lib.c", "src/proxy_lib/proxy_lib_linux.c", "src/base_alloc/base_alloc_linear.c", "src/pool/pool_scalable.c"],
  [("dispatch between leak allocator, pool and system allocator", "src/proxy_lib/proxy_lib.c")],
  [], ["malloc family in a process with LD_PRELOAD=libumf_proxy.so"])

prop("C22", "The Level Zero provider honours the driver's contract",
  "Every driver allocation made by a Level Zero provider is released through the driver exactly once with the configured free policy, including when a later step of the same operation fails; memory type, device, ordinal, alignment, residency devices and size relaxation are passed as configured. "
  "Driver errors are reported as the documented result codes with the native code retrievable in the failing thread, and IPC handles are opened, put and closed once each.",
  ["configurations", "fault_sequences", "histories", "inputs"],
  "all provider parameter combinations, all driver results at each driver call, all allocation and IPC histories",
  "the tests need a GPU and do not run here; error results of the driver are never exercised",
  ["src/provider/provider_level_zero.c", "src/utils/utils_level_zero.cpp"],
  [("driver entry points resolved at first use", "src/provider/provider_level_zero.c"), ("result translation", "src/provider/provider_level_zero.c")],
  [], ["driver calls recorded by a stand-in Level Zero loader"])

prop("C23", "Parameter objects are independent copies with validated setters",
  "A parameter object holds its own copy of everything set on it, so later changes to the caller's data or to the object never affect providers and pools already created from it, and a setter given invalid input reports an error and leaves the object unchanged. "
  "Values set are exactly those the created provider or pool uses, unset ones keep their documented defaults, and destroying the object releases everything.",
  ["inputs", "histories", "configurations"],
  "all setters of all parameter objects, all values, all orders of set/create/modify/destroy",
  "tests set one valid and one NULL value per setter",
  ["src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/provider/provider_devdax_memory.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_level_zero.c", "src/pool/pool_disjoint.c", "src/pool/pool_scalable.c"],
  [("deep copies in setters and initialize", "providers and pools")],
  [], ["created provider and pool behaviour", "umf*Params* functions"])

prop("C24", "Initialization and teardown are safe, complete and repeatable",
  "The library can be initialized and torn down any number of times, nested and from several threads: after any successful initialization call the library is fully usable by that caller, teardown takes effect only when the last user leaves and releases what the library allocated, and a later initialization gives a library that works like the first. "
  "Predefined memspaces and lazily loaded dependencies work again after such a cycle.",
  ["histories", "schedules", "fault_sequences"],
  "all nestings, repetitions and thread interleavings of init/teardown with use in between",
  "one test calls init/teardown a few times sequentially in one process",
  ["src/libumf.c", "src/libumf_linux.c", "src/topology.c", "src/memspaces/memspace_host_all.c", "src/memspaces/memspace_lowest_latency.c", "src/base_alloc/base_alloc_global.c", "src/ipc_cache.c", "src/ctl/ctl.c"],
  [("reference counter", "src/libumf.c"), ("once flags reset on destroy", "src/topology.c, src/memspaces")],
  [("umfRefCount", "number of users", "libumf.c")],
  ["umfInit", "umfTearDown", "umfMemspaceHostAllGet", "/proc/self/maps"])

prop("C25", "Concurrent API use is free of data races and memory errors",
  "When threads use the public API concurrently within its rules (shared or separate pools and providers, lookups, IPC, statistics, error queries), no execution has an unsynchronized conflicting access (other than the address index's own optimistic reads), a use of freed or foreign memory, undefined behaviour, a deadlock or an internal assertion failure. "
  "Results each thread observes are those of some sequential order of the calls.",
  ["schedules", "programs", "histories"],
  "all multithreaded programs obeying the documented rules and all their schedules",
  "the multithreaded tests run one loop per API without race detection, and cannot control the schedule",
  ["src/pool/pool_disjoint.c", "src/provider/provider_tracking.c", "src/critnib/critnib.c", "src/coarse/coarse.c", "src/ipc_cache.c", "src/base_alloc/base_alloc.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/memory_pool.c"],
  [("locks and atomics of each component", "src/utils/utils_concurrency.h")],
  [], ["ThreadSanitizer and AddressSanitizer instrumentation of the whole library"])

prop("C26", "The CUDA provider maps each operation to the driver, in its context",
  "Each allocation, free, page-size query and IPC operation of a CUDA provider becomes exactly one driver call of the kind its memory type asks for, with the caller's size, the configured flags and device, made while the provider's context is current, and the calling thread's own current context is unchanged afterwards, also on failure. "
  "Driver failures are reported as the documented result codes with the native code and its text retrievable in the failing thread only; memory and mappings are given back to the driver exactly once; invalid configurations and a missing or incomplete driver library are refused and leave nothing behind, and providers work again after umfTearDown and umfInit.",
  ["configurations", "fault_sequences", "histories", "inputs"],
  "all parameter combinations, all driver results at each driver call, all operation histories, all current contexts of the calling threads",
  "the tests need a GPU and do not run here; a thread's context being restored on failing paths is never exercised",
  ["src/provider/provider_cuda.c"],
  [("driver entry points resolved at first use", "src/provider/provider_cuda.c"), ("set_context and its restoration", "src/provider/provider_cuda.c")],
  [], ["driver calls and contexts recorded by a stand-in CUDA driver"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
