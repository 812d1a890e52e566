"""Registry of checks: which harness, in which instrumented variant, with how
many cases decides each property."""

SCHED = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
         "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once"]

def job(name, variant, exe, srcs, quick, thorough, mode=None, wraps=(), **kw):
    d = dict(name=name, variant=variant, exe=exe, srcs=["main.cpp"] + list(srcs), quick=quick,
             thorough=thorough, mode=mode, wraps=list(wraps))
    if variant == "sched":
        d["srcs"].append("sched.cpp")
        d["wraps"] = d["wraps"] + [w for w in SCHED if w not in d["wraps"]]
    if variant in ("tsand", "asand"):
        d["srcs"].append("delay.cpp")
    d.update(kw)
    return d

CHECKS = {}

def check(pid, jobs, rule, technique, note, level="exploration", floor=None, assumptions=None):
    CHECKS[pid] = dict(jobs=jobs, rule=rule, technique=technique, note=note, level=level,
                       floor=floor or {}, assumptions=assumptions or [])

BA_WRAPS = ["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free",
            "umf_ba_global_malloc_usable_size", "umf_ba_create", "umf_ba_alloc", "umf_ba_free", "umf_ba_destroy"]

check("C10", [
    job("seq", "asan", "c10s", ["c10_critnib.cpp", "ba.cpp"], 20000, 200000, mode="seq", wraps=BA_WRAPS, defs=["-DWITH_BA"]),
    job("sched", "sched", "c10", ["c10_critnib.cpp"], 50000, 800000, mode="conc"),
    job("threads", "plain", "c10", ["c10_critnib.cpp"], 400, 20000, mode="conc", shards=3),
],
    rule="a case is a seeded history (keys of one of 7 adversarial shapes, operations, schedule); distinct = distinct operation sequences (seq) or distinct interleavings (conc)",
    technique="reference-model monitoring and linearizability checking of recorded histories under a deterministic load/store-level scheduler, real threads, ASan and TSan",
    note="held on the executions counted; sequentially consistent interleavings only in the scheduler job",
    floor={"histories": 1000, "searches": 1000, "neighbour_checked": 1000},
    assumptions=["values are non-NULL (the map cannot represent a NULL value)"])

check("C11", [
    job("single", "asan", "c11", ["c11_ba.cpp"], 2400, 60000, mode="st", wraps=["mmap", "munmap"]),
    job("sched", "sched", "c11", ["c11_ba.cpp"], 3000, 120000, mode="mt", wraps=["mmap", "munmap"]),
    job("threads", "asan", "c11", ["c11_ba.cpp"], 90, 6000, mode="mt", wraps=["mmap", "munmap"], shards=3),
    job("tsan", "tsan", "c11", ["c11_ba.cpp"], 30, 1500, mode="mt", wraps=["mmap", "munmap"], shards=3),
],
    rule="a case drives one of the three internal allocators with a seeded history of allocations and frees; distinct = distinct (shape, history, interleaving)",
    technique="shadow-map monitoring of live blocks with byte patterns and an mmap ledger; ASan, TSan and a deterministic scheduler",
    note="held on the executions counted; metadata-allocation failures are decided by C13",
    floor={"allocs": 10000, "frees": 10000})

check("C12", [
    job("model", "asan", "c12", ["c12_ravl.cpp", "ba.cpp"], 4000, 300000, wraps=BA_WRAPS),
],
    rule="a case is a seeded history of inserts, removes, searches, traversals and clears (random, ascending, descending, zig-zag keys); distinct = distinct operation sequences",
    technique="reference-model (std::map) monitoring with comparison counting and node ledger under ASan",
    note="held on the histories counted; the depth bound checked is log_phi(insertions since empty)+2",
    floor={"searches": 1000, "full_checks": 100})


RCONC = dict(exe="regionmt", srcs=["c04_conc.cpp"], wraps=["mmap", "utils_devdax_open"])
REGION = dict(exe="region", srcs=["c04_region.cpp", "ba.cpp"], wraps=BA_WRAPS + ["mmap", "utils_devdax_open"])
check("C04", [
    job("coarse", "asan", quick=15000, thorough=150000, mode="coarse", **REGION),
    job("coarsecb", "asan", quick=15000, thorough=150000, mode="coarsecb", **REGION),
    job("fixed", "asan", quick=12000, thorough=150000, mode="fixed", **REGION),
    job("file", "asan", quick=2500, thorough=20000, mode="file", **REGION),
    job("devdax", "asan", quick=4000, thorough=20000, mode="devdax", **REGION),
    job("threads", "asan", quick=600, thorough=20000, mode="region", shards=3, **RCONC),
    job("tsan", "tsan", quick=300, thorough=10000, mode="region", shards=3, **RCONC),
    job("sched", "sched", quick=6000, thorough=200000, mode="regionsched", **RCONC),
],
    rule="a case is one provider (coarse library with each strategy and refusing callbacks, fixed, file, DAX stand-in) under a seeded history of allocations, frees, splits, merges and invalid calls; distinct = distinct histories",
    technique="reference-model (interval map) monitoring of every result, byte patterns, statistics and metadata ledger under ASan/UBSan",
    note="held on the histories counted; device DAX is a scratch file mapped without MAP_SYNC",
    floor={"allocs": 20000, "frees": 10000, "splits": 1000, "merges": 500, "whole_region": 200})

check("C07", [
    job("file", "asan", quick=2500, thorough=30000, mode="c07", **REGION),
    job("threads", "asan", quick=500, thorough=20000, mode="file", shards=3, **RCONC),
    job("tsan", "tsan", quick=300, thorough=10000, mode="file", shards=3, **RCONC),
    job("sched", "sched", quick=5000, thorough=200000, mode="filesched", **RCONC),
],
    rule="a case is one file provider (mostly shared visibility) under a seeded history of allocations (all alignments), frees, splits and merges; distinct = distinct histories",
    technique="content monitoring: byte patterns of every live allocation against the memory, the backing file and opened IPC mappings, under ASan/UBSan",
    note="held on the histories counted, on the sandbox's regular file system (no FSDAX)",
    floor={"allocs": 4000, "file_ranges_found": 2000, "ipc_opened": 500, "reuse_rounds": 100})

POOL = dict(exe="pool", srcs=["c01_pool.cpp", "ba.cpp"], wraps=BA_WRAPS)
# concurrent jobs keep the real metadata allocators: readers of the tracker and
# of critnib rely on their memory staying type-stable
POOLS = dict(exe="poolmt", srcs=["c01_pool.cpp"])
# the jemalloc pool on a stand-in for jemalloc
POOLJ = dict(exe="poolje", srcs=["c01_pool.cpp", "je_fake.cpp", "ba.cpp"], wraps=BA_WRAPS, defs=["-DWITH_JE"])
POOLJS = dict(exe="pooljemt", srcs=["c01_pool.cpp", "je_fake.cpp"], defs=["-DWITH_JE", "-DNO_BA"])
check("C01", [
    job("single", "asan", quick=5000, thorough=200000, mode="st", **POOL),
    job("je", "asan", quick=3000, thorough=100000, mode="st", **POOLJ),
    job("jemt", "asan", quick=300, thorough=10000, mode="mt", shards=2, **POOLJS),
    job("jechurn", "tsan", quick=100, thorough=5000, mode="churn", shards=2, **POOLJS),
    job("threads", "asan", quick=500, thorough=20000, mode="mt", shards=3, **POOLS),
    job("tsan", "tsan", quick=150, thorough=6000, mode="mt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **POOLS),
    job("sched", "sched", quick=6000, thorough=300000, mode="sched", **POOLS),
],
    rule="a case is a stack of pools (disjoint with random slab/limit/bucket configuration, scalable, jemalloc on a stand-in, proxy; up to 3 levels) on a recording, OS or fixed provider under a seeded history from one or several threads; distinct = distinct histories or interleavings",
    technique="interval-map and byte-pattern monitoring of every live allocation, containment in the provider ledger, ASan on provider memory and metadata, deterministic scheduler",
    note="held on the executions counted; the jemalloc pool runs on a stand-in for jemalloc (library absent) that calls the pool's extent hooks in every way their documentation allows",
    floor={"allocs": 20000, "frees": 20000, "impossible": 200, "reallocs_zero": 500, "churned_pools": 500, "je_splits": 10000, "je_merges": 5000, "je_dallocs": 10000})

check("C02", [
    job("single", "asan", quick=5000, thorough=200000, mode="st", seedmix=2, **POOL),
    job("je", "asan", quick=2000, thorough=100000, mode="st", seedmix=2, **POOLJ),
    job("jechurn", "asan", quick=150, thorough=5000, mode="churn", seedmix=2, shards=2, **POOLJS),
    job("threads", "asan", quick=500, thorough=20000, mode="mt", shards=3, seedmix=2, **POOLS),
    job("tsan", "tsan", quick=150, thorough=6000, mode="mt", shards=3, seedmix=2, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **POOLS),
    job("sched", "sched", quick=6000, thorough=300000, mode="sched", seedmix=2, **POOLS),
],
    rule="a case is a stack of pools on a recording provider under a seeded history, ended by destroying the pools in order; distinct = distinct histories or interleavings",
    technique="conservation monitoring of an exact provider ledger (every free/split/merge matched against a live block of that address and size), ASan, deterministic scheduler",
    note="held on the executions counted; what a pool releases before it is destroyed is constrained only by C15",
    floor={"destroyed_clean": 500, "provider_frees": 5000, "churned_pools": 500, "je_create_failed": 50, "je_destroyed": 2000})

check("C15", [
    job("limits", "asan", quick=4000, thorough=200000, mode="lim", **POOL),
    job("threads", "asan", quick=300, thorough=20000, mode="limmt", shards=3, **POOLS),
    job("tsan", "tsan", quick=150, thorough=6000, mode="limmt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **POOLS),
    job("sched", "sched", quick=8000, thorough=400000, mode="limsched", **POOLS),
],
    rule="a case is one or several disjoint pools (random slab size, capacity, pooling limit, shared limits) under a seeded history; distinct = distinct histories or interleavings",
    technique="reference-model monitoring: every provider allocation and free predicted or bounded from the configured limits over an exact ledger; deterministic scheduler for shared limits",
    note="held on the histories counted",
    floor={})

OSW = ["mmap", "munmap", "hwloc_topology_load", "hwloc_set_area_membind", "hwloc_bitmap_alloc", "hwloc_bitmap_dup",
       "hwloc_bitmap_free", "madvise", "ftruncate", "shm_open"]
OS = dict(exe="os", srcs=["c06_os.cpp", "ba.cpp"], wraps=BA_WRAPS + OSW)
OSS = dict(exe="osmt", srcs=["c06_os.cpp"], defs=["-DNO_BA"], wraps=OSW)
TRACK = dict(exe="track", srcs=["c03_track.cpp", "ba.cpp"], wraps=BA_WRAPS)
TRACKS = dict(exe="trackmt", srcs=["c03_track.cpp"], defs=["-DNO_BA"])
check("C03", [
    job("single", "asan", quick=8000, thorough=300000, mode="st", **TRACK),
    job("threads", "asan", quick=240, thorough=12000, mode="mt", shards=3, **TRACKS),
    job("tsan", "tsan", quick=150, thorough=6000, mode="mt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **TRACKS),
    job("sched", "sched", quick=12000, thorough=600000, mode="sched", **TRACKS),
],
    rule="a case is a tree of pools (roots on recording providers, nested over blocks of other pools by fixed and pool-backed providers, up to and beyond the supported depth, some untracked) under a seeded history of allocations, frees, splits, merges and refusals, single-threaded or with concurrent lookups; distinct = distinct histories or interleavings",
    technique="reference-model (region tree) monitoring of every lookup at region edges and interiors, ASan on tracker metadata, deterministic load/store-level scheduler and real threads",
    note="held on the lookups and interleavings counted; lookups are made with the public umfPoolByPtr and umfFree",
    floor={"lookups_nested": 20000, "lookups_none": 5000, "lookups_level0": 20000, "splits": 1000, "merges": 1000, "too_deep": 50})

check("C05", [
    job("tracksplit", "asan", quick=8000, thorough=300000, mode="split", **TRACK),
    job("trackmt", "asan", quick=150, thorough=8000, mode="mt", shards=3, seedmix=3, **TRACKS),
    job("tracktsan", "tsan", quick=100, thorough=4000, mode="mt", shards=3, seedmix=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **TRACKS),
    job("tracksched", "sched", quick=6000, thorough=400000, mode="sched", seedmix=3, **TRACKS),
    job("coarse", "asan", quick=8000, thorough=100000, mode="coarsecb", seedmix=3, **REGION),
    job("fixed", "asan", quick=6000, thorough=100000, mode="fixed", seedmix=3, **REGION),
    job("file", "asan", quick=1500, thorough=15000, mode="file", seedmix=3, **REGION),
    job("os", "asan", quick=2000, thorough=60000, mode="split", seedmix=3, **OS),
],
    rule="a case is a tree of tracked pools, or one region-carving provider, under a seeded history rich in splits and merges (nested, refused by the provider, with IPC handles cached); distinct = distinct histories or interleavings",
    technique="reference-model (region tree, provider ledger) monitoring of lookups, sizes, upstream calls and byte patterns across splits and merges; ASan; deterministic scheduler",
    note="held on the histories counted; merges a debug build refuses by assertion are not attempted",
    floor={"splits": 5000, "merges": 2000})

check("C06", [
    job("main", "asan", quick=1200, thorough=100000, mode="main", **OS),
    job("fault", "asan", quick=1200, thorough=100000, mode="fault", **OS),
    job("threads", "asan", quick=150, thorough=10000, mode="mt", shards=3, **OSS),
    job("tsan", "tsan", quick=60, thorough=4000, mode="mt", shards=3, **OSS),
    job("sched", "sched", quick=2000, thorough=200000, mode="sched", **OSS),
],
    rule="a case is one OS provider (private, shared by descriptor, shared by name; every protection; NUMA modes) under a seeded history of allocations, frees, splits, merges, purges and IPC round trips, with or without failing system calls, from one or several threads; distinct = distinct histories or interleavings",
    technique="an exact ledger of the library's own mmap/munmap calls, /proc/self/maps and byte-pattern monitoring, statistics against a reference; ASan, TSan, deterministic scheduler",
    note="held on the executions counted; failures are injected at the system-call boundary",
    floor={"allocs": 10000, "frees": 5000, "ledger_checks": 10000})

check("C17", [
    job("numa", "asan", quick=4000, thorough=300000, mode="numa", **OS),
],
    rule="a case is one NUMA configuration (mode, node list, part size, partitions) on a synthetic topology of 1-7 nodes with a history of allocations; distinct = distinct configurations",
    technique="monitoring of every memory-binding call the provider makes against a reference placement, with failing bindings",
    note="held on the configurations counted; the kernel's own placement is outside (one node here): the monitored fact is the binding requested for every page",
    floor={"binds": 10000, "split_pages": 10000, "bogus_refused": 100})

IPC = dict(exe="ipc", srcs=["c08_ipc.cpp", "ba.cpp"], wraps=BA_WRAPS)
IPCS = dict(exe="ipcmt", srcs=["c08_ipc.cpp"], defs=["-DNO_BA"])
LIM = lambda n: dict(env={"UMF_MAX_OPENED_IPC_HANDLES": str(n)})
check("C08", [
    job("st", "asan", quick=4000, thorough=100000, mode="st", **IPC),
    job("lim2", "asan", quick=2000, thorough=50000, mode="st", seedmix=1, **LIM(2), **IPC),
    job("fault", "asan", quick=3000, thorough=50000, mode="fault", **IPC),
    job("devdax", "asan", quick=900, thorough=30000, mode="c08dax", **REGION),
    job("xproc", "asan", quick=1200, thorough=20000, mode="xproc", shards=4, **IPC),
    job("threads", "asan", quick=2000, thorough=12000, mode="mt", shards=3, **IPCS),
    job("tsan", "tsan", quick=400, thorough=4000, mode="mt", shards=3, seedmix=7, **IPCS),
    job("sched", "sched", quick=7000, thorough=200000, mode="sched", **IPCS),
],
    rule="a case is a world of 2-4 pools (proxy, disjoint, scalable) on recording providers over a memory file, the OS provider or the file provider, with a seeded history of allocations, exports, opens, writes on both sides, closes, frees with address reuse, and pool destruction; or concurrent users; or a second process; distinct = distinct histories or interleavings",
    technique="byte-exact comparison of exported and opened memory in both directions, an exact ledger of provider-side handles and mappings behind a recording provider, ASan, deterministic scheduler",
    note="held on the executions counted; cross-process descriptors of the OS provider only where the kernel permits pidfd_getfd",
    floor={"exports": 5000, "mappings_opened": 1000, "xproc_roundtrips": 300, "mt_opens": 1000})
check("C09", [
    job("st", "asan", quick=2500, thorough=100000, mode="st", seedmix=2, **IPC),
    job("lim1", "asan", quick=2500, thorough=60000, mode="st", seedmix=3, **LIM(1), **IPC),
    job("lim3", "asan", quick=2500, thorough=60000, mode="st", seedmix=4, **LIM(3), **IPC),
    job("limfault", "asan", quick=2500, thorough=60000, mode="fault", seedmix=5, **LIM(2), **IPC),
    job("threads", "asan", quick=1500, thorough=12000, mode="mt", shards=3, seedmix=6, **LIM(1), **IPCS),
    job("tsan", "tsan", quick=800, thorough=4000, mode="mt", shards=3, seedmix=6, **LIM(2), **IPCS),
    job("sched", "sched", quick=7000, thorough=200000, mode="sched", seedmix=6, **LIM(1), **IPCS),
],
    rule="as for C08, with UMF_MAX_OPENED_IPC_HANDLES unset, 1, 2 and 3 and failing opens; distinct = distinct histories or interleavings",
    technique="model of the mapping cache (use counts, least-recently-opened order, limit) over an exact ledger of provider opens and closes; ASan, TSan, deterministic scheduler",
    note="held on the executions counted",
    floor={"evictions": 500, "cache_hits": 1000, "mappings_opened": 1000, "consumers_destroyed": 100})

INITW = ["mmap", "munmap", "hwloc_topology_init", "hwloc_topology_destroy", "dlopen", "dlclose"]
INIT = dict(exe="init", srcs=["c24_init.cpp", "ba.cpp"], wraps=BA_WRAPS + ["umf_ba_global_is_destroyed"] + INITW)
INITS = dict(exe="initmt", srcs=["c24_init.cpp"], defs=["-DNO_BA"], wraps=INITW)
check("C24", [
    job("st", "asan", quick=600, thorough=30000, mode="st", **INIT),
    job("stba", "asan", quick=600, thorough=30000, mode="st", seedmix=1, **INITS),
    job("threads", "asan", quick=400, thorough=20000, mode="mt", shards=3, **INITS),
    job("tsan", "tsan", quick=1000, thorough=30000, mode="mt", shards=6, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **INITS),
    job("sched", "sched", quick=2000, thorough=100000, mode="sched", **INITS),
],
    rule="a case is a seeded history of umfInit and umfTearDown (nested, failing, concurrent) with uses of pools, providers, control queries, memspaces and IPC in between; distinct = distinct histories or interleavings",
    technique="behavioural probes of every part after each initialization and an exact account of metadata, mappings, descriptors, topologies and libraries after the last teardown; ASan, TSan, deterministic scheduler",
    note="held on the executions counted",
    floor={"clean_checks": 500, "inits": 500, "mt_cycles": 500})

API = dict(exe="api", srcs=["c16_api.cpp", "ba.cpp"], wraps=BA_WRAPS)
APIS = dict(exe="apimt", srcs=["c16_api.cpp"], wraps=[], defs=["-DNO_BA"])
check("C16", [
    job("seq", "asan", quick=12000, thorough=400000, mode="seq", **API),
    job("threads", "asan", quick=1500, thorough=60000, mode="mt", shards=3, **APIS),
    job("tsan", "tsan", quick=1000, thorough=40000, mode="mt", shards=3, **APIS),
    job("sched", "sched", quick=8000, thorough=300000, mode="sched", **APIS),
],
    rule="a case is a seeded history of API calls on several providers and pools whose callbacks record what reaches them; distinct = distinct histories or interleavings",
    technique="recording callbacks compared call by call with the caller's view; exact account of callbacks and metadata; conservation of exchanged tags; ASan, TSan, deterministic scheduler",
    note="held on the executions counted; pool operation tables with missing callbacks are not validated by the library and not judged",
    floor={"forwarded": 10000, "refused": 1000, "tag_exchanges": 1000, "failed_init": 50})

ERRW = ["mmap", "munmap", "madvise", "hwloc_set_area_membind"]
ERR = dict(exe="err", srcs=["c14_err.cpp", "ba.cpp"], wraps=BA_WRAPS + ERRW)
ERRS = dict(exe="errmt", srcs=["c14_err.cpp"], wraps=ERRW, defs=["-DNO_BA"])
check("C14", [
    job("pool", "asan", quick=6000, thorough=60000, mode="pool", **ERR),
    job("threads", "asan", quick=5000, thorough=80000, mode="mt", shards=3, **ERRS),
    job("native", "asan", quick=1500, thorough=20000, mode="native", shards=3, **ERRS),
    job("tsan", "tsan", quick=1000, thorough=20000, mode="mt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **ERRS),
    job("nativetsan", "tsan", quick=100, thorough=5000, mode="native", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **ERRS),
    job("sched", "sched", quick=12000, thorough=200000, mode="sched", **ERRS),
],
    rule="a case is a seeded history of failing and succeeding operations of several threads on shared providers and pools; distinct = distinct histories or interleavings",
    technique="per-thread model of the last failure compared with the error queries after every operation, injected provider, system-call and metadata failures; ASan, TSan, deterministic scheduler",
    note="held on the executions counted; the disjoint pool may report out of memory instead of the provider's code for sizes served from slabs",
    floor={"failures": 10000, "native_checked": 1000, "pool_failures": 1000, "metadata_failures": 50})

FW = ["umf_ba_global_is_destroyed", "mmap", "munmap", "pthread_mutex_init", "pthread_rwlock_init", "ftruncate", "posix_fallocate", "utils_file_open",
      "utils_file_open_or_create", "utils_create_anonymous_fd", "utils_devdax_open", "shm_open", "madvise", "hwloc_topology_init",
      "hwloc_topology_load", "hwloc_topology_destroy", "hwloc_set_area_membind", "hwloc_bitmap_alloc", "hwloc_bitmap_dup",
      "hwloc_bitmap_free", "hwloc_memattr_get_value", "dlopen", "dlclose"]
FAULT = dict(exe="fault", srcs=["c13_fault.cpp", "ba.cpp"], wraps=BA_WRAPS + FW)
check("C13", [
    job("acquire", "asan", quick=240, thorough=6000, mode="acquire", **FAULT),
    job("release", "asan", quick=120, thorough=3000, mode="release", **FAULT),
],
    rule="a case is one seeded scenario (one of 20 kinds: every pool, provider, memspace, parameter, IPC, control and internal-map scenario) run once without a fault and then again for every fallible step of it (quick: at most 60 sampled steps), failing that step, a burst of steps or a pair; distinct = distinct (scenario, failing steps)",
    technique="systematic fault injection at every metadata allocation, provider call and system call a scenario reaches; monitors: result and recovery of each operation, byte patterns of live allocations, exact account of provider blocks, metadata, mappings, descriptors, node sets and topologies at the end; ASan/UBSan",
    note="held for the scenarios and failing steps counted; failures of steps that release something are injected in a separate job that does not account for leaks",
    level="fault_enumeration",
    floor={"fault_runs": 3000, "operations_with_fault": 3000, "recoveries": 1000, "accounts": 3000})

CTL = dict(exe="ctl", srcs=["c19_ctl.cpp", "ba.cpp"], wraps=BA_WRAPS)
CTLS = dict(exe="ctlmt", srcs=["c19_ctl.cpp"], defs=["-DNO_BA"])
check("C19", [
    job("query", "asan", quick=60000, thorough=600000, mode="query", **CTL),
    job("config", "asan", quick=25000, thorough=300000, mode="config", **CTL),
    job("file", "asan", quick=5000, thorough=60000, mode="file", **CTL),
    job("api", "asan", quick=1500, thorough=30000, mode="api", **CTL),
    job("threads", "tsan", quick=1000, thorough=12000, mode="threads", env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **CTLS),
],
    rule="a case is a generated tree of named, indexed, leaf and subtree nodes under a seeded series of queries or configuration texts (paths of the tree, edited paths, garbage), or the public functions on every kind of provider and pool; distinct = distinct sequences of (node reached, access)",
    technique="model-based monitoring: the path is resolved independently through the generated tree and every handler call is recorded and compared (node, context, argument, indexes, value, order); metadata ledger, ASan/UBSan, TSan",
    note="held on the trees and texts counted; spellings the grammar does not settle (empty path components, signs and blanks before numbers, text after numbers, surplus values) are run but only judged for memory safety",
    floor={"queries": 50000, "not_found": 10000, "found_leaf": 5000, "found_indexed": 1000, "found_subtree": 1000, "strings": 5000, "files": 3000, "settings": 5000, "api_forwarded": 1000})

SPW = ["mmap", "hwloc_topology_init", "hwloc_topology_load", "hwloc_topology_destroy", "hwloc_memattr_get_value", "hwloc_set_area_membind"]
SPACE = dict(exe="space", srcs=["c18_memspace.cpp", "ba.cpp"], wraps=BA_WRAPS + ["umf_ba_global_is_destroyed"] + SPW)
SPACES = dict(exe="spacemt", srcs=["c18_memspace.cpp"], defs=["-DNO_BA"], wraps=SPW)
check("C18", [
    job("space", "asan", quick=15000, thorough=150000, mode="space", **SPACE),
    job("predef", "asan", quick=10000, thorough=100000, mode="predef", **SPACE),
    job("policy", "asan", quick=12000, thorough=100000, mode="policy", **SPACE),
    job("threads", "tsan", quick=2500, thorough=20000, mode="mt", env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **SPACES),
],
    rule="a case is a seeded history of 10-60 operations on up to 10 memory spaces over the nodes of a generated machine (and ids of no node), or a machine whose predefined memory spaces, policies and providers are examined; distinct = distinct sequences of (operation, result, sizes) or machines",
    technique="model-based monitoring: memory spaces against sequences of ids after every operation, predefined spaces against the generated machine (a synthetic topology with sparse node numbers, shared CPUs, arbitrary capacities and memory attributes), providers made from memory spaces against OS providers made directly by their recorded memory-binding calls; failing callbacks and metadata allocations; metadata ledger, ASan/UBSan, TSan",
    note="held on the histories and machines counted; the machines are synthetic (this sandbox has one node) and binding is recorded instead of performed; arrays of ids with repetitions are not judged",
    floor={"ops": 50000, "contents_checked": 200000, "filtered_by_id": 2000, "filtered_by_capacity": 2000, "filtered_by_user": 2000, "best_checked": 2000, "providers": 1000, "binds": 5000, "mt_users": 500})

LOGW = dict(exe="log", srcs=["c20_log.cpp"], env={"UMF_LOG": None})
check("C20", [
    job("conf", "asan", quick=8000, thorough=100000, mode="conf", **LOGW),
    job("cycle", "asan", quick=400, thorough=10000, mode="cycle", **LOGW),
    job("threads", "tsan", quick=1000, thorough=20000, mode="threads", **LOGW),
],
    rule="a case is one generated UMF_LOG value with 1-25 messages logged in a child whose outputs are captured, a run of library initializations with a log file, or several threads logging 5-40 messages each into one file; distinct = distinct (settings, sequence of levels and lengths), or orders of lines from the threads",
    technique="captured-output monitoring: every line in the log file, stdout and stderr is parsed and compared with a model of the settings and messages (exactly once, in order, complete or marked, right place), visibility after each message at the flush level, errno before and after each call (also with an output that refuses data), descriptor count; ASan/UBSan, TSan",
    note="held on the settings and messages counted; messages contain no line ends; options given twice with different values are not judged",
    floor={"lines_checked": 10000, "flush_checks": 5000, "disabled": 300, "truncated_lines": 500, "mt_lines": 10000, "cycles": 500})

ZEW = ["dlopen", "dlclose", "dlsym"]
ZE = dict(exe="ze", srcs=["c22_ze.cpp", "ba.cpp"], wraps=BA_WRAPS + ["umf_ba_global_is_destroyed"] + ZEW)
ZES = dict(exe="zemt", srcs=["c22_ze.cpp"], defs=["-DNO_BA"], wraps=ZEW)
check("C22", [
    job("prov", "asan", quick=60000, thorough=1000000, mode="prov", **ZE),
    job("lib", "asan", quick=10000, thorough=150000, mode="lib", **ZES),
    job("xproc", "asan", quick=600, thorough=10000, mode="xproc", shards=4, **ZES),
    job("threads", "tsan", quick=1500, thorough=30000, mode="mt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **ZES),
],
    rule="a case is 1-3 providers with generated parameters (or a pool over one) on a stand-in driver of 1-4 devices under a seeded history of operations with driver failures, a run of library cycles with the driver library present, incomplete or missing, another process exporting handles, or threads sharing providers; distinct = distinct histories",
    technique="a recording stand-in for the Level Zero loader: every driver call is compared with the configuration and the operation that made it, and an exact ledger of driver allocations, IPC handles and mappings; each driver call in turn fails with each kind of driver result; ASan/UBSan, TSan",
    note="held on the histories counted; the driver is a stand-in (no device here) which follows the calls' documented contracts",
    floor={"driver_calls": 50000, "allocs": 10000, "failed_residency": 500, "native_checked": 2000, "ipc_roundtrips": 2000, "failed_creates": 1000, "relaxed": 1000, "lib_providers": 500, "lib_unavailable": 300, "pools": 1000, "xproc_dead": 30})

CUW = ["dlopen", "dlclose", "dlsym"]
CU = dict(exe="cuda", srcs=["c26_cuda.cpp", "ba.cpp"], defs=["-DWITH_CUDA"], wraps=BA_WRAPS + ["umf_ba_global_is_destroyed"] + CUW)
CUS = dict(exe="cudamt", srcs=["c26_cuda.cpp"], defs=["-DNO_BA", "-DWITH_CUDA"], wraps=CUW)
check("C26", [
    job("prov", "asan", quick=120000, thorough=3000000, mode="prov", **CU),
    job("lib", "asan", quick=8000, thorough=100000, mode="lib", **CU),
    job("threads", "tsan", quick=1500, thorough=30000, mode="mt", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **CUS),
],
    rule="a case is 1-3 providers with generated parameters (or pools over them) on a stand-in driver of 8 devices and 4 contexts under a seeded history of operations from threads whose current context varies, with driver failures at any call; a run of library cycles with the driver library present, incomplete or missing; or threads sharing providers; distinct = distinct (configuration, history, failures)",
    technique="a recording stand-in for the CUDA driver library: every driver call is compared with the configuration and the operation that made it, the context current at the call and after the operation, and an exact ledger of driver memory and mappings; each driver call in turn fails with each kind of code; ASan, UBSan, metadata ledger; TSan with threads of different contexts",
    note="held on the histories counted; the driver is a stand-in (no device and no toolkit here: its declarations are in harness/cuda/cuda.h) which follows the calls' documented contracts; when the driver refuses to change or tell the current context, the context left behind is not judged",
    floor={"driver_calls": 300000, "allocs": 10000, "context_checked": 50000, "restored_other": 20000, "restored_same": 3000, "native_checked": 2000, "misaligned": 300, "alignment_refused": 1000, "ipc_opened": 2000, "failed_creates": 500, "invalid_configs": 500, "lib_unavailable": 300, "lib_providers": 500, "pools": 1000, "mt_threads": 500})

PAR = dict(exe="params", srcs=["c23_params.cpp", "ba.cpp"],
           wraps=BA_WRAPS + ["umf_ba_global_is_destroyed", "mmap", "munmap", "madvise", "ftruncate", "posix_fallocate", "shm_open", "hwloc_topology_load", "hwloc_set_area_membind", "utils_devdax_open"])
check("C23", [
    job("os", "asan", quick=8000, thorough=100000, mode="os", **PAR),
    job("file", "asan", quick=40000, thorough=100000, mode="file", **PAR),
    job("devdax", "asan", quick=8000, thorough=100000, mode="devdax", **PAR),
    job("fixed", "asan", quick=60000, thorough=100000, mode="fixed", **PAR),
    job("disjoint", "asan", quick=40000, thorough=100000, mode="disjoint", **PAR),
    job("disjlog", "asan", quick=20000, thorough=50000, mode="disjlog", **PAR),
    job("scalable", "asan", quick=20000, thorough=50000, mode="scalable", **PAR),
    job("ze", "asan", quick=20000, thorough=300000, mode="prov", **ZE),
],
    rule="a case is a generated set of parameter values, applied once to a fresh object and through a history (any order, repeated, overwritten, refused, without memory, from buffers destroyed at once) to another, which is then changed and destroyed while what was made from it is used; distinct = distinct (values, behaviour)",
    technique="differential monitoring: the system calls, memory bindings, provider requests and results of what the two objects make are recorded and must be equal, and agree with the values set; metadata ledger and descriptor count; ASan/UBSan",
    note="held on the values and histories counted; the jemalloc pool and CUDA parameters are not built here",
    floor={"sets": 50000, "sets_refused": 5000, "sets_without_memory": 2000, "traces_compared": 20000, "trace_events": 200000, "changed_after_creation": 5000, "destroyed_after_creation": 5000, "names_seen": 1000, "objects_used_again": 2000, "capacities": 5000, "long_paths": 300})

def _pxmod(b): b.build_pxmod("asan")
def _pxprog(b):
    b.build_program("c21prog", ["c21_prog.cpp"], [])
    b.build_program("libearly.so", ["c21_early.cpp"], [], shared=True)
PX = dict(exe="proxy", srcs=["c21_proxy.cpp"])
check("C21", [
    job("mod", "asan", quick=3000, thorough=30000, mode="mod", extra_build=[_pxmod], **PX),
    job("preload", "asan", quick=400, thorough=6000, mode="preload", shared=True, extra_build=[_pxprog], **PX),
    job("progs", "asan", quick=230, thorough=3000, mode="progs", shared=True, **PX),
],
    rule="a case is the proxy library opened as a module with a generated UMF_PROXY value and used by a seeded history before, during and after its pool's life; or a generated program under LD_PRELOAD; or a system program with generated input run with and without it; distinct = distinct histories, or outputs and settings",
    technique="shadow-model monitoring of every allocation call (interval map, contents, alignment, zeroing, owner by umfPoolByPtr, exact calls of a recording system allocator, kind of mapping in /proc/self/maps, IPC round trips) in process under ASan/UBSan with renamed entry points; self-checking programs and differential runs of system programs under LD_PRELOAD",
    note="held on the histories and programs counted; the proxy library uses the scalable pool here (no jemalloc); entry points it does not intercept (posix_memalign etc.) are out of scope; programs that fork run with private pages only, since a child shares the others with its parent",
    floor={"ops": 50000, "from_pool": 10000, "from_system": 3000, "from_early": 5000, "frees": 20000, "threaded": 300, "fatal": 20, "ipc": 50, "programs": 200, "prog_early": 2000, "system_programs": 100})

MIX = dict(exe="mix", srcs=["c25_mix.cpp"])
check("C25", [
    job("tsan", "tsan", quick=1500, thorough=30000, mode="threads", shards=3, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **MIX),
    job("tsandelay", "tsand", quick=600, thorough=15000, mode="threads", shards=4, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **MIX),
    job("asandelay", "asand", quick=1500, thorough=30000, mode="threads", shards=4, env={"HWLOC_PLUGINS_PATH": "/nonexistent"}, **MIX),
    job("sched", "sched", quick=6000, thorough=300000, mode="sched", **MIX),
],
    rule="a case is a generated set of 1-3 providers and 1-4 pools used by 2-4 threads, each with its own seeded history over the whole public API (pools and providers, hand-over of blocks, lookups, IPC, splits, statistics, errors, private pools, memory spaces, init/teardown); distinct = distinct histories, or interleavings under the deterministic scheduler",
    technique="ThreadSanitizer, AddressSanitizer and UBSan on mixed workloads with delays injected at basic blocks of the library, and a deterministic load/store-level scheduler with deadlock detection; contents of live blocks, lookups, per-thread errors, conservation at the end and an offline check of the recorded lifetimes of all blocks",
    note="held on the executions counted; the deterministic scheduler explores sequentially consistent interleavings only and, like TSan, leaves TBB's allocator out; the address index's own optimistic reads are exempt",
    floor={"ops": 100000, "lifetimes": 30000, "handed_over": 5000, "opened": 1500, "lookups": 10000, "private_pools": 3000, "errors": 3000, "splits": 300, "conserved": 2000, "inits": 500})
