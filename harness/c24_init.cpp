// C24: initialization and teardown cycles, nested and concurrent, with every
// part of the library used in between and an exact account of what is left
// when the last user has gone.
#ifndef NO_BA
#include "ba.hpp"
#endif
#include "provs.hpp"
#include "sched.hpp"
#include <atomic>
#include <dirent.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <hwloc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>

using namespace h;

namespace {
struct Spin2 {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() {
        while (f.test_and_set(std::memory_order_acquire))
            sched_yield();
    }
    void unlock() { f.clear(std::memory_order_release); }
};
Spin2 mu;
struct M { size_t n; std::string bt; };
std::map<uintptr_t, M> *maps; // mappings made by the library and not removed
std::atomic<int64_t> topos{0}, libs{0};
bool track = false;
uint64_t prng;
bool wantbt = getenv("INIT_BT") != nullptr;
std::string where() {
    if (!wantbt)
        return "";
    void *p[12];
    int n = backtrace(p, 12);
    char **s = backtrace_symbols(p, n);
    std::string r;
    for (int i = 2; i < n; i++) {
        const char *q = strstr(s[i], "(+");
        r += q ? q : s[i];
        r += " ";
    }
    free(s);
    return r;
}
} // namespace

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_hwloc_topology_init(hwloc_topology_t *);
void __real_hwloc_topology_destroy(hwloc_topology_t);
void *__real_dlopen(const char *, int);
int __real_dlclose(void *);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    void *r = __real_mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED && maps) {
        std::lock_guard<Spin2> g(mu);
        (*maps)[(uintptr_t)r] = {n, where()};
    }
    return r;
}
int __wrap_munmap(void *a, size_t n) {
    int r = __real_munmap(a, n);
    if (!r && maps) {
        std::lock_guard<Spin2> g(mu);
        uintptr_t lo = (uintptr_t)a, hi = lo + n;
        // keep what is left of every mapping touched
        std::vector<std::pair<uintptr_t, M>> add;
        for (auto it = maps->begin(); it != maps->end();) {
            uintptr_t b = it->first, e = b + it->second.n;
            if (e <= lo || b >= hi) {
                ++it;
                continue;
            }
            if (b < lo)
                add.push_back({b, {lo - b, it->second.bt}});
            if (e > hi)
                add.push_back({hi, {e - hi, it->second.bt}});
            it = maps->erase(it);
        }
        for (auto &x : add)
            if (x.second.n >= 4096)
                (*maps)[x.first] = x.second;
    }
    return r;
}
int __wrap_hwloc_topology_init(hwloc_topology_t *t) {
    int r = __real_hwloc_topology_init(t);
    if (!r)
        topos++;
    return r;
}
void __wrap_hwloc_topology_destroy(hwloc_topology_t t) {
    topos--;
    CHECK(topos >= 0, "C24:topology-twice", "a hardware topology is destroyed twice");
    __real_hwloc_topology_destroy(t);
}
void *__wrap_dlopen(const char *n, int f) {
    void *r = __real_dlopen(n, f);
    if (r)
        libs++;
    return r;
}
int __wrap_dlclose(void *l) {
    libs--;
    return __real_dlclose(l);
}
}

namespace {
bool tbb_ok = true, light = false;

int nfds() { return h::openFds(); }

std::string scratch() {
    const char *s = getenv("VERIF_SCRATCH");
    return s ? s : "/tmp";
}

umf_memory_provider_handle_t osprov() {
    umf_os_memory_provider_params_handle_t p = nullptr;
    umf_result_t rc = umfOsMemoryProviderParamsCreate(&p);
    CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfOsMemoryProviderParamsCreate = %d", rc);
    umf_memory_provider_handle_t h = nullptr;
    rc = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &h);
    CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating an OS provider = %d", rc);
    umfOsMemoryProviderParamsDestroy(p);
    return h;
}

struct Live { // handles that may stay open over nested init/teardown
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    void *mem = nullptr;
    pv::Prov *rp = nullptr;
    std::vector<std::pair<unsigned char *, size_t>> a;
    uint64_t tag = 0;
};

void exercise(umf_memory_pool_handle_t pool, Rng &r, const char *what, bool lookups = true) {
    std::vector<std::pair<unsigned char *, size_t>> a;
    for (int i = 0; i < 6; i++) {
        size_t n = r.range(1, 9000);
        unsigned char *p = (unsigned char *)umfPoolMalloc(pool, n);
        if (!p) {
            viol("C24:use", "%s: umfPoolMalloc(%zu) failed", what, n);
            continue;
        }
        fill(p, n, i + n);
        if (lookups)
            CHECK(umfPoolByPtr(p + r.below(n)) == pool, "C24:use", "%s: the pool of its allocation is not found", what);
        a.push_back({p, n});
    }
    for (size_t i = 0; i < a.size(); i++)
        CHECK(checkfill(a[i].first, a[i].second, i + a[i].second) == a[i].second, "C24:use", "%s: contents changed", what);
    for (auto &x : a) {
        umf_result_t rc = lookups && r.chance(1, 2) ? umfFree(x.first) : umfPoolFree(pool, x.first);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "%s: free = %d", what, rc);
    }
}

// one use of one part of the library, everything destroyed again
void use(Rng &r, unsigned k) {
    switch (k) {
    case 0: { // disjoint pool
        umf_memory_provider_handle_t pr = osprov();
        umf_disjoint_pool_params_handle_t dp = nullptr;
        umf_disjoint_pool_shared_limits_handle_t sl = nullptr;
        umfDisjointPoolParamsCreate(&dp);
        umfDisjointPoolParamsSetSlabMinSize(dp, 4096);
        umfDisjointPoolParamsSetMaxPoolableSize(dp, 65536);
        umfDisjointPoolParamsSetCapacity(dp, 2);
        umfDisjointPoolParamsSetName(dp, "cycle");
        if (r.chance(1, 2)) {
            sl = umfDisjointPoolSharedLimitsCreate(1 << 20);
            CHECK(sl != nullptr, "C24:use", "umfDisjointPoolSharedLimitsCreate failed");
            umfDisjointPoolParamsSetSharedLimits(dp, sl);
        }
        umf_memory_pool_handle_t p = nullptr;
        umf_result_t rc = umfPoolCreate(umfDisjointPoolOps(), pr, dp, 0, &p);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a disjoint pool = %d", rc);
        umfDisjointPoolParamsDestroy(dp);
        if (p) {
            exercise(p, r, "disjoint pool");
            umfPoolDestroy(p);
        }
        if (sl)
            umfDisjointPoolSharedLimitsDestroy(sl);
        umfMemoryProviderDestroy(pr);
        cnt("use_disjoint");
        break;
    }
    case 1: { // scalable pool and its control query
        if (!tbb_ok)
            break;
        umf_memory_provider_handle_t pr = osprov();
        umf_memory_pool_handle_t p = nullptr;
        umf_scalable_pool_params_handle_t sp = nullptr;
        umfScalablePoolParamsCreate(&sp);
        umfScalablePoolParamsSetGranularity(sp, 1 << 20);
        umf_result_t rc = umfPoolCreate(umfScalablePoolOps(), pr, sp, 0, &p);
        umfScalablePoolParamsDestroy(sp);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a scalable pool = %d", rc);
        if (p) {
            exercise(p, r, "scalable pool");
            int en = -1;
            rc = umfCtlGet("umf.pool.by_handle.params.tracking_enabled", p, &en);
            CHECK(rc == UMF_RESULT_SUCCESS && en == 1, "C24:ctl", "tracking_enabled: rc %d value %d", rc, en);
            umfPoolDestroy(p);
        }
        umfMemoryProviderDestroy(pr);
        cnt("use_scalable");
        break;
    }
    case 2: { // proxy pool over fixed memory
        size_t n = 1 << 20;
        void *mem = aligned_alloc(4096, n);
        umf_fixed_memory_provider_params_handle_t fp = nullptr;
        umf_memory_provider_handle_t pr = nullptr;
        umfFixedMemoryProviderParamsCreate(&fp, mem, n);
        umf_result_t rc = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &pr);
        umfFixedMemoryProviderParamsDestroy(fp);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a fixed provider = %d", rc);
        umf_memory_pool_handle_t p = nullptr;
        if (pr)
            rc = umfPoolCreate(umfProxyPoolOps(), pr, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a proxy pool = %d", rc);
        if (p) {
            exercise(p, r, "proxy pool");
            umfPoolDestroy(p);
        }
        pv::Prov::unpoison(mem, n);
        free(mem);
        cnt("use_fixed");
        break;
    }
    case 3: { // control queries on an OS provider
        umf_memory_provider_handle_t pr = osprov();
        int ipc = -1;
        umf_result_t rc = umfCtlGet("umf.provider.by_handle.params.ipc_enabled", pr, &ipc);
        CHECK(rc == UMF_RESULT_SUCCESS && ipc == 0, "C24:ctl", "ipc_enabled: rc %d value %d", rc, ipc);
        void *q = nullptr;
        rc = umfMemoryProviderAlloc(pr, 8192, 0, &q);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "OS allocation = %d", rc);
        size_t al = 0;
        rc = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", pr, &al);
        CHECK(rc == UMF_RESULT_SUCCESS && al == 8192, "C24:ctl", "allocated_memory: rc %d value %zu", rc, al);
        rc = umfCtlGet("umf.provider.by_handle.stats.nothing", pr, &al);
        CHECK(rc != UMF_RESULT_SUCCESS, "C24:ctl", "an unknown statistic was read");
        if (q)
            umfMemoryProviderFree(pr, q, 8192);
        umfMemoryProviderDestroy(pr);
        cnt("use_ctl");
        break;
    }
    case 4: { // predefined memspaces
        if (light)
            break;
        static size_t seen[4] = {99, 99, 99, 99};
        umf_const_memspace_handle_t ms[4] = {umfMemspaceHostAllGet(), umfMemspaceHighestCapacityGet(), umfMemspaceHighestBandwidthGet(),
                                             umfMemspaceLowestLatencyGet()};
        for (int i = 0; i < 4; i++) {
            size_t n = ms[i] ? umfMemspaceMemtargetNum(ms[i]) : 0;
            if (seen[i] == 99)
                seen[i] = n;
            CHECK(seen[i] == n, "C24:memspace", "predefined memspace %d has %zu targets, %zu before", i, n, seen[i]);
            for (size_t j = 0; j < n; j++) {
                unsigned id = 1234;
                umf_memtarget_type_t ty;
                umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(ms[i], (unsigned)j);
                umf_result_t rc = umfMemtargetGetId(t, &id);
                CHECK(rc == UMF_RESULT_SUCCESS && id < 64, "C24:memspace", "target id: rc %d id %u", rc, id);
                umfMemtargetGetType(t, &ty);
            }
        }
        if (ms[0]) {
            umf_memory_provider_handle_t pr = nullptr;
            umf_result_t rc = umfMemoryProviderCreateFromMemspace(ms[0], nullptr, &pr);
            CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "a provider from a memspace = %d", rc);
            if (pr) {
                void *q = nullptr;
                rc = umfMemoryProviderAlloc(pr, 4096, 0, &q);
                CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "allocation from a memspace = %d", rc);
                if (q) {
                    memset(q, 1, 4096);
                    umfMemoryProviderFree(pr, q, 4096);
                }
                umfMemoryProviderDestroy(pr);
            }
        }
        cnt("use_memspace");
        break;
    }
    case 5: { // IPC within the process
        pv::Prov P;
        P.arena = 1 << 20;
        umf_memory_provider_handle_t pr = pv::create(P);
        umf_memory_pool_handle_t p = nullptr;
        umf_result_t rc = umfPoolCreate(umfProxyPoolOps(), pr, nullptr, 0, &p);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a proxy pool = %d", rc);
        if (p) {
            unsigned char *q = (unsigned char *)umfPoolMalloc(p, 5000);
            if (!q)
                viol("C24:use", "umfPoolMalloc failed");
            else {
                fill(q, 5000, 77);
                umf_ipc_handle_t hd = nullptr;
                size_t hs = 0;
                rc = umfGetIPCHandle(q, &hd, &hs);
                CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfGetIPCHandle = %d", rc);
                umf_ipc_handler_handle_t ih = nullptr;
                rc = umfPoolGetIPCHandler(p, &ih);
                void *v = nullptr;
                if (hd && ih)
                    rc = umfOpenIPCHandle(ih, hd, &v);
                CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfOpenIPCHandle = %d", rc);
                if (v) {
                    CHECK(checkfill(v, 5000, 77) == 5000, "C24:use", "the opened memory differs");
                    umfCloseIPCHandle(v);
                }
                if (hd)
                    umfPutIPCHandle(hd);
                umfPoolFree(p, q);
            }
            umfPoolDestroy(p);
        }
        umfMemoryProviderDestroy(pr);
        CHECK(P.live.empty() && P.opened.empty() && P.handles.empty(), "C24:leftover", "the provider is not clean after IPC use");
        cnt("use_ipc");
        break;
    }
    case 6: { // file provider
        if (light)
            break;
        std::string f = scratch() + "/init_" + std::to_string(getpid());
        umf_file_memory_provider_params_handle_t fp = nullptr;
        umf_result_t rc = umfFileMemoryProviderParamsCreate(&fp, f.c_str());
        umf_memory_provider_handle_t pr = nullptr;
        if (rc == UMF_RESULT_SUCCESS)
            rc = umfMemoryProviderCreate(umfFileMemoryProviderOps(), fp, &pr);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "creating a file provider = %d", rc);
        umfFileMemoryProviderParamsDestroy(fp);
        if (pr) {
            void *q = nullptr;
            rc = umfMemoryProviderAlloc(pr, 4096, 0, &q);
            CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "file allocation = %d", rc);
            if (q) {
                memset(q, 1, 4096);
                umfMemoryProviderFree(pr, q, 4096);
            }
            umfMemoryProviderDestroy(pr);
        }
        unlink(f.c_str());
        cnt("use_file");
        break;
    }
    default: { // numa memspace and policy objects
        if (light)
            break;
        umf_memspace_handle_t ms = nullptr;
        umf_mempolicy_handle_t mp = nullptr;
        umf_result_t rc = umfMemspaceNew(&ms);
        CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfMemspaceNew = %d", rc);
        umf_const_memspace_handle_t all = umfMemspaceHostAllGet();
        if (ms && all) {
            rc = umfMemspaceMemtargetAdd(ms, umfMemspaceMemtargetGet(all, 0));
            CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfMemspaceMemtargetAdd = %d", rc);
            rc = umfMempolicyCreate(UMF_MEMPOLICY_BIND, &mp);
            CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfMempolicyCreate = %d", rc);
            umf_memory_pool_handle_t p = nullptr;
            rc = umfPoolCreateFromMemspace(ms, mp, &p);
            if (rc == UMF_RESULT_SUCCESS && p) {
                void *q = umfPoolMalloc(p, 100);
                if (q)
                    umfPoolFree(p, q);
                umfPoolDestroy(p);
            }
            umfMempolicyDestroy(mp);
        }
        if (ms)
            umfMemspaceDestroy(ms);
        cnt("use_policy");
    }
    }
}

struct Base {
    int64_t blocks = 0, pools = 0, topo = 0, lib = 0;
    int fds = 0;
    size_t maps = 0;
    uint64_t serial = 0;
};
Base snap() {
    Base b;
#ifndef NO_BA
    b.blocks = ba::st.live_blocks;
    b.pools = ba::st.live_pools;
    b.serial = ba::serial();
#endif
    b.topo = topos;
    b.lib = libs;
    b.fds = nfds();
    std::lock_guard<Spin2> g(mu);
    b.maps = maps->size();
    return b;
}
void checkClean(const Base &b, const char *when) {
    Base n = snap();
#ifndef NO_BA
    if (n.blocks != b.blocks || n.pools != b.pools)
        viol("C24:leak", "%s: %ld metadata blocks and %ld allocators are left: %s", when, n.blocks - b.blocks, n.pools - b.pools,
             ba::leaks(b.serial).c_str());
#endif
    CHECK(n.topo == b.topo, "C24:leak-topology", "%s: %ld hardware topologies are left", when, n.topo - b.topo);
    CHECK(n.lib == b.lib, "C24:leak-library", "%s: %ld libraries stay open", when, n.lib - b.lib);
    CHECK(n.fds == b.fds, "C24:leak-fd", "%s: %d descriptors are left", when, n.fds - b.fds);
    CHECK(n.maps <= b.maps, "C24:leak-map", "%s: %zd mappings are left", when, (ssize_t)(n.maps - b.maps));
    if (n.maps > b.maps && wantbt)
        for (auto &x : *maps)
            printf("MAP %lx+%zu %s\n", x.first, x.second.n, x.second.bt.c_str());
    cnt("clean_checks");
}

void openLive(Live &l, Rng &r) {
    l.prov = osprov();
    umf_disjoint_pool_params_handle_t dp = nullptr;
    umfDisjointPoolParamsCreate(&dp);
    umfDisjointPoolParamsSetSlabMinSize(dp, 4096);
    umfDisjointPoolParamsSetMaxPoolableSize(dp, 65536);
    umfDisjointPoolParamsSetCapacity(dp, 2);
    umf_result_t rc = umfPoolCreate(r.chance(1, 2) ? umfDisjointPoolOps() : umfProxyPoolOps(), l.prov, dp, 0, &l.pool);
    umfDisjointPoolParamsDestroy(dp);
    CHECK(rc == UMF_RESULT_SUCCESS, "C24:use", "umfPoolCreate = %d", rc);
    for (int i = 0; i < 4 && l.pool; i++) {
        size_t n = r.range(1, 3000);
        unsigned char *p = (unsigned char *)umfPoolMalloc(l.pool, n);
        if (!p)
            continue;
        fill(p, n, n);
        l.a.push_back({p, n});
    }
}
void checkLive(Live &l) {
    for (auto &x : l.a) {
        CHECK(checkfill(x.first, x.second, x.second) == x.second, "C24:live-damaged", "an allocation changed over a nested cycle");
        CHECK(umfPoolByPtr(x.first) == l.pool, "C24:live-lost", "an allocation is not found after a nested cycle");
    }
}
void closeLive(Live &l) {
    for (auto &x : l.a)
        CHECK(umfFree(x.first) == UMF_RESULT_SUCCESS, "C24:live-free", "freeing after a nested cycle failed");
    umfPoolDestroy(l.pool);
    umfMemoryProviderDestroy(l.prov);
}

void st_case(Rng &r) {
    label("init cycles");
    Sig s;
    umfTearDown(); // the use taken by the library's constructor
    Base b = snap();
    int cycles = (int)r.range(1, 4);
    for (int c = 0; c < cycles; c++) {
        int uses = 0;
        std::vector<std::unique_ptr<Live>> live;
        do {
            unsigned k = (unsigned)r.below(100);
            s.add(k);
            progress();
            if (!uses || (k < 25 && uses < 5)) { // one more user
#ifndef NO_BA
                if (!uses && r.chance(1, 4)) { // a failing first initialization leaves nothing behind
                    ba::enabled_failing = true;
                    ba::fail_at = 1 + (int64_t)r.below(16);
                    uint64_t i0 = ba::st.injected;
                    int rc = umfInit();
                    ba::enabled_failing = false;
                    ba::fail_at = 0;
                    if (ba::st.injected != i0 && rc) {
                        cnt("init_failed");
                        checkClean(b, "failed umfInit");
                    } else if (rc)
                        viol("C24:init", "umfInit = %d without a failure", rc);
                    else
                        uses++;
                    continue;
                }
#endif
                int rc = umfInit();
                CHECK(rc == 0, "C24:init", "umfInit = %d", rc);
                if (rc)
                    break;
                uses++;
                cnt("inits");
            } else if (k < 50) {
                if (uses == 1) {
                    for (auto &l : live)
                        closeLive(*l);
                    live.clear();
                }
                umfTearDown();
                uses--;
                cnt("teardowns");
                for (auto &l : live)
                    checkLive(*l);
            } else if (k < 60 && live.size() < 3) {
                live.push_back(std::make_unique<Live>());
                openLive(*live.back(), r);
            } else {
                unsigned u = (unsigned)r.below(8);
                s.add(u);
                use(r, u);
            }
        } while (uses > 0);
        checkClean(b, "after the last teardown");
        // the library may also be torn down right after it was set up
        if (r.chance(1, 4)) {
            CHECK(umfInit() == 0, "C24:init", "umfInit failed");
            umfTearDown();
            checkClean(b, "after an empty cycle");
        }
    }
    CHECK(umfInit() == 0, "C24:init", "umfInit failed");
    cnt("cycles", (uint64_t)cycles);
    sig(s.v);
}

void mt_case(Rng &r, bool det) {
    label("concurrent init");
    umfTearDown();
    Base b = snap();
    int nt = (int)r.range(2, det ? 3 : 5), rounds = det ? 2 : (int)r.range(1, 6);
    std::atomic<int> ready{0};
    uint64_t seeds[8];
    for (auto &x : seeds)
        x = r.next();
    std::atomic<uint64_t> ok{0};
    auto body = [&](int t) {
        Rng q(seeds[t]);
        if (!det) {
            ready++;
            while (ready < nt)
                ;
        }
        for (int i = 0; i < rounds; i++) {
            int rc = umfInit();
            if (rc) {
                viol("C24:init", "concurrent umfInit = %d", rc);
                continue;
            }
            // fully usable at once
            unsigned k = det ? (q.chance(1, 2) ? 2 : 5) : (unsigned)q.below(8);
            use(q, k);
            if (q.chance(1, 3)) {
                if (umfInit() == 0) {
                    use(q, 2);
                    umfTearDown();
                }
            }
            umfTearDown();
            ok++;
            progress();
        }
    };
    if (det) {
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < nt; t++)
            fs.push_back([&body, t] { body(t); });
        auto res = sched::run(fs, r.next(), sched::random_params(r));
        sig(res.hash);
        maxstat("sched_steps", res.steps);
    } else {
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back(body, t);
        for (auto &t : ts)
            t.join();
        sig(mix(r.next(), ok));
    }
    cnt("mt_cycles", ok);
    checkClean(b, "after concurrent users left");
    CHECK(umfInit() == 0, "C24:init", "umfInit failed");
}
} // namespace

void harness_begin() {
    maps = new std::map<uintptr_t, M>;
    light = ctx().mode == "sched";
    if (ctx().mode == "sched")
        tbb_ok = false;
    else {
        Rng r(1); // warm up: lazily created parts of other libraries keep descriptors and mappings
        for (unsigned k = 0; k < 8; k++)
            use(r, k);
    }
}
void run_case(uint64_t, Rng &r) {
    if (ctx().mode == "mt")
        mt_case(r, false);
    else if (ctx().mode == "sched")
        mt_case(r, true);
    else
        st_case(r);
}
void harness_end() {}
