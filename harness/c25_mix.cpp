// Several threads use the whole public API at once, within its rules (C25). The sanitizers and the watchdog see data
// races, memory errors and hangs; the results are judged by the content of every live block, lookups of live pointers,
// per-thread error state, and an offline check of the recorded lifetimes of all blocks.
#include "h.hpp"
#include "sched.hpp"
#include <cerrno>
#include <hwloc.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider_ops.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
#if defined(VARIANT_ASAN) || defined(VARIANT_SCHED) || defined(VARIANT_ASAND)
#include <sanitizer/asan_interface.h>
#define OPEN_UP(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define OPEN_UP(p, n)
#endif
#if defined(VARIANT_TSAN) || defined(VARIANT_TSAND) || defined(VARIANT_SCHED)
#define NO_TBB 1
#endif
#if defined(VARIANT_TSAND) || defined(VARIANT_ASAND)
extern "C" volatile unsigned verif_delay_every;
extern "C" volatile uint64_t verif_delay_seed;
#endif
using namespace h;
namespace {
const size_t PG = 4096;
// ------------------------------------------------------------------ time without synchronization
std::atomic<uint64_t> clock_{1};
uint64_t tick() { return clock_.fetch_add(1, std::memory_order_relaxed); }
// ------------------------------------------------------------------ a provider of its own, without locks
struct Raw {
    std::atomic<int64_t> live{0};
    std::atomic<uint64_t> allocs{0};
    std::atomic<int> inits{0};
};
std::atomic<uint64_t> failEvery{0};
thread_local int32_t rawErr = 0;
umf_result_t rInit(void *params, void **p) {
    *p = params;
    return UMF_RESULT_SUCCESS;
}
void rFini(void *) {}
umf_result_t rAlloc(void *v, size_t n, size_t al, void **out) {
    Raw *r = (Raw *)v;
    if (n > ((size_t)1 << 32)) {
        rawErr = (int32_t)(n & 0xffff);
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
    void *q = nullptr;
    if (posix_memalign(&q, std::max(al, PG), (n + PG - 1) / PG * PG))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    r->live.fetch_add(1, std::memory_order_relaxed);
    r->allocs.fetch_add(1, std::memory_order_relaxed);
    *out = q;
    return UMF_RESULT_SUCCESS;
}
umf_result_t rFree(void *v, void *p, size_t) {
    ((Raw *)v)->live.fetch_sub(1, std::memory_order_relaxed);
    free(p);
    return UMF_RESULT_SUCCESS;
}
void rErr(void *, const char **m, int32_t *e) {
    *m = "raw";
    *e = rawErr;
}
umf_result_t rPage(void *, size_t, size_t *p) {
    *p = PG;
    return UMF_RESULT_SUCCESS;
}
umf_result_t rMinPage(void *, void *, size_t *p) {
    *p = PG;
    return UMF_RESULT_SUCCESS;
}
const char *rName(void *) { return "raw"; }
umf_memory_provider_ops_t rawOps() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_VERSION_CURRENT;
    o.initialize = rInit;
    o.finalize = rFini;
    o.alloc = rAlloc;
    o.free = rFree;
    o.get_last_native_error = rErr;
    o.get_recommended_page_size = rPage;
    o.get_min_page_size = rMinPage;
    o.get_name = rName;
    return o;
}
// ------------------------------------------------------------------ the world
enum PK { OSPRIV, OSFD, OSSHM, FILEP, FIXEDP, RAWP, NPK };
const char *pkName[] = {"OS private", "OS shared fd", "OS shared shm", "file", "fixed", "raw"};
struct Prov {
    PK k;
    umf_memory_provider_handle_t h = nullptr;
    std::unique_ptr<Raw> raw;
    void *buf = nullptr;
    size_t bufsz = 0;
    std::string path;
    bool ipc() const { return k == OSFD || k == FILEP; }
};
enum QK { DISJ, SCAL, PROXYP, NQK };
struct Pool {
    QK k;
    umf_memory_pool_handle_t h = nullptr;
    Prov *prov = nullptr;
    bool own = false;
    umf_ipc_handler_handle_t ih = nullptr;
};
struct Blk {
    char *p = nullptr;
    size_t n = 0;
    uint64_t seed = 0;
    Pool *pool = nullptr; // from a pool,
    Prov *prov = nullptr; // or from a provider
    umf_ipc_handle_t ih = nullptr;
    uint32_t id = 0;
};
struct Ev {
    uint64_t t;
    uintptr_t p;
    size_t n;
    bool birth;
};
struct World {
    std::vector<std::unique_ptr<Prov>> provs;
    std::vector<std::unique_ptr<Pool>> pools;
    umf_disjoint_pool_shared_limits_handle_t limits = nullptr;
    std::atomic<Blk *> box[6] = {};
    std::string scratch;
    uint64_t idx = 0;
};
bool mkProv(Prov &v, World &w, Rng &r, bool mine) {
    umf_result_t q = UMF_RESULT_SUCCESS;
    static std::atomic<uint64_t> serial{0};
    switch (v.k) {
    case OSPRIV:
    case OSFD:
    case OSSHM: {
        umf_os_memory_provider_params_handle_t p = nullptr;
        umfOsMemoryProviderParamsCreate(&p);
        if (v.k != OSPRIV)
            umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
        if (v.k == OSSHM) {
            char nm[100];
            snprintf(nm, sizeof nm, "verif_c25_%d_%lu", getpid(), (unsigned long)serial.fetch_add(1, std::memory_order_relaxed));
            umfOsMemoryProviderParamsSetShmName(p, nm);
        }
        q = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &v.h);
        umfOsMemoryProviderParamsDestroy(p);
        break;
    }
    case FILEP: {
        v.path = w.scratch + "/c25." + std::to_string(getpid()) + "." + std::to_string(serial.fetch_add(1, std::memory_order_relaxed));
        umf_file_memory_provider_params_handle_t p = nullptr;
        umfFileMemoryProviderParamsCreate(&p, v.path.c_str());
        umfFileMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
        q = umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &v.h);
        umfFileMemoryProviderParamsDestroy(p);
        break;
    }
    case FIXEDP: {
        v.bufsz = mine ? PG << r.range(3, 6) : (size_t)4 << 20;
        v.buf = mmap(nullptr, v.bufsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        umf_fixed_memory_provider_params_handle_t p = nullptr;
        umfFixedMemoryProviderParamsCreate(&p, v.buf, v.bufsz);
        q = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &v.h);
        umfFixedMemoryProviderParamsDestroy(p);
        break;
    }
    default: {
        v.raw.reset(new Raw);
        umf_memory_provider_ops_t o = rawOps();
        q = umfMemoryProviderCreate(&o, v.raw.get(), &v.h);
    }
    }
    if (q)
        viol("C25:create-provider", "creating the provider '%s' while other threads work: %d", pkName[v.k], q);
    return !q;
}
void dropProv(Prov &v, bool destroyed) {
    if (!destroyed && v.h)
        umfMemoryProviderDestroy(v.h);
    if (v.raw)
        CHECK(v.raw->live == 0, "C25:leak", "%ld allocations of a provider were never given back", (long)v.raw->live.load());
    if (v.buf) {
        OPEN_UP(v.buf, v.bufsz);
        munmap(v.buf, v.bufsz);
    }
    if (!v.path.empty())
        unlink(v.path.c_str());
}
bool mkPool(Pool &p, World &w, Rng &r) {
    umf_pool_create_flags_t fl = p.own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0;
    umf_result_t q;
    if (p.k == DISJ) {
        umf_disjoint_pool_params_handle_t d = nullptr;
        umfDisjointPoolParamsCreate(&d);
        umfDisjointPoolParamsSetSlabMinSize(d, PG << r.below(3));
        umfDisjointPoolParamsSetMaxPoolableSize(d, 1024u << r.below(6));
        umfDisjointPoolParamsSetCapacity(d, r.below(4));
        umfDisjointPoolParamsSetMinBucketSize(d, 8u << r.below(4));
        umfDisjointPoolParamsSetTrace(d, r.chance(1, 2) ? 0 : (int)r.range(1, 3));
        if (w.limits && r.chance(1, 2))
            umfDisjointPoolParamsSetSharedLimits(d, w.limits);
        q = umfPoolCreate(umfDisjointPoolOps(), p.prov->h, d, fl, &p.h);
        umfDisjointPoolParamsDestroy(d);
    } else if (p.k == SCAL) {
        umf_scalable_pool_params_handle_t d = nullptr;
        umfScalablePoolParamsCreate(&d);
        umfScalablePoolParamsSetKeepAllMemory(d, r.chance(1, 3));
        q = umfPoolCreate(umfScalablePoolOps(), p.prov->h, d, fl, &p.h);
        umfScalablePoolParamsDestroy(d);
    } else
        q = umfPoolCreate(umfProxyPoolOps(), p.prov->h, nullptr, fl, &p.h);
    if (q)
        viol("C25:create-pool", "creating a pool while other threads work: %d", q);
    else if (umfPoolGetIPCHandler(p.h, &p.ih))
        p.ih = nullptr;
    return !q;
}
// ------------------------------------------------------------------ one thread
const size_t BIG = (size_t)1 << 46;
struct Thread {
    World &w;
    Rng r;
    std::vector<Blk> mine;
    std::vector<Ev> evs;
    std::map<std::string, uint64_t> n;
    uint64_t sg = 0;
    uint32_t ids = 0;
    int t;
    Thread(World &w_, uint64_t s, int t_) : w(w_), r(s), t(t_) {}
    void born(Blk &b) {
        OPEN_UP(b.p, b.n);
        evs.push_back({tick(), (uintptr_t)b.p, b.n, true});
        b.seed = r.next();
        fill(b.p, b.n, b.seed);
    }
    bool intact(const Blk &b, const char *when) {
        size_t m = checkfill(b.p, b.n, b.seed);
        CHECK(m == b.n, "C25:content", "byte %zu of %zu of a live block changed (%s; %s)", m, b.n, b.pool ? "pool" : "provider", when);
        return m == b.n;
    }
    size_t size(bool prov) {
        if (prov)
            return PG * r.range(1, 6);
        switch (r.below(6)) {
        case 0: return r.range(1, 64);
        case 1: return r.range(1, 3 * PG);
        case 2: return 8u << r.below(12);
        case 3: return r.chance(1, 6) ? r.range(1, 40 * PG) : r.range(1, 256);
        default: return r.range(1, 600);
        }
    }
    void alloc() {
        Blk b;
        b.n = size(false);
        b.pool = w.pools[r.below(w.pools.size())].get();
        if (b.pool->k == PROXYP && (b.pool->prov->k != RAWP || r.chance(1, 2)))
            b.n = (b.n + PG - 1) / PG * PG;
        allocFrom(b);
    }
    void allocFrom(Blk b) {
        unsigned how = (unsigned)r.below(4);
        if (how == 0) {
            size_t al = (size_t)8 << r.below(10);
            if (b.pool->k == PROXYP && (b.pool->prov->k == OSFD || b.pool->prov->k == OSPRIV || b.pool->prov->k == OSSHM))
                al = std::max(al, PG);
            b.p = (char *)umfPoolAlignedMalloc(b.pool->h, b.n, al);
            CHECK((uintptr_t)b.p % al == 0, "C25:align", "a block aligned to %zu at %p", al, (void *)b.p);
            if (!b.p && b.pool->prov->k != FIXEDP)
                return oom("umfPoolAlignedMalloc", b);
        } else if (how == 1 && b.pool->k == SCAL && !poisoned(b.pool)) {
            b.p = (char *)umfPoolCalloc(b.pool->h, 1, b.n);
            if (b.p) {
                OPEN_UP(b.p, b.n);
                for (size_t i = 0; i < b.n; i++)
                    if (b.p[i]) {
                        viol("C25:calloc", "byte %zu of calloc is not zero", i);
                        break;
                    }
            }
        } else
            b.p = (char *)umfPoolMalloc(b.pool->h, b.n);
        if (!b.p) {
            if (b.pool->prov->k != FIXEDP)
                oom("umfPoolMalloc", b);
            else
                n["full"]++;
            return;
        }
        born(b);
        mine.push_back(b);
        n["allocs"]++;
    }
    // memory these hand out again may still carry another pool's poison, which the C library calls of TBB would meet
    static bool poisoned(Pool *p) { return p->prov->k == FIXEDP || p->prov->k == FILEP; }
    void oom(const char *f, Blk &b) { viol("C25:alloc", "%s(%zu) failed with %d (%s)", f, b.n, umfPoolGetLastAllocationError(b.pool->h), native(b.pool->prov).c_str()); }
    std::string native(Prov *v) {
        int e = errno;
        const char *m = nullptr;
        int32_t c = 0;
        umfMemoryProviderGetLastNativeError(v->h, &m, &c);
        return std::string(m ? m : "-") + ", " + std::to_string(c) + ", errno " + std::to_string(e);
    }
    void palloc() {
        Blk b;
        b.prov = w.provs[r.below(w.provs.size())].get();
        b.n = size(true);
        size_t al = r.chance(1, 3) ? PG << r.below(3) : 0;
        umf_result_t q = umfMemoryProviderAlloc(b.prov->h, b.n, al, (void **)&b.p);
        if (q) {
            if (b.prov->k != FIXEDP)
                viol("C25:alloc", "umfMemoryProviderAlloc(%zu, %zu) from '%s' = %d (%s)", b.n, al, pkName[b.prov->k], q, native(b.prov).c_str());
            else
                n["full"]++;
            return;
        }
        CHECK(!al || (uintptr_t)b.p % al == 0, "C25:align", "provider block %p, alignment %zu", (void *)b.p, al);
        born(b);
        mine.push_back(b);
        n["provider_allocs"]++;
    }
    void release(Blk b, const char *when) {
        intact(b, when);
        evs.push_back({tick(), (uintptr_t)b.p, b.n, false});
        umf_result_t q;
        if (b.prov)
            q = umfMemoryProviderFree(b.prov->h, b.p, b.n);
        else if (r.chance(1, 2))
            q = umfFree(b.p);
        else
            q = umfPoolFree(b.pool->h, b.p);
        CHECK(q == UMF_RESULT_SUCCESS, "C25:free", "freeing a live block of '%s': %d", b.prov ? pkName[b.prov->k] : pkName[b.pool->prov->k], q);
        n["frees"]++;
    }
    Blk take(size_t i) {
        Blk b = mine[i];
        mine[i] = mine.back();
        mine.pop_back();
        return b;
    }
    void lookup(const Blk &b) {
        umf_memory_pool_handle_t f = umfPoolByPtr(b.p + r.below(b.n));
        CHECK(f == (b.pool ? b.pool->h : nullptr), "C25:lookup", "umfPoolByPtr of a live block of '%s' finds %s", b.pool ? "a pool" : "a provider", f ? "another pool" : "no pool");
        n["lookups"]++;
        if (b.pool && r.chance(1, 2) && b.pool->k == SCAL) {
            size_t u = umfPoolMallocUsableSize(b.pool->h, b.p);
            CHECK(u >= b.n, "C25:usable", "usable size %zu of %zu bytes", u, b.n);
        }
    }
    void swap() { // hand a block to whoever comes
        auto &s = w.box[r.below(6)];
        Blk *out = nullptr;
        if (mine.size() && r.chance(2, 3)) {
            out = new Blk(take(r.below(mine.size())));
            if (out->pool && out->pool->ih && out->pool->prov->ipc() && r.chance(1, 2)) {
                size_t sz;
                umf_result_t q = umfGetIPCHandle(out->p, &out->ih, &sz);
                CHECK(q == UMF_RESULT_SUCCESS, "C25:ipc-get", "umfGetIPCHandle of a live block of '%s': %d", pkName[out->pool->prov->k], q);
                if (q)
                    out->ih = nullptr;
            }
        }
        Blk *in = s.exchange(out, std::memory_order_acq_rel);
        if (!in)
            return;
        n["handed_over"]++;
        Blk b = *in;
        delete in;
        if (b.ih) {
            openClose(b);
            umf_result_t q = umfPutIPCHandle(b.ih);
            CHECK(q == UMF_RESULT_SUCCESS, "C25:ipc-put", "umfPutIPCHandle: %d", q);
            b.ih = nullptr;
        }
        intact(b, "after it was handed over");
        mine.push_back(b);
    }
    void openClose(Blk &b) {
        void *x = nullptr;
        umf_result_t q = umfOpenIPCHandle(b.pool->ih, b.ih, &x);
        CHECK(q == UMF_RESULT_SUCCESS, "C25:ipc-open", "umfOpenIPCHandle of a live block of '%s': %d", pkName[b.pool->prov->k], q);
        if (q)
            return;
        size_t m = checkfill((char *)x, b.n, b.seed);
        CHECK(m == b.n, "C25:ipc-bytes", "the opened mapping differs at byte %zu of %zu", m, b.n);
        if (r.chance(1, 2)) {
            b.seed = r.next();
            fill((char *)x, b.n, b.seed);
            intact(b, "written through the opened mapping");
        }
        q = umfCloseIPCHandle(x);
        CHECK(q == UMF_RESULT_SUCCESS, "C25:ipc-close", "umfCloseIPCHandle: %d", q);
        n["opened"]++;
    }
    void ipc(Blk &b) {
        size_t sz = 0;
        umf_result_t q = umfGetIPCHandle(b.p + r.below(b.n), &b.ih, &sz);
        CHECK(q == UMF_RESULT_SUCCESS, "C25:ipc-get", "umfGetIPCHandle of a live block of '%s': %d", pkName[b.pool->prov->k], q);
        if (q)
            return (void)(b.ih = nullptr);
        umfPutIPCHandle(b.ih);
        q = umfGetIPCHandle(b.p, &b.ih, &sz);
        if (!q) {
            openClose(b);
            umfPutIPCHandle(b.ih);
        }
        b.ih = nullptr;
    }
    void errors() { // each thread sees its own failures only
        if (r.chance(1, 2)) {
            Prov &v = *w.provs[r.below(w.provs.size())];
            void *p = nullptr;
            size_t big = BIG * 2 + r.below(1000) * PG;
            umf_result_t q = umfMemoryProviderAlloc(v.h, big, 0, &p);
            CHECK(q != UMF_RESULT_SUCCESS, "C25:huge", "an allocation of %zu bytes from '%s' succeeded", big, pkName[v.k]);
            if (!q)
                return;
            if (r.chance(1, 2) && mine.size())
                lookup(mine[r.below(mine.size())]);
            CHECK(umfGetLastFailedMemoryProvider() == v.h, "C25:last-failed", "umfGetLastFailedMemoryProvider does not name the provider '%s' this thread's call failed in", pkName[v.k]);
            if (q == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                const char *m = nullptr;
                int32_t e = 0;
                umfMemoryProviderGetLastNativeError(v.h, &m, &e);
                CHECK(m && strlen(m) < 1000, "C25:native", "no message of the native error");
                if (v.k == RAWP)
                    CHECK(e == (int32_t)(big & 0xffff), "C25:native", "native error %d, the thread's own was %d", e, (int)(big & 0xffff));
            }
        } else {
            Pool &p = *w.pools[r.below(w.pools.size())];
            void *x = umfPoolMalloc(p.h, BIG * 2);
            CHECK(!x, "C25:huge", "a huge allocation from a pool succeeded");
            umf_result_t e = umfPoolGetLastAllocationError(p.h);
            CHECK(e != UMF_RESULT_SUCCESS, "C25:pool-error", "the pool has no error after this thread's allocation failed");
        }
        n["errors"]++;
    }
    void queries() {
        Prov &v = *w.provs[r.below(w.provs.size())];
        switch (r.below(6)) {
        case 0: {
            size_t p = 0;
            umf_result_t q = umfMemoryProviderGetMinPageSize(v.h, nullptr, &p);
            CHECK(q || (p && !(p & (p - 1))), "C25:page", "minimal page size %zu", p);
            break;
        }
        case 1: {
            size_t p = 0;
            umf_result_t q = umfMemoryProviderGetRecommendedPageSize(v.h, PG, &p);
            CHECK(q || (p && !(p & (p - 1))), "C25:page", "recommended page size %zu", p);
            break;
        }
        case 2: {
            const char *s = umfMemoryProviderGetName(v.h);
            CHECK(s && *s && strlen(s) < 100, "C25:name", "name");
            break;
        }
        case 3: {
            Pool &p = *w.pools[r.below(w.pools.size())];
            umf_memory_provider_handle_t h = nullptr;
            CHECK(umfPoolGetMemoryProvider(p.h, &h) == UMF_RESULT_SUCCESS && h == p.prov->h, "C25:provider-of", "umfPoolGetMemoryProvider");
            break;
        }
        case 4: {
            Pool &p = *w.pools[r.below(w.pools.size())];
            void *tag = (void *)(uintptr_t)(((uint64_t)(t + 1) << 32) + ++ids), *old = nullptr;
            CHECK(umfPoolSetTag(p.h, tag, &old) == UMF_RESULT_SUCCESS, "C25:tag", "umfPoolSetTag");
            uint64_t o = (uint64_t)old >> 32;
            CHECK(o <= 8, "C25:tag", "the previous tag is %p, which nobody set", old);
            umfPoolGetTag(p.h, &old);
            CHECK(((uint64_t)old >> 32) >= 1 && ((uint64_t)old >> 32) <= 8, "C25:tag", "tag %p", old);
            break;
        }
        case 5: {
            if (v.k > OSSHM)
                break;
            size_t a = 0, pk = 0;
            umf_result_t q = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", v.h, &a);
            if (!q)
                q = umfCtlGet("umf.provider.by_handle.stats.peak_memory", v.h, &pk);
            CHECK(q == UMF_RESULT_SUCCESS && a < ((size_t)1 << 40) && pk < ((size_t)1 << 40), "C25:stats", "statistics: %d, allocated %zu, peak %zu", q, a, pk);
            int dummy = 0;
            if (r.chance(1, 4))
                umfCtlExec("umf.provider.by_handle.stats.peak_memory.reset", v.h, &dummy);
            break;
        }
        }
        n["queries"]++;
    }
    void purge() {
        for (auto &b : mine)
            if (b.prov && b.prov->k <= OSSHM) {
                umfMemoryProviderPurgeLazy(b.prov->h, b.p, b.n);
                born2(b);
                n["purges"]++;
                return;
            }
    }
    void born2(Blk &b) { fill(b.p, b.n, b.seed); }
    void splitMerge() {
        for (size_t i = 0; i < mine.size(); i++) {
            Blk b = mine[i];
            if (!b.prov || b.n < 2 * PG || b.prov->k == RAWP)
                continue;
            intact(b, "before a split");
            size_t f = PG * r.range(1, b.n / PG - 1);
            umf_result_t q = umfMemoryProviderAllocationSplit(b.prov->h, b.p, b.n, f);
            CHECK(q == UMF_RESULT_SUCCESS, "C25:split", "splitting a block of '%s': %d", pkName[b.prov->k], q);
            if (q)
                return;
            if (r.chance(1, 2)) {
                q = umfMemoryProviderAllocationMerge(b.prov->h, b.p, b.p + f, b.n);
                CHECK(q == UMF_RESULT_SUCCESS, "C25:merge", "merging what was split in '%s': %d", pkName[b.prov->k], q);
                if (q)
                    return;
                intact(b, "after a merge");
            } else {
                intact(b, "after a split");
                take(i);
                evs.push_back({tick(), (uintptr_t)b.p, b.n, false});
                Blk lo = b, hi = b;
                lo.n = f;
                hi.p += f;
                hi.n -= f;
                born(lo);
                born(hi);
                mine.push_back(lo);
                mine.push_back(hi);
            }
            n["splits"]++;
            return;
        }
    }
    void priv() { // a pool of its own, on a provider of its own or a shared one
        Prov own;
        Pool p;
        bool shared = r.chance(1, 2);
        if (shared)
            p.prov = w.provs[r.below(w.provs.size())].get();
        else {
            do
                own.k = (PK)r.below(NPK);
#ifdef VARIANT_SCHED
            while (own.k < FILEP); // these ask the operating system's library for the machine
#else
            while (0);
#endif
            if (!mkProv(own, w, r, true))
                return;
            p.prov = &own;
            p.own = r.chance(1, 2);
        }
#ifdef NO_TBB
        p.k = r.chance(1, 2) ? DISJ : PROXYP;
#else
        p.k = (QK)r.below(NQK);
#endif
        if (mkPool(p, w, r)) {
            size_t keep = mine.size(), k = r.range(1, 6);
            for (size_t i = 0; i < k; i++) {
                Blk b;
                b.pool = &p;
                b.n = p.k == PROXYP ? PG * r.range(1, 3) : r.range(1, 2000);
                allocFrom(b);
                if (mine.size() > keep) {
                    lookup(mine.back());
                    if (p.ih && p.prov->ipc() && r.chance(1, 3))
                        ipc(mine.back());
                }
            }
            while (mine.size() > keep) {
                release(mine.back(), "private pool");
                mine.pop_back();
            }
            umfPoolDestroy(p.h);
            n["private_pools"]++;
        } else
            p.own = false;
        if (!shared)
            dropProv(own, p.own);
    }
    void params() {
        umf_os_memory_provider_params_handle_t p = nullptr;
        if (!umfOsMemoryProviderParamsCreate(&p)) {
            umfOsMemoryProviderParamsSetProtection(p, UMF_PROTECTION_READ);
            unsigned nodes[3] = {0, 1, 2};
            umfOsMemoryProviderParamsSetNumaList(p, nodes, 3);
            umfOsMemoryProviderParamsSetShmName(p, "abc");
            umfOsMemoryProviderParamsDestroy(p);
        }
        umf_disjoint_pool_params_handle_t d = nullptr;
        if (!umfDisjointPoolParamsCreate(&d)) {
            umfDisjointPoolParamsSetName(d, "pool of a thread");
            umfDisjointPoolParamsDestroy(d);
        }
        n["params"]++;
    }
    void spaces() {
#ifndef VARIANT_SCHED
        umf_const_memspace_handle_t s = nullptr;
        switch (r.below(4)) {
        case 0: s = umfMemspaceHostAllGet(); break;
        case 1: s = umfMemspaceHighestCapacityGet(); break;
        case 2: s = umfMemspaceLowestLatencyGet(); break;
        case 3: s = umfMemspaceHighestBandwidthGet(); break;
        }
        if (!s)
            s = umfMemspaceHostAllGet();
        CHECK(s, "C25:memspace", "there is no memory space of the host");
        if (!s)
            return;
        umf_memspace_handle_t c = nullptr;
        if (umfMemspaceClone(s, &c) == UMF_RESULT_SUCCESS) {
            CHECK(umfMemspaceMemtargetNum(c) == umfMemspaceMemtargetNum(s) && umfMemspaceMemtargetNum(c) > 0, "C25:memspace", "a clone has %zu targets", umfMemspaceMemtargetNum(c));
            umf_const_memtarget_handle_t m = umfMemspaceMemtargetGet(c, 0);
            size_t cap = 0;
            unsigned id = 0;
            CHECK(umfMemtargetGetCapacity(m, &cap) == UMF_RESULT_SUCCESS && cap, "C25:memspace", "capacity %zu", cap);
            CHECK(umfMemtargetGetId(m, &id) == UMF_RESULT_SUCCESS, "C25:memspace", "id");
            umfMemspaceFilterByCapacity(c, 1);
            if (r.chance(1, 2)) {
                umfMemspaceMemtargetRemove(c, umfMemspaceMemtargetGet(c, 0));
                umfMemspaceMemtargetAdd(c, umfMemspaceMemtargetGet(s, 0));
            }
            umfMemspaceDestroy(c);
        }
        if (r.chance(1, 2)) {
            umf_mempolicy_handle_t pol = nullptr;
            umfMempolicyCreate(r.chance(1, 2) ? UMF_MEMPOLICY_BIND : UMF_MEMPOLICY_PREFERRED, &pol);
            umf_memory_provider_handle_t h = nullptr;
            umf_result_t q = umfMemoryProviderCreateFromMemspace(s, pol, &h);
            CHECK(q == UMF_RESULT_SUCCESS, "C25:memspace", "umfMemoryProviderCreateFromMemspace: %d", q);
            umfMempolicyDestroy(pol);
            if (!q) {
                void *p = nullptr;
                q = umfMemoryProviderAlloc(h, PG, 0, &p);
                if (!q) {
                    fill((char *)p, PG, 1);
                    umfMemoryProviderFree(h, p, PG);
                }
                umfMemoryProviderDestroy(h);
            }
        }
        n["memspaces"]++;
#endif
    }
    void initAgain() { // uses of the library are counted
        if (umfInit())
            viol("C25:init", "umfInit failed while the library is in use");
        else {
            alloc();
            umfTearDown();
        }
        n["inits"]++;
    }
    void run(size_t ops) {
        for (size_t i = 0; i < ops; i++) {
            h::progress();
            unsigned op = (unsigned)r.below(100);
            sg = mix(sg, op);
            if (op < 26)
                alloc();
            else if (op < 34)
                palloc();
            else if (op < 52) {
                if (mine.size())
                    release(take(r.below(mine.size())), "before it is freed");
            } else if (op < 60) {
                if (mine.size())
                    lookup(mine[r.below(mine.size())]);
            } else if (op < 70)
                swap();
            else if (op < 75) {
                for (auto &b : mine)
                    if (b.pool && b.pool->ih && b.pool->prov->ipc() && r.chance(1, 2)) {
                        ipc(b);
                        break;
                    }
            } else if (op < 80)
                errors();
            else if (op < 86)
                queries();
            else if (op < 88)
                splitMerge();
            else if (op < 89)
                purge();
            else if (op < 94)
                priv();
            else if (op < 95)
                params();
            else if (op < 97)
                spaces();
            else if (op < 98)
                initAgain();
            else if (mine.size()) { // realloc where there is one
                Blk &b = mine[r.below(mine.size())];
                if (!b.pool || b.pool->k != SCAL || poisoned(b.pool))
                    continue;
                intact(b, "before realloc");
                size_t nn = size(false);
                evs.push_back({tick(), (uintptr_t)b.p, b.n, false});
                char *q = (char *)umfPoolRealloc(b.pool->h, b.p, nn);
                if (q) {
                    OPEN_UP(q, nn);
                    CHECK(checkfill(q, std::min(nn, b.n), b.seed) == std::min(nn, b.n), "C25:realloc", "contents changed");
                    b.p = q;
                    b.n = nn;
                }
                born(b);
                n["reallocs"]++;
            }
            n["ops"]++;
        }
    }
};
// no two blocks that were certainly alive at the same time share a byte
void lifetimes(std::vector<std::unique_ptr<Thread>> &ts) {
    std::vector<Ev> all;
    for (auto &t : ts)
        all.insert(all.end(), t->evs.begin(), t->evs.end());
    std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.t < b.t; });
    std::map<uintptr_t, size_t> live;
    for (auto &e : all) {
        if (!e.birth) {
            live.erase(e.p);
            continue;
        }
        auto it = live.upper_bound(e.p);
        bool bad = it != live.end() && it->first < e.p + e.n;
        if (it != live.begin()) {
            --it;
            bad |= it->first + it->second > e.p;
        }
        if (bad)
            viol("C25:overlap", "a block of %zu bytes at %#lx was given out while another one there was alive", e.n, (unsigned long)e.p);
        live[e.p] = e.n;
        cnt("lifetimes");
    }
}
} // namespace
void harness_begin() {
    setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
    umfTearDown(); // the use the library's constructor took
}
void run_case(uint64_t i, Rng &r) {
#ifdef VARIANT_SCHED
    static bool up = false;
    if (!up) // the machine is looked at once
        umfInit();
    up = true;
#else
    umfInit();
#endif
    World w;
    w.idx = i;
    w.scratch = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp";
    label("threads on everything");
    size_t np = r.range(1, 3), nq = r.range(1, 4);
    for (size_t k = 0; k < np; k++) {
        auto v = std::make_unique<Prov>();
        v->k = (PK)r.below(NPK);
        if (mkProv(*v, w, r, false))
            w.provs.push_back(std::move(v));
    }
    if (w.provs.empty())
        return;
    if (r.chance(1, 2))
        w.limits = umfDisjointPoolSharedLimitsCreate(PG * r.range(1, 200));
    for (size_t k = 0; k < nq; k++) {
        auto p = std::make_unique<Pool>();
#ifdef NO_TBB
        p->k = r.chance(2, 3) ? DISJ : PROXYP;
#else
        p->k = (QK)r.below(NQK);
#endif
        p->prov = w.provs[r.below(w.provs.size())].get();
        if (mkPool(*p, w, r))
            w.pools.push_back(std::move(p));
    }
    if (w.pools.empty())
        return;
    size_t T =
#ifdef VARIANT_SCHED
        r.range(2, 3);
#else
        r.range(2, 4);
#endif
    std::vector<std::unique_ptr<Thread>> ts;
    for (size_t t = 0; t < T; t++)
        ts.push_back(std::make_unique<Thread>(w, r.next(), (int)t));
    size_t ops =
#ifdef VARIANT_SCHED
        r.range(2, 8);
#else
        r.range(20, 120);
#endif
    uint64_t hash = 0;
#if defined(VARIANT_TSAND) || defined(VARIANT_ASAND)
    static const unsigned every[] = {0, 50, 300, 3000};
    verif_delay_seed = r.next() | 1;
    verif_delay_every = every[r.below(4)];
#endif
    if (ctx().mode == "sched") {
        std::vector<std::function<void()>> fs;
        for (auto &t : ts)
            fs.push_back([&t, ops] { t->run(ops); });
        auto res = sched::run(fs, r.next(), sched::random_params(r));
        CHECK(!res.deadlock, "C25:deadlock", "the threads wait for each other");
        hash = res.hash;
        cnt("steps", res.steps);
    } else {
        std::vector<std::thread> th;
        for (auto &t : ts)
            th.emplace_back([&t, ops] { t->run(ops); });
        for (auto &t : th)
            t.join();
        for (auto &t : ts)
            hash = mix(hash, t->sg);
    }
#if defined(VARIANT_TSAND) || defined(VARIANT_ASAND)
    verif_delay_every = 0;
#endif
    // what is left, in any order
    Thread fin(w, r.next(), 7);
    for (auto &t : ts) {
        fin.mine.insert(fin.mine.end(), t->mine.begin(), t->mine.end());
        for (auto &c : t->n)
            cnt(c.first.c_str(), c.second);
    }
    for (auto &s : w.box)
        if (Blk *b = s.exchange(nullptr)) {
            if (b->ih) {
                fin.openClose(*b);
                umfPutIPCHandle(b->ih);
                b->ih = nullptr;
            }
            fin.mine.push_back(*b);
            delete b;
        }
    lifetimes(ts);
    for (auto &b : fin.mine)
        if (b.pool || r.chance(1, 2))
            fin.lookup(b);
    while (fin.mine.size())
        fin.release(fin.take(r.below(fin.mine.size())), "at the end");
    for (auto &p : w.pools)
        umfPoolDestroy(p->h);
    if (w.limits)
        umfDisjointPoolSharedLimitsDestroy(w.limits);
    for (auto &v : w.provs) {
        if (v->k == FIXEDP) { // everything came back and was joined again
            void *p = nullptr;
            umf_result_t q = umfMemoryProviderAlloc(v->h, v->bufsz, 0, &p);
            CHECK(q == UMF_RESULT_SUCCESS && p == v->buf, "C25:conservation", "after everything was freed the fixed provider cannot give its whole buffer: %d", q);
            if (!q)
                umfMemoryProviderFree(v->h, p, v->bufsz);
            cnt("conserved");
        } else if (v->k <= OSSHM) {
            size_t a = 1;
            umf_result_t q = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", v->h, &a);
            CHECK(q == UMF_RESULT_SUCCESS && a == 0, "C25:conservation", "after everything was freed the OS provider has %zu bytes allocated", a);
            cnt("conserved");
        }
        dropProv(*v, false);
    }
#ifndef VARIANT_SCHED
    umfTearDown();
#endif
    sig(hash);
    cnt("worlds");
    cnt("threads", T);
    sample("%zu threads, %zu operations each, %zu providers, %zu pools", T, ops, w.provs.size(), w.pools.size());
}
void harness_end() {}
