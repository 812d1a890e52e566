// C13: every fallible step of every scenario fails in turn (the underlying
// provider, the operating system, the library's own metadata allocation), once
// or for a while; the operation may fail but must not crash, damage live
// allocations, keep the object from working afterwards or leak.
// modes: acquire - steps that obtain something fail; exact account at the end
//        release - steps that give something back fail as well; no account
#include "dax.hpp"
#include "ba.hpp"
#include "provs.hpp"
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <hwloc.h>
#include <pthread.h>
#include <sys/stat.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_level_zero.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
#include "base_alloc.h"
#include "coarse.h"
#include "critnib.h"
#include "ctl.h"
#include "ipc_internal.h"
#include "memspace_internal.h"
#include "ravl.h"
#include "utils_concurrency.h"
}

using namespace h;

// ------------------------------------------------------------------ fault points
enum Src { META, PROV, MMAP, LOCKINIT, FILEOP, HWLOC, TOPO, SHM, LIB, REL, NSRC };
static const char *const srcname[] = {"metadata", "provider", "mmap", "lock-init", "file", "hwloc", "topology", "shm", "library", "release"};
static bool armed = false;   // inside an operation under test
static bool release_mode = false;
static uint64_t npoint, fail_from, fail_len, fail_from2, ninj;
static uint64_t nsrc[NSRC], isrc[NSRC];
static std::string inj_names;
static bool wantbt = getenv("FAULT_BT") != nullptr;

static bool point(Src s) {
    if (!armed || (s == REL && !release_mode))
        return false;
    npoint++;
    nsrc[s]++;
    if ((npoint >= fail_from && npoint < fail_from + fail_len) || (fail_from2 && npoint == fail_from2)) {
        ninj++;
        isrc[s]++;
        if (inj_names.size() < 100) {
            inj_names += srcname[s];
            inj_names += " ";
        }
        if (wantbt) {
            armed = false;
            void *p[16];
            int n = backtrace(p, 16);
            fprintf(stderr, "inject %s at point %lu:\n", srcname[s], npoint);
            backtrace_symbols_fd(p + 1, n - 1, 2);
            armed = true;
        }
        return true;
    }
    return false;
}
static bool on_meta() { return point(META); }
static bool on_prov(int op) {
    using namespace pv;
    return point(op == FREE || op == IPCPUT || op == IPCCLOSE ? REL : PROV);
}

// ledger of what the library maps
static std::map<uintptr_t, size_t> *maps;
static std::atomic<int64_t> topos{0}, libs{0}, bitmaps{0};
static const char *synth = "numa:3 pu:2";

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if (point(MMAP)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = dax_request(f, fd) ? dax_map(__real_mmap, __real_munmap, n, p, f, fd, o) : __real_mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED && maps && armed)
        (*maps)[(uintptr_t)r] = n;
    return r;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n) {
    if (point(REL)) {
        errno = ENOMEM;
        return -1;
    }
    int r = __real_munmap(a, n);
    if (!r && maps) {
        uintptr_t lo = (uintptr_t)a, hi = lo + n;
        std::vector<std::pair<uintptr_t, size_t>> add;
        for (auto it = maps->begin(); it != maps->end();) {
            uintptr_t b = it->first, e = b + it->second;
            if (e <= lo || b >= hi) {
                ++it;
                continue;
            }
            if (b < lo)
                add.push_back({b, lo - b});
            if (e > hi)
                add.push_back({hi, e - hi});
            it = maps->erase(it);
        }
        for (auto &x : add)
            if (x.second >= 4096)
                (*maps)[x.first] = x.second;
    }
    return r;
}
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    if (point(LOCKINIT))
        return ENOMEM;
    return __real_pthread_mutex_init(m, a);
}
int __real_pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *);
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) {
    if (point(LOCKINIT))
        return ENOMEM;
    return __real_pthread_rwlock_init(m, a);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n) {
    if (point(FILEOP)) {
        errno = ENOSPC;
        return -1;
    }
    return __real_ftruncate(fd, n);
}
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
    if (point(FILEOP))
        return ENOSPC;
    return __real_posix_fallocate(fd, o, n);
}
int __real_utils_file_open(const char *);
int __wrap_utils_file_open(const char *p) {
    if (point(FILEOP))
        return -1;
    return __real_utils_file_open(p);
}
int __real_utils_file_open_or_create(const char *);
int __wrap_utils_file_open_or_create(const char *p) {
    if (point(FILEOP))
        return -1;
    return __real_utils_file_open_or_create(p);
}
int __real_utils_create_anonymous_fd(void);
int __wrap_utils_create_anonymous_fd(void) {
    if (point(FILEOP))
        return -1;
    return __real_utils_create_anonymous_fd();
}
int __real_utils_devdax_open(const char *path);
int __wrap_utils_devdax_open(const char *path) {
    if (point(FILEOP))
        return -1;
    if (strstr(path, "fakedax"))
        return open(path, O_RDWR | O_CLOEXEC);
    return __real_utils_devdax_open(path);
}
int __real_shm_open(const char *, int, mode_t);
int __wrap_shm_open(const char *n, int f, mode_t m) {
    if (point(SHM)) {
        errno = EMFILE;
        return -1;
    }
    return __real_shm_open(n, f, m);
}
int __real_madvise(void *, size_t, int);
int __wrap_madvise(void *a, size_t n, int adv) {
    if (point(MMAP)) {
        errno = EAGAIN;
        return -1;
    }
    return __real_madvise(a, n, adv);
}
int __real_hwloc_topology_init(hwloc_topology_t *);
int __wrap_hwloc_topology_init(hwloc_topology_t *t) {
    if (point(TOPO)) {
        errno = ENOMEM;
        return -1;
    }
    int r = __real_hwloc_topology_init(t);
    if (!r)
        topos++;
    return r;
}
int __real_hwloc_topology_load(hwloc_topology_t);
int __wrap_hwloc_topology_load(hwloc_topology_t t) {
    if (point(TOPO)) {
        errno = ENOMEM;
        return -1;
    }
    hwloc_topology_set_synthetic(t, synth);
    return __real_hwloc_topology_load(t);
}
void __real_hwloc_topology_destroy(hwloc_topology_t);
void __wrap_hwloc_topology_destroy(hwloc_topology_t t) {
    topos--;
    CHECK(topos >= 0, "C13:topology-twice", "a hardware topology is destroyed twice");
    __real_hwloc_topology_destroy(t);
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int) {
    if (point(HWLOC)) {
        errno = ENOMEM;
        return -1;
    }
    return 0;
}
hwloc_bitmap_t __real_hwloc_bitmap_alloc(void);
hwloc_bitmap_t __wrap_hwloc_bitmap_alloc(void) {
    if (point(HWLOC))
        return nullptr;
    bitmaps++;
    return __real_hwloc_bitmap_alloc();
}
hwloc_bitmap_t __real_hwloc_bitmap_dup(hwloc_const_bitmap_t);
hwloc_bitmap_t __wrap_hwloc_bitmap_dup(hwloc_const_bitmap_t b) {
    if (point(HWLOC))
        return nullptr;
    bitmaps++;
    return __real_hwloc_bitmap_dup(b);
}
void __real_hwloc_bitmap_free(hwloc_bitmap_t);
void __wrap_hwloc_bitmap_free(hwloc_bitmap_t b) {
    if (b)
        bitmaps--;
    __real_hwloc_bitmap_free(b);
}
// synthetic memory attributes, so that every predefined memspace exists
int __real_hwloc_memattr_get_value(hwloc_topology_t, hwloc_memattr_id_t, hwloc_obj_t, struct hwloc_location *, unsigned long,
                                   hwloc_uint64_t *);
int __wrap_hwloc_memattr_get_value(hwloc_topology_t t, hwloc_memattr_id_t a, hwloc_obj_t target, struct hwloc_location *in,
                                   unsigned long f, hwloc_uint64_t *v) {
    if (point(HWLOC)) {
        errno = EINVAL;
        return -1;
    }
    if (a == HWLOC_MEMATTR_ID_BANDWIDTH || a == HWLOC_MEMATTR_ID_LATENCY) {
        *v = 100 + target->os_index * 10;
        return 0;
    }
    return __real_hwloc_memattr_get_value(t, a, target, in, f, v);
}
void *__real_dlopen(const char *, int);
void *__wrap_dlopen(const char *n, int f) {
    if (point(LIB))
        return nullptr;
    void *r = __real_dlopen(n, f);
    if (r)
        libs++;
    return r;
}
int __real_dlclose(void *);
int __wrap_dlclose(void *l) {
    libs--;
    return __real_dlclose(l);
}
}

// ------------------------------------------------------------------ environment of one run
struct Run {
    Rng r;
    bool retry;  // a failed step is repeated without faults
    bool broken = false; // a fault has made later failures legitimate
    bool sticky = false; // the topology and the predefined memspaces are made once until umfTearDown()
    struct L {
        unsigned char *p;
        size_t n;
        uint64_t tag;
        umf_memory_pool_handle_t pool;
        bool ro;
    };
    std::vector<L> live;
    uint64_t nexttag = 1;
    const char *scen = "";
    std::vector<std::function<void()>> last; // run after everything, without faults

    explicit Run(uint64_t seed, bool rt) : r(seed), retry(rt) {}

    void verify(const char *after) {
        for (auto &l : live) {
            size_t i = checkfill(l.p, l.n, l.tag);
            if (i != l.n) {
                viol("C13:damaged", "%s: after %s (failed: %s) byte %zu of a live allocation of %zu changed", scen, after,
                     inj_names.c_str(), i, l.n);
                fill(l.p, l.n, l.tag);
            }
        }
    }
    // fn returns whether the operation succeeded
    template <class F> bool op(const char *name, F fn) {
        char lb[120];
        snprintf(lb, sizeof lb, "%s: %s", scen, name);
        label("%s", lb);
        uint64_t i0 = ninj, t0 = isrc[TOPO] + isrc[LIB], r0 = isrc[REL];
        inj_names.clear();
        armed = true;
        bool ok = fn();
        armed = false;
        uint64_t faults = ninj - i0;
        if (sticky && (isrc[TOPO] + isrc[LIB] != t0 || (!ok && !strncmp(name, "umfMemspace", 11) && strstr(name, "Get"))))
            broken = broken || faults;
        cnt("operations");
        if (faults) {
            cnt("operations_with_fault");
            cnt(ok ? "fault_tolerated" : "fault_reported");
        }
        if (!ok && !faults && !broken) {
            char k[128];
            snprintf(k, sizeof k, "C13:spurious:%s:%s", scen, name);
            viol(k, "%s: %s fails although nothing it needs failed", scen, name);
        }
        verify(name);
        // a release that was refused while memory to record the block again was missing too: it can only be given up
        bool twice = isrc[REL] != r0 && faults != isrc[REL] - r0;
        if (!ok && faults && retry && !broken && !twice) {
            ok = fn();
            cnt("recoveries");
            if (!ok) {
                char k[128];
                snprintf(k, sizeof k, "C13:norecovery:%s:%s", scen, name);
                viol(k, "%s: %s fails again after %s failed once", scen, name, inj_names.c_str());
            }
            verify(name);
        }
        if (!ok && release_mode)
            broken = true;
        return ok;
    }
    void add(void *p, size_t n, umf_memory_pool_handle_t pool = nullptr) {
        for (auto &l : live)
            if ((unsigned char *)p < l.p + l.n && l.p < (unsigned char *)p + n) {
                if (!release_mode)
                    viol("C13:overlap", "%s: allocation %p+%zu overlaps the live allocation %p+%zu", scen, p, n, l.p, l.n);
                return;
            }
        L l{(unsigned char *)p, n, nexttag++, pool, false};
        fill(p, n, l.tag);
        live.push_back(l);
    }
    void drop(size_t i) {
        live[i] = live.back();
        live.pop_back();
    }
};

// allocations and frees on one pool
static void churn(Run &R, umf_memory_pool_handle_t pool, int steps, size_t maxsz, bool aligned, bool byptr) {
    for (int s = 0; s < steps; s++) {
        size_t nl = 0;
        for (auto &l : R.live)
            nl += l.pool == pool;
        if (nl && R.r.chance(2, 5)) {
            size_t k = R.r.below(nl), i = 0;
            for (i = 0; i < R.live.size(); i++)
                if (R.live[i].pool == pool && k-- == 0)
                    break;
            auto l = R.live[i];
            R.drop(i); // the contents may change in the moment the free begins
            bool any = R.r.chance(1, 2);
            bool ok = R.op(any ? "umfFree" : "umfPoolFree",
                           [&] { return (any ? umfFree(l.p) : umfPoolFree(pool, l.p)) == UMF_RESULT_SUCCESS; });
            if (!ok && !release_mode) { // still allocated
                armed = false;
                umfPoolFree(pool, l.p);
            }
        } else {
            size_t n = std::max<size_t>(1, R.r.logsize(maxsz));
            size_t al = aligned && R.r.chance(1, 3) ? 1ull << R.r.range(3, 13) : 0;
            void *p = nullptr;
            if (R.op(al ? "umfPoolAlignedMalloc" : "umfPoolMalloc", [&] {
                    p = al ? umfPoolAlignedMalloc(pool, n, al) : umfPoolMalloc(pool, n);
                    return p != nullptr;
                })) {
                R.add(p, n, pool);
                if (byptr)
                    CHECK(umfPoolByPtr((char *)p + R.r.below(n)) == pool, "C13:lookup", "%s: a live allocation is not found", R.scen);
            }
        }
    }
}
static void freeAll(Run &R, umf_memory_pool_handle_t pool) {
    for (size_t i = 0; i < R.live.size();)
        if (R.live[i].pool == pool) {
            auto l = R.live[i];
            R.drop(i);
            bool ok = R.op("umfPoolFree", [&] { return umfPoolFree(pool, l.p) == UMF_RESULT_SUCCESS; });
            if (!ok && !release_mode)
                umfPoolFree(pool, l.p);
        } else
            i++;
}
static void destroy(Run &R, umf_memory_pool_handle_t pool) {
    label("%s: umfPoolDestroy", R.scen);
    armed = true;
    umfPoolDestroy(pool);
    armed = false;
    R.verify("umfPoolDestroy");
}
static void destroyProv(Run &R, umf_memory_provider_handle_t p) {
    label("%s: umfMemoryProviderDestroy", R.scen);
    armed = true;
    umfMemoryProviderDestroy(p);
    armed = false;
    R.verify("umfMemoryProviderDestroy");
}
static bool mkprov(Run &R, const umf_memory_provider_ops_t *ops, void *params, umf_memory_provider_handle_t *h) {
    return R.op("umfMemoryProviderCreate", [&] {
        *h = nullptr;
        return umfMemoryProviderCreate(ops, params, h) == UMF_RESULT_SUCCESS;
    });
}
static bool mkpool(Run &R, const umf_memory_pool_ops_t *ops, umf_memory_provider_handle_t pr, void *params, unsigned flags,
                   umf_memory_pool_handle_t *h) {
    return R.op("umfPoolCreate", [&] {
        *h = nullptr;
        return umfPoolCreate(ops, pr, params, flags, h) == UMF_RESULT_SUCCESS;
    });
}
static void clean(Run &R, pv::Prov &P) {
    if (release_mode)
        return;
    CHECK(P.live.empty(), "C13:leak-provider", "%s: %zu blocks (%zu bytes) of the provider are not given back", R.scen,
          P.live.size(), P.live_bytes);
    CHECK(P.handles.empty(), "C13:leak-handle", "%s: %zu IPC handles of the provider are not put", R.scen, P.handles.size());
    CHECK(P.opened.empty(), "C13:leak-opened", "%s: %zu IPC mappings of the provider are not closed", R.scen, P.opened.size());
}
static std::string scratch() {
    const char *s = getenv("VERIF_SCRATCH");
    return s ? s : "/tmp";
}

// ------------------------------------------------------------------ scenarios
static umf_disjoint_pool_params_handle_t djParams(Run &R, umf_disjoint_pool_shared_limits_handle_t *sl) {
    umf_disjoint_pool_params_handle_t dp = nullptr;
    size_t slab = 4096ull << R.r.below(3), maxp = R.r.chance(1, 2) ? 4096 : 65536;
    bool lim = R.r.chance(1, 2), name = R.r.chance(1, 2);
    size_t cap = R.r.below(4);
    if (!R.op("umfDisjointPoolParamsCreate", [&] { return umfDisjointPoolParamsCreate(&dp) == UMF_RESULT_SUCCESS; }))
        return nullptr;
    *sl = nullptr;
    if (lim)
        R.op("umfDisjointPoolSharedLimitsCreate", [&] {
            *sl = umfDisjointPoolSharedLimitsCreate(slab * 3);
            return *sl != nullptr;
        });
    umfDisjointPoolParamsSetSlabMinSize(dp, slab);
    umfDisjointPoolParamsSetMaxPoolableSize(dp, maxp);
    umfDisjointPoolParamsSetCapacity(dp, cap);
    umfDisjointPoolParamsSetMinBucketSize(dp, 64);
    if (*sl)
        umfDisjointPoolParamsSetSharedLimits(dp, *sl);
    if (name)
        R.op("umfDisjointPoolParamsSetName", [&] { return umfDisjointPoolParamsSetName(dp, "faulty") == UMF_RESULT_SUCCESS; });
    return dp;
}
static void scDisjoint(Run &R) {
    pv::Prov P;
    P.arena = 4 << 20;
    P.quiet = release_mode;
    P.start();
    umf_memory_provider_handle_t pr = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    umf_disjoint_pool_shared_limits_handle_t sl = nullptr;
    if (mkprov(R, pv::ops(true, true), &P, &pr)) {
        auto dp = djParams(R, &sl);
        if (dp) {
            bool own = R.r.chance(1, 3);
            bool ok = mkpool(R, umfDisjointPoolOps(), pr, dp, own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0, &pool);
            R.op("umfDisjointPoolParamsDestroy", [&] { return umfDisjointPoolParamsDestroy(dp) == UMF_RESULT_SUCCESS; });
            if (ok) {
                churn(R, pool, 24, 20000, true, true);
                freeAll(R, pool);
                destroy(R, pool);
                if (own)
                    pr = nullptr;
            }
        }
        if (sl)
            umfDisjointPoolSharedLimitsDestroy(sl);
        if (pr)
            destroyProv(R, pr);
    }
    clean(R, P);
}
static void scProxy(Run &R) {
    pv::Prov P;
    P.arena = 4 << 20;
    P.quiet = release_mode;
    P.start();
    umf_memory_provider_handle_t pr = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    if (mkprov(R, pv::ops(R.r.chance(1, 2), R.r.chance(1, 2)), &P, &pr)) {
        unsigned flags = 0;
        if (mkpool(R, umfProxyPoolOps(), pr, nullptr, flags, &pool)) {
            for (int s = 0; s < 24; s++) {
                if (!R.live.empty() && R.r.chance(2, 5)) {
                    size_t i = R.r.below(R.live.size());
                    auto l = R.live[i];
                    R.drop(i);
                    bool ok = R.op("umfPoolFree", [&] { return umfPoolFree(pool, l.p) == UMF_RESULT_SUCCESS; });
                    if (!ok && !release_mode)
                        umfPoolFree(pool, l.p);
                } else {
                    size_t n = R.r.range(1, 30000);
                    void *p = nullptr;
                    if (R.op("umfPoolMalloc", [&] { return (p = umfPoolMalloc(pool, n)) != nullptr; })) {
                        R.add(p, n, pool);
                        if (!flags)
                            CHECK(umfPoolByPtr(p) == pool, "C13:lookup", "%s: a live allocation is not found", R.scen);
                    }
                }
            }
            freeAll(R, pool);
            destroy(R, pool);
        }
        destroyProv(R, pr);
    }
    if (!P.quiet)
        clean(R, P);
}
static void scScalable(Run &R) {
    R.sticky = true;
    pv::Prov P;
    P.arena = 32 << 20;
    P.quiet = release_mode;
    P.fill_garbage = false;
    P.start();
    umf_memory_provider_handle_t pr = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    if (mkprov(R, pv::ops(true, true), &P, &pr)) {
        umf_scalable_pool_params_handle_t sp = nullptr;
        bool par = R.r.chance(1, 2);
        if (par && R.op("umfScalablePoolParamsCreate", [&] { return umfScalablePoolParamsCreate(&sp) == UMF_RESULT_SUCCESS; })) {
            umfScalablePoolParamsSetGranularity(sp, 1 << 20);
            umfScalablePoolParamsSetKeepAllMemory(sp, R.r.chance(1, 2));
        }
        bool ok = mkpool(R, umfScalablePoolOps(), pr, sp, 0, &pool);
        if (sp)
            umfScalablePoolParamsDestroy(sp);
        if (ok) {
            churn(R, pool, 16, 300000, true, true);
            freeAll(R, pool);
            destroy(R, pool);
        }
        destroyProv(R, pr);
    }
    clean(R, P);
}
static void scNested(Run &R) {
    pv::Prov P;
    P.arena = 8 << 20;
    P.quiet = release_mode;
    P.start();
    umf_memory_provider_handle_t pr = nullptr, pr2 = nullptr;
    umf_memory_pool_handle_t pool = nullptr, in = nullptr;
    pv::PoolProv pp{nullptr, 4096};
    umf_disjoint_pool_shared_limits_handle_t sl = nullptr;
    if (mkprov(R, pv::ops(true, true), &P, &pr)) {
        if (mkpool(R, umfProxyPoolOps(), pr, nullptr, 0, &pool)) {
            pp.pool = pool;
            if (mkprov(R, pv::poolProvOps(), &pp, &pr2)) {
                auto dp = djParams(R, &sl);
                if (dp) {
                    bool ok = mkpool(R, R.r.chance(1, 2) ? umfDisjointPoolOps() : umfProxyPoolOps(), pr2, dp, 0, &in);
                    umfDisjointPoolParamsDestroy(dp);
                    if (ok) {
                        for (int i = 0; i < 4; i++) {
                            churn(R, in, 5, 9000, false, true);
                            churn(R, pool, 2, 9000, false, true);
                        }
                        freeAll(R, in);
                        destroy(R, in);
                        freeAll(R, pool);
                    }
                }
                if (sl)
                    umfDisjointPoolSharedLimitsDestroy(sl);
                destroyProv(R, pr2);
            }
            destroy(R, pool);
        }
        destroyProv(R, pr);
    }
    clean(R, P);
}
static void scSplit(Run &R) {
    pv::Prov P;
    P.arena = 4 << 20;
    P.quiet = release_mode;
    P.start();
    umf_memory_provider_handle_t pr = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    pv::PassPool pass;
    struct B {
        size_t n;
        uint64_t origin;
    };
    std::map<uintptr_t, B> a;
    if (mkprov(R, pv::ops(true, true), &P, &pr)) {
        if (mkpool(R, pv::passOps(), pr, &pass, 0, &pool)) {
            uint64_t org = 1;
            for (int s = 0; s < 26; s++) {
                unsigned k = (unsigned)R.r.below(10);
                if (a.empty() || k < 3) {
                    size_t n = 4096 * R.r.range(1, 8);
                    void *p = nullptr;
                    if (R.op("umfMemoryProviderAlloc", [&] { return umfMemoryProviderAlloc(pass.prov, n, 0, &p) == UMF_RESULT_SUCCESS; })) {
                        a[(uintptr_t)p] = {n, org++};
                        R.add(p, n, pool);
                    }
                    continue;
                }
                auto it = std::next(a.begin(), R.r.below(a.size()));
                auto forget = [&](uintptr_t p, size_t n) {
                    for (size_t i = 0; i < R.live.size();)
                        if ((uintptr_t)R.live[i].p >= p && (uintptr_t)R.live[i].p < p + n)
                            R.drop(i);
                        else
                            i++;
                };
                if (k < 6 && it->second.n > 4096) {
                    size_t f = 4096 * R.r.range(1, it->second.n / 4096 - 1), n = it->second.n;
                    void *p = (void *)it->first;
                    if (R.op("umfMemoryProviderAllocationSplit",
                             [&] { return umfMemoryProviderAllocationSplit(pass.prov, p, n, f) == UMF_RESULT_SUCCESS; })) {
                        it->second.n = f;
                        a[(uintptr_t)p + f] = {n - f, it->second.origin};
                        CHECK(umfPoolByPtr((char *)p + f) == pool && umfPoolByPtr((char *)p + f - 1) == pool, "C13:lookup",
                              "a part of a split allocation is not found");
                    } else if (!release_mode)
                        CHECK(umfPoolByPtr((char *)p + n - 1) == pool, "C13:lookup", "after a failed split its upper part is lost");
                } else if (k < 8) {
                    auto nx = std::next(it);
                    if (nx == a.end() || nx->first != it->first + it->second.n || nx->second.origin != it->second.origin)
                        continue;
                    void *lo = (void *)it->first, *hi = (void *)nx->first;
                    size_t n = it->second.n + nx->second.n;
                    if (R.op("umfMemoryProviderAllocationMerge",
                             [&] { return umfMemoryProviderAllocationMerge(pass.prov, lo, hi, n) == UMF_RESULT_SUCCESS; })) {
                        it->second.n = n;
                        a.erase(nx);
                    }
                    if (!release_mode)
                        CHECK(umfPoolByPtr((char *)lo + n - 1) == pool && umfPoolByPtr(hi) == pool, "C13:lookup",
                              "a part of a merged allocation is not found");
                } else {
                    void *p = (void *)it->first;
                    size_t n = it->second.n;
                    forget(it->first, n);
                    a.erase(it);
                    // a larger tagged block may reach into what was freed: stop watching what is left of it
                    for (size_t i = 0; i < R.live.size();)
                        if (R.live[i].p < (unsigned char *)p + n && R.live[i].p + R.live[i].n > (unsigned char *)p)
                            R.drop(i);
                        else
                            i++;
                    if (!R.op("umfMemoryProviderFree", [&] { return umfMemoryProviderFree(pass.prov, p, n) == UMF_RESULT_SUCCESS; }) &&
                        !release_mode)
                        umfMemoryProviderFree(pass.prov, p, n);
                }
            }
            R.live.clear();
            for (auto &x : a)
                if (!R.op("umfMemoryProviderFree",
                          [&] { return umfMemoryProviderFree(pass.prov, (void *)x.first, x.second.n) == UMF_RESULT_SUCCESS; }) &&
                    !release_mode)
                    umfMemoryProviderFree(pass.prov, (void *)x.first, x.second.n);
            destroy(R, pool);
        }
        destroyProv(R, pr);
    }
    clean(R, P);
}
static void scIpc(Run &R) {
    pv::Prov P, Q;
    P.arena = Q.arena = 4 << 20;
    P.quiet = Q.quiet = release_mode;
    P.start();
    Q.start();
    umf_memory_provider_handle_t pr = nullptr, qr = nullptr;
    umf_memory_pool_handle_t pool = nullptr, con = nullptr;
    struct X {
        umf_ipc_handle_t h;
        unsigned char *src;
        size_t n;
        std::vector<void *> open;
    };
    std::vector<X> xs;
    if (mkprov(R, pv::ops(true, true), &P, &pr) && mkprov(R, pv::ops(true, true), &Q, &qr)) {
        if (mkpool(R, umfProxyPoolOps(), pr, nullptr, 0, &pool) && mkpool(R, umfProxyPoolOps(), qr, nullptr, 0, &con)) {
            umf_ipc_handler_handle_t ih = nullptr;
            R.op("umfPoolGetIPCHandler", [&] { return umfPoolGetIPCHandler(con, &ih) == UMF_RESULT_SUCCESS; });
            size_t hs = 0;
            R.op("umfPoolGetIPCHandleSize", [&] { return umfPoolGetIPCHandleSize(pool, &hs) == UMF_RESULT_SUCCESS; });
            for (int s = 0; s < 26; s++) {
                unsigned k = (unsigned)R.r.below(10);
                if (k < 2 || R.live.empty()) {
                    size_t n = R.r.range(1, 9000);
                    void *p = nullptr;
                    if (R.op("umfPoolMalloc", [&] { return (p = umfPoolMalloc(pool, n)) != nullptr; }))
                        R.add(p, n, pool);
                } else if (k < 5) {
                    auto &l = R.live[R.r.below(R.live.size())];
                    umf_ipc_handle_t hd = nullptr;
                    size_t sz = 0;
                    if (R.op("umfGetIPCHandle", [&] { return umfGetIPCHandle(l.p, &hd, &sz) == UMF_RESULT_SUCCESS; }))
                        xs.push_back({hd, l.p, l.n, {}});
                } else if (k < 8 && !xs.empty() && ih) {
                    auto &x = xs[R.r.below(xs.size())];
                    void *v = nullptr;
                    if (R.op("umfOpenIPCHandle", [&] { return umfOpenIPCHandle(ih, x.h, &v) == UMF_RESULT_SUCCESS; })) {
                        x.open.push_back(v);
                        if (!release_mode)
                            CHECK(memcmp(v, x.src, x.n) == 0, "C13:ipc-bytes", "the opened memory differs from the exported one");
                    }
                } else if (k == 8 && !xs.empty()) {
                    auto &x = xs[R.r.below(xs.size())];
                    if (!x.open.empty()) {
                        void *v = x.open.back();
                        x.open.pop_back();
                        R.op("umfCloseIPCHandle", [&] { return umfCloseIPCHandle(v) == UMF_RESULT_SUCCESS; });
                    }
                } else if (!xs.empty()) {
                    size_t i = R.r.below(xs.size());
                    if (xs[i].open.empty()) {
                        auto hd = xs[i].h;
                        xs[i] = xs.back();
                        xs.pop_back();
                        R.op("umfPutIPCHandle", [&] { return umfPutIPCHandle(hd) == UMF_RESULT_SUCCESS; });
                    }
                }
            }
            for (auto &x : xs) {
                for (auto v : x.open)
                    R.op("umfCloseIPCHandle", [&] { return umfCloseIPCHandle(v) == UMF_RESULT_SUCCESS; });
                R.op("umfPutIPCHandle", [&] { return umfPutIPCHandle(x.h) == UMF_RESULT_SUCCESS; });
            }
            freeAll(R, pool);
        }
        if (con)
            destroy(R, con);
        if (pool)
            destroy(R, pool);
    }
    if (qr)
        destroyProv(R, qr);
    if (pr)
        destroyProv(R, pr);
    clean(R, P);
    clean(R, Q);
}
// any provider under allocations, frees, splits and merges
struct PBlk {
    size_t n;
    uint64_t org;
};
template <class A, class Fr, class S, class M> static void carve(Run &R, int steps, size_t page, int maxpages, A al, Fr fr, S sp, M mg) {
    std::map<uintptr_t, PBlk> a;
    uint64_t org = 1;
    auto unwatch = [&](uintptr_t p, size_t n) {
        for (size_t i = 0; i < R.live.size();)
            if ((uintptr_t)R.live[i].p < p + n && (uintptr_t)R.live[i].p + R.live[i].n > p)
                R.drop(i);
            else
                i++;
    };
    for (int s = 0; s < steps; s++) {
        unsigned k = (unsigned)R.r.below(12);
        if (a.empty() || k < 5) {
            size_t n = page * R.r.range(1, maxpages);
            size_t align = R.r.chance(1, 3) ? page << R.r.below(page > 4096 ? 2 : 4) : 0;
            void *p = nullptr;
            if (R.op("alloc", [&] { return al(n, align, &p) == UMF_RESULT_SUCCESS; })) {
                CHECK(!align || (uintptr_t)p % align == 0, "C13:misaligned", "%s: %p is not aligned to %zu", R.scen, p, align);
                pv::Prov::unpoison(p, n);
                a[(uintptr_t)p] = {n, org++};
                R.add(p, n);
            }
            continue;
        }
        auto it = std::next(a.begin(), R.r.below(a.size()));
        if (k < 7 && it->second.n > page) {
            size_t f = page * R.r.range(1, it->second.n / page - 1), n = it->second.n;
            void *p = (void *)it->first;
            if (R.op("split", [&] { return sp(p, n, f) == UMF_RESULT_SUCCESS; })) {
                it->second.n = f;
                a[(uintptr_t)p + f] = {n - f, it->second.org};
            }
        } else if (k < 9) {
            auto nx = std::next(it);
            if (nx == a.end() || nx->first != it->first + it->second.n || nx->second.org != it->second.org)
                continue;
            void *lo = (void *)it->first, *hi = (void *)nx->first;
            size_t n = it->second.n + nx->second.n;
            if (R.op("merge", [&] { return mg(lo, hi, n) == UMF_RESULT_SUCCESS; })) {
                it->second.n = n;
                a.erase(nx);
            }
        } else {
            void *p = (void *)it->first;
            size_t n = it->second.n;
            unwatch(it->first, n);
            a.erase(it);
            if (!R.op("free", [&] { return fr(p, n) == UMF_RESULT_SUCCESS; }) && !release_mode)
                CHECK(fr(p, n) == UMF_RESULT_SUCCESS, "C13:lost", "%s: an allocation cannot be freed after a failed free", R.scen);
        }
    }
    R.live.clear();
    for (auto &x : a)
        if (!R.op("free", [&] { return fr((void *)x.first, x.second.n) == UMF_RESULT_SUCCESS; }) && !release_mode)
            CHECK(fr((void *)x.first, x.second.n) == UMF_RESULT_SUCCESS, "C13:lost",
                  "%s: an allocation cannot be freed after a failed free", R.scen);
}
static void carveProv(Run &R, umf_memory_provider_handle_t pr, int steps, size_t page, int maxpages) {
    carve(
        R, steps, page, maxpages, [&](size_t n, size_t a, void **p) { return umfMemoryProviderAlloc(pr, n, a, p); },
        [&](void *p, size_t n) { return umfMemoryProviderFree(pr, p, n); },
        [&](void *p, size_t n, size_t f) { return umfMemoryProviderAllocationSplit(pr, p, n, f); },
        [&](void *l, void *hh, size_t n) { return umfMemoryProviderAllocationMerge(pr, l, hh, n); });
}
static void scCoarse(Run &R) {
    pv::Prov P;
    P.arena = 8 << 20;
    P.gran = 4096;
    P.quiet = release_mode;
    P.start();
    coarse_params_t cp;
    memset(&cp, 0, sizeof cp);
    cp.provider = &P;
    cp.page_size = 4096;
    cp.allocation_strategy = (coarse_strategy_t)R.r.below(3);
    cp.cb.alloc = [](void *p, size_t n, size_t a, void **o) { return ((pv::Prov *)p)->alloc(n, a, o); };
    bool cbfree = R.r.chance(1, 2);
    cp.cb.free = [](void *p, void *q, size_t n) { return ((pv::Prov *)p)->free_(q, n); };
    if (!cbfree)
        cp.cb.free = nullptr;
    static bool owned; // there are upstream blocks
    static bool unmerged; // upstream refused to merge blocks
    unmerged = false;
    cp.cb.split = [](void *p, void *q, size_t t, size_t f) {
        return owned ? ((pv::Prov *)p)->split(q, t, f) : pv::fault_hook(pv::SPLIT) ? UMF_RESULT_ERROR_UNKNOWN : UMF_RESULT_SUCCESS;
    };
    cp.cb.merge = [](void *p, void *l, void *hh, size_t t) {
        umf_result_t rc =
            owned ? ((pv::Prov *)p)->merge(l, hh, t) : pv::fault_hook(pv::MERGE) ? UMF_RESULT_ERROR_UNKNOWN : UMF_RESULT_SUCCESS;
        unmerged |= rc != UMF_RESULT_SUCCESS;
        return rc;
    };
    bool fixed = R.r.chance(1, 3);
    owned = !fixed;
    void *region = nullptr;
    size_t rsz = 0;
    if (fixed) {
        cp.cb.alloc = nullptr;
        cp.cb.free = nullptr;
        rsz = 4096 * 512;
        region = aligned_alloc(4096, rsz);
    }
    coarse_t *c = nullptr;
    if (R.op("coarse_new", [&] { return coarse_new(&cp, &c) == UMF_RESULT_SUCCESS; })) {
        bool ok = true;
        if (fixed)
            ok = R.op("coarse_add_memory_fixed", [&] { return coarse_add_memory_fixed(c, region, rsz) == UMF_RESULT_SUCCESS; });
        else if (R.r.chance(1, 2))
            R.op("coarse_add_memory_from_provider", [&] { return coarse_add_memory_from_provider(c, 4096 * 32) == UMF_RESULT_SUCCESS; });
        if (ok) {
            // what the model says is in use
            carve(
                R, 30, 4096, 9, [&](size_t n, size_t a, void **p) { return coarse_alloc(c, n, a, p); },
                [&](void *p, size_t n) { return coarse_free(c, p, n); },
                [&](void *p, size_t n, size_t f) { return coarse_split(c, p, n, f); },
                [&](void *l, void *hh, size_t n) { return coarse_merge(c, l, hh, n); });
            coarse_stats_t st = coarse_get_stats(c);
            if (!release_mode) {
                CHECK(st.used_size == 0, "C13:coarse-used", "everything is free but used_size is %zu", st.used_size);
                CHECK(st.num_free_blocks == st.num_all_blocks, "C13:coarse-lost", "everything is free but %zu of %zu blocks are free",
                      st.num_free_blocks, st.num_all_blocks);
                // all of it can be had again, unless blocks had to stay apart
                if (fixed && !unmerged) {
                    void *p = nullptr;
                    umf_result_t rc = coarse_alloc(c, rsz - 4096, 0, &p);
                    CHECK(rc == UMF_RESULT_SUCCESS, "C13:coarse-whole", "the whole region is free but cannot be allocated: %d", rc);
                    if (p)
                        coarse_free(c, p, rsz - 4096);
                }
            }
        }
        label("coarse_delete");
        armed = true;
        coarse_delete(c);
        armed = false;
    }
    if (region) {
        pv::Prov::unpoison(region, rsz);
        free(region);
    }
    if (cbfree && !fixed)
        clean(R, P);
}
static void scFixed(Run &R) {
    size_t n = 4096 * 256;
    void *region = aligned_alloc(4096, n);
    umf_fixed_memory_provider_params_handle_t fp = nullptr;
    umf_memory_provider_handle_t pr = nullptr;
    if (R.op("umfFixedMemoryProviderParamsCreate", [&] { return umfFixedMemoryProviderParamsCreate(&fp, region, n) == UMF_RESULT_SUCCESS; })) {
        bool ok = mkprov(R, umfFixedMemoryProviderOps(), fp, &pr);
        umfFixedMemoryProviderParamsDestroy(fp);
        if (ok) {
            carveProv(R, pr, 24, 4096, 9);
            destroyProv(R, pr);
        }
    }
    pv::Prov::unpoison(region, n);
    free(region);
}
static void scFile(Run &R) {
    std::string f = scratch() + "/fault_" + std::to_string(getpid());
    umf_file_memory_provider_params_handle_t fp = nullptr;
    umf_memory_provider_handle_t pr = nullptr;
    if (R.op("umfFileMemoryProviderParamsCreate", [&] { return umfFileMemoryProviderParamsCreate(&fp, f.c_str()) == UMF_RESULT_SUCCESS; })) {
        bool shared = R.r.chance(1, 2);
        umfFileMemoryProviderParamsSetVisibility(fp, shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        if (R.r.chance(1, 2))
            R.op("umfFileMemoryProviderParamsSetPath",
                 [&] { return umfFileMemoryProviderParamsSetPath(fp, f.c_str()) == UMF_RESULT_SUCCESS; });
        bool ok = mkprov(R, umfFileMemoryProviderOps(), fp, &pr);
        umfFileMemoryProviderParamsDestroy(fp);
        if (ok) {
            umf_memory_pool_handle_t pool = nullptr;
            if (R.r.chance(1, 2)) {
                carveProv(R, pr, 16, 4096, 9);
                if (shared) {
                    size_t hs = 0;
                    R.op("umfPoolCreate+ipc", [&] { return umfPoolCreate(umfProxyPoolOps(), pr, nullptr, 0, &pool) == UMF_RESULT_SUCCESS; });
                    if (pool) {
                        void *p = nullptr;
                        if (R.op("umfPoolMalloc", [&] { return (p = umfPoolMalloc(pool, 8192)) != nullptr; })) {
                            R.add(p, 8192, pool);
                            umf_ipc_handle_t hd = nullptr;
                            umf_ipc_handler_handle_t ih = nullptr;
                            umfPoolGetIPCHandler(pool, &ih);
                            if (R.op("umfGetIPCHandle", [&] { return umfGetIPCHandle(p, &hd, &hs) == UMF_RESULT_SUCCESS; })) {
                                void *v = nullptr;
                                if (R.op("umfOpenIPCHandle", [&] { return umfOpenIPCHandle(ih, hd, &v) == UMF_RESULT_SUCCESS; })) {
                                    CHECK(!memcmp(v, p, 8192), "C13:ipc-bytes", "the opened file range differs");
                                    R.op("umfCloseIPCHandle", [&] { return umfCloseIPCHandle(v) == UMF_RESULT_SUCCESS; });
                                }
                                umfPutIPCHandle(hd);
                            }
                        }
                        freeAll(R, pool);
                        destroy(R, pool);
                    }
                }
            } else if (mkpool(R, umfProxyPoolOps(), pr, nullptr, 0, &pool)) {
                churn(R, pool, 12, 40000, false, true);
                freeAll(R, pool);
                destroy(R, pool);
            }
            destroyProv(R, pr);
        }
    }
    unlink(f.c_str());
}
// export, open, compare, close and put back directly on a provider
static void ipcTrip(Run &R, umf_memory_provider_handle_t pr, size_t n) {
    void *p = nullptr, *v = nullptr;
    size_t hs = 0;
    if (!R.op("umfMemoryProviderGetIPCHandleSize", [&] { return umfMemoryProviderGetIPCHandleSize(pr, &hs) == UMF_RESULT_SUCCESS; }))
        return;
    if (!R.op("umfMemoryProviderAlloc", [&] { return umfMemoryProviderAlloc(pr, n, 0, &p) == UMF_RESULT_SUCCESS; }))
        return;
    h::fill(p, 4096, n);
    std::vector<char> hd(hs);
    if (R.op("umfMemoryProviderGetIPCHandle", [&] { return umfMemoryProviderGetIPCHandle(pr, p, n, hd.data()) == UMF_RESULT_SUCCESS; })) {
        for (int i = 0; i < 2; i++)
            if (R.op("umfMemoryProviderOpenIPCHandle", [&] { return umfMemoryProviderOpenIPCHandle(pr, hd.data(), &v) == UMF_RESULT_SUCCESS; })) {
                CHECK(h::checkfill(v, 4096, n) == 4096, "C13:ipc-bytes", "%s: the opened memory differs", R.scen);
                if (!R.op("umfMemoryProviderCloseIPCHandle", [&] { return umfMemoryProviderCloseIPCHandle(pr, v, n) == UMF_RESULT_SUCCESS; }) && !release_mode)
                    umfMemoryProviderCloseIPCHandle(pr, v, n);
            }
        R.op("umfMemoryProviderPutIPCHandle", [&] { return umfMemoryProviderPutIPCHandle(pr, hd.data()) == UMF_RESULT_SUCCESS; });
        cnt("provider_ipc");
    }
    if (!R.op("umfMemoryProviderFree", [&] { return umfMemoryProviderFree(pr, p, n) == UMF_RESULT_SUCCESS; }) && !release_mode)
        umfMemoryProviderFree(pr, p, n);
}
static void scDax(Run &R) {
    std::string f = scratch() + "/fakedax_" + std::to_string(getpid());
    size_t n = 512ull << 20; // pages of 2 MB
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0 || ftruncate(fd, n))
        exit(77);
    close(fd);
    umf_devdax_memory_provider_params_handle_t dp = nullptr;
    umf_memory_provider_handle_t pr = nullptr;
    if (R.op("umfDevDaxMemoryProviderParamsCreate",
             [&] { return umfDevDaxMemoryProviderParamsCreate(&dp, f.c_str(), n) == UMF_RESULT_SUCCESS; })) {
        bool ok = mkprov(R, umfDevDaxMemoryProviderOps(), dp, &pr);
        umfDevDaxMemoryProviderParamsDestroy(dp);
        if (ok) {
            if (R.r.chance(2, 3))
                carveProv(R, pr, 12, 2 << 20, 4);
            else
                ipcTrip(R, pr, R.r.range(1, 3) << 20);
            destroyProv(R, pr);
        }
    }
    unlink(f.c_str());
}
static umf_os_memory_provider_params_handle_t osParams(Run &R, bool shared, bool *isnamed = nullptr) {
    umf_os_memory_provider_params_handle_t p = nullptr;
    unsigned mode = shared ? UMF_NUMA_MODE_DEFAULT : (unsigned)R.r.below(6); // the only one for shared memory
    bool named = shared && R.r.chance(1, 2);
    if (isnamed)
        *isnamed = named;
    static int serial;
    char nm[64];
    snprintf(nm, sizeof nm, "verif_fault_%d_%d", getpid(), serial++);
    if (!R.op("umfOsMemoryProviderParamsCreate", [&] { return umfOsMemoryProviderParamsCreate(&p) == UMF_RESULT_SUCCESS; }))
        return nullptr;
    if (shared)
        umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
    if (named)
        R.op("umfOsMemoryProviderParamsSetShmName", [&] { return umfOsMemoryProviderParamsSetShmName(p, nm) == UMF_RESULT_SUCCESS; });
    unsigned nodes[3] = {0, 1, 2};
    unsigned nn = mode == UMF_NUMA_MODE_PREFERRED ? 1 : (unsigned)R.r.range(1, 3);
    if (mode != UMF_NUMA_MODE_DEFAULT && mode != UMF_NUMA_MODE_LOCAL) {
        if (!R.op("umfOsMemoryProviderParamsSetNumaList",
                  [&] { return umfOsMemoryProviderParamsSetNumaList(p, nodes, nn) == UMF_RESULT_SUCCESS; }))
            return p;
    }
    umfOsMemoryProviderParamsSetNumaMode(p, (umf_numa_mode_t)mode);
    if (mode == UMF_NUMA_MODE_INTERLEAVE && R.r.chance(1, 2))
        umfOsMemoryProviderParamsSetPartSize(p, 8192);
    if (mode == UMF_NUMA_MODE_SPLIT && R.r.chance(2, 3)) {
        umf_numa_split_partition_t pt[3] = {{1, 0}, {2, 1}, {1, 2}};
        R.op("umfOsMemoryProviderParamsSetPartitions",
             [&] { return umfOsMemoryProviderParamsSetPartitions(p, pt, nn) == UMF_RESULT_SUCCESS; });
    }
    return p;
}
static void scOs(Run &R) {
    bool shared = R.r.chance(1, 2), named = false;
    auto p = osParams(R, shared, &named);
    if (!p)
        return;
    umf_memory_provider_handle_t pr = nullptr;
    bool ok = mkprov(R, umfOsMemoryProviderOps(), p, &pr);
    umfOsMemoryProviderParamsDestroy(p);
    if (!ok)
        return;
    if (shared && !named && R.r.chance(1, 2))
        ipcTrip(R, pr, R.r.range(4096, 60000));
    else if (R.r.chance(2, 3))
        carveProv(R, pr, 14, 4096, 9);
    else {
        umf_memory_pool_handle_t pool = nullptr;
        umf_disjoint_pool_shared_limits_handle_t sl = nullptr;
        auto dp = djParams(R, &sl);
        if (dp && mkpool(R, umfDisjointPoolOps(), pr, dp, 0, &pool)) {
            churn(R, pool, 14, 30000, true, true);
            freeAll(R, pool);
            destroy(R, pool);
        }
        if (dp)
            umfDisjointPoolParamsDestroy(dp);
        if (sl)
            umfDisjointPoolSharedLimitsDestroy(sl);
    }
    size_t al = 99;
    if (!release_mode && R.op("umfCtlGet", [&] { return umfCtlGet("umf.provider.by_handle.stats.allocated_memory", pr, &al) == UMF_RESULT_SUCCESS; }))
        CHECK(al == 0, "C13:os-stats", "everything is freed but allocated_memory is %zu", al);
    destroyProv(R, pr);
}
static void scMemspace(Run &R) {
    R.sticky = true;
    umf_memspace_handle_t ms = nullptr, cl = nullptr;
    unsigned ids[3] = {0, 1, 2};
    size_t nid = R.r.range(1, 3);
    unsigned how = (unsigned)R.r.below(3);
    umf_const_memspace_handle_t all = nullptr;
    if (how) {
        if (!R.op("umfMemspaceHostAllGet", [&] { return (all = umfMemspaceHostAllGet()) != nullptr; }))
            return;
        CHECK(umfMemspaceMemtargetNum(all) == 3, "C13:memspace", "HOST ALL has %zu targets", umfMemspaceMemtargetNum(all));
    }
    bool ok;
    if (how == 0)
        ok = R.op("umfMemspaceCreateFromNumaArray", [&] { return umfMemspaceCreateFromNumaArray(ids, nid, &ms) == UMF_RESULT_SUCCESS; });
    else if (how == 1) {
        ok = R.op("umfMemspaceNew", [&] { return umfMemspaceNew(&ms) == UMF_RESULT_SUCCESS; });
        for (size_t i = 0; ok && i < nid; i++)
            if (!R.op("umfMemspaceMemtargetAdd",
                      [&] { return umfMemspaceMemtargetAdd(ms, umfMemspaceMemtargetGet(all, (unsigned)i)) == UMF_RESULT_SUCCESS; }))
                break;
    } else
        ok = R.op("umfMemspaceClone", [&] { return umfMemspaceClone(all, &ms) == UMF_RESULT_SUCCESS; });
    if (!ok)
        return;
    size_t n = umfMemspaceMemtargetNum(ms);
    auto idset = [](umf_const_memspace_handle_t m) {
        std::set<unsigned> s;
        for (size_t i = 0; i < umfMemspaceMemtargetNum(m); i++) {
            unsigned id = 99;
            umfMemtargetGetId(umfMemspaceMemtargetGet(m, (unsigned)i), &id);
            s.insert(id);
        }
        return s;
    };
    if (R.op("umfMemspaceClone", [&] { return umfMemspaceClone(ms, &cl) == UMF_RESULT_SUCCESS; }))
        CHECK(idset(cl) == idset(ms), "C13:memspace", "a clone differs");
    for (int i = 0; i < 4; i++) {
        std::set<unsigned> before = idset(ms);
        bool good = true;
        switch (R.r.below(4)) {
        case 0: {
            unsigned keep[2] = {0, 2};
            good = R.op("umfMemspaceFilterById", [&] { return umfMemspaceFilterById(ms, keep, 2) == UMF_RESULT_SUCCESS; });
            break;
        }
        case 1:
            good = R.op("umfMemspaceFilterByCapacity", [&] { return umfMemspaceFilterByCapacity(ms, 1) == UMF_RESULT_SUCCESS; });
            break;
        case 2: {
            static int calls;
            calls = 0;
            unsigned odd = (unsigned)R.r.below(2);
            good = R.op("umfMemspaceUserFilter", [&] {
                return umfMemspaceUserFilter(
                           ms,
                           [](umf_const_memspace_handle_t, umf_const_memtarget_handle_t t, void *a) -> int {
                               unsigned id = 0;
                               umfMemtargetGetId(t, &id);
                               return (id & 1) == *(unsigned *)a || id == 0;
                           },
                           &odd) == UMF_RESULT_SUCCESS;
            });
            break;
        }
        default:
            if (all && R.r.chance(1, 2)) {
                unsigned id = (unsigned)R.r.below(3);
                bool has = before.count(id);
                umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(all, id);
                if (has && before.size() > 1)
                    good = R.op("umfMemspaceMemtargetRemove", [&] { return umfMemspaceMemtargetRemove(ms, t) == UMF_RESULT_SUCCESS; });
                else if (!has)
                    good = R.op("umfMemspaceMemtargetAdd", [&] { return umfMemspaceMemtargetAdd(ms, t) == UMF_RESULT_SUCCESS; });
            }
        }
        if (!good)
            CHECK(idset(ms) == before, "C13:memspace-changed", "a failed filter or change altered the memspace (%zu targets, %zu before)",
                  idset(ms).size(), before.size());
    }
    n = umfMemspaceMemtargetNum(ms);
    umf_mempolicy_split_partition_t pt[2] = {{1, 0}, {1, 0}}; // the policy refers to it
    umf_mempolicy_handle_t mp = nullptr;
    bool pol = R.r.chance(2, 3);
    umf_mempolicy_membind_t mode = (umf_mempolicy_membind_t)R.r.below(4);
    if (pol && R.op("umfMempolicyCreate", [&] { return umfMempolicyCreate(mode, &mp) == UMF_RESULT_SUCCESS; })) {
        if (mode == UMF_MEMPOLICY_SPLIT && R.r.chance(1, 2)) {
            R.op("umfMempolicySetCustomSplitPartitions",
                 [&] { return umfMempolicySetCustomSplitPartitions(mp, pt, 1) == UMF_RESULT_SUCCESS; });
        }
        if (mode == UMF_MEMPOLICY_INTERLEAVE && R.r.chance(1, 2))
            umfMempolicySetInterleavePartSize(mp, 8192);
    }
    umf_memory_provider_handle_t pr = nullptr;
    (void)n;
    if (!pol || mp) {
        bool refuse = false; // some combinations are not supported: learn which without faults
        {
            umf_memory_provider_handle_t t = nullptr;
            refuse = umfMemoryProviderCreateFromMemspace(ms, mp, &t) != UMF_RESULT_SUCCESS;
            if (!refuse)
                umfMemoryProviderDestroy(t);
        }
        if (!refuse) {
            if (R.op("umfMemoryProviderCreateFromMemspace",
                     [&] { return umfMemoryProviderCreateFromMemspace(ms, mp, &pr) == UMF_RESULT_SUCCESS; })) {
                void *q = nullptr;
                if (R.op("umfMemoryProviderAlloc", [&] { return umfMemoryProviderAlloc(pr, 16384, 0, &q) == UMF_RESULT_SUCCESS; })) {
                    R.add(q, 16384);
                    R.live.clear();
                    R.op("umfMemoryProviderFree", [&] { return umfMemoryProviderFree(pr, q, 16384) == UMF_RESULT_SUCCESS; });
                }
                destroyProv(R, pr);
            }
        }
    }
    if (mp)
        umfMempolicyDestroy(mp);
    if (cl)
        umfMemspaceDestroy(cl);
    umfMemspaceDestroy(ms);
}
static void scPredef(Run &R) {
    R.sticky = true;
    typedef umf_const_memspace_handle_t (*G)(void);
    static const G get[4] = {umfMemspaceHostAllGet, umfMemspaceHighestCapacityGet, umfMemspaceHighestBandwidthGet,
                             umfMemspaceLowestLatencyGet};
    static const char *const nm[4] = {"HostAll", "HighestCapacity", "HighestBandwidth", "LowestLatency"};
    int o[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--)
        std::swap(o[i], o[R.r.below(i + 1)]);
    for (int i = 0; i < 4; i++) {
        umf_const_memspace_handle_t m = nullptr;
        char b[64];
        snprintf(b, sizeof b, "umfMemspace%sGet", nm[o[i]]);
        bool ok = R.op(b, [&] { return (m = get[o[i]]()) != nullptr; });
        if (ok) {
            size_t n = umfMemspaceMemtargetNum(m), want = o[i] == 0 ? 3 : 1;
            CHECK(n >= want && n <= 3, "C13:predefined", "%s has %zu targets", b, n);
            CHECK(o[i] != 0 || n == 3, "C13:predefined", "HostAll has %zu of 3 targets", n);
            CHECK(get[o[i]]() == m, "C13:predefined", "%s changes", b);
        }
    }
}
static void scParams(Run &R) {
    for (int i = 0; i < 10; i++)
        switch (R.r.below(8)) {
        case 0: {
            umf_os_memory_provider_params_handle_t p = nullptr;
            if (!R.op("umfOsMemoryProviderParamsCreate", [&] { return umfOsMemoryProviderParamsCreate(&p) == UMF_RESULT_SUCCESS; }))
                break;
            for (int j = 0; j < 3; j++) {
                unsigned l[4] = {1, 2, 3, 0};
                umf_numa_split_partition_t pt[2] = {{1, 0}, {2, 1}};
                size_t n = R.r.range(1, 4);
                R.op("umfOsMemoryProviderParamsSetNumaList",
                     [&] { return umfOsMemoryProviderParamsSetNumaList(p, l, (unsigned)n) == UMF_RESULT_SUCCESS; });
                R.op("umfOsMemoryProviderParamsSetPartitions",
                     [&] { return umfOsMemoryProviderParamsSetPartitions(p, pt, 2) == UMF_RESULT_SUCCESS; });
                R.op("umfOsMemoryProviderParamsSetShmName",
                     [&] { return umfOsMemoryProviderParamsSetShmName(p, "a_name") == UMF_RESULT_SUCCESS; });
            }
            umfOsMemoryProviderParamsDestroy(p);
            break;
        }
        case 1: {
            umf_file_memory_provider_params_handle_t p = nullptr;
            if (!R.op("umfFileMemoryProviderParamsCreate",
                      [&] { return umfFileMemoryProviderParamsCreate(&p, "/nonexistent/a") == UMF_RESULT_SUCCESS; }))
                break;
            R.op("umfFileMemoryProviderParamsSetPath",
                 [&] { return umfFileMemoryProviderParamsSetPath(p, "/nonexistent/b/longer") == UMF_RESULT_SUCCESS; });
            umfFileMemoryProviderParamsDestroy(p);
            break;
        }
        case 2: {
            umf_devdax_memory_provider_params_handle_t p = nullptr;
            if (!R.op("umfDevDaxMemoryProviderParamsCreate",
                      [&] { return umfDevDaxMemoryProviderParamsCreate(&p, "/nonexistent/a", 4096) == UMF_RESULT_SUCCESS; }))
                break;
            R.op("umfDevDaxMemoryProviderParamsSetDeviceDax",
                 [&] { return umfDevDaxMemoryProviderParamsSetDeviceDax(p, "/nonexistent/b/longer", 8192) == UMF_RESULT_SUCCESS; });
            umfDevDaxMemoryProviderParamsDestroy(p);
            break;
        }
        case 3: {
            umf_disjoint_pool_params_handle_t p = nullptr;
            if (!R.op("umfDisjointPoolParamsCreate", [&] { return umfDisjointPoolParamsCreate(&p) == UMF_RESULT_SUCCESS; }))
                break;
            R.op("umfDisjointPoolParamsSetName", [&] { return umfDisjointPoolParamsSetName(p, "abc") == UMF_RESULT_SUCCESS; });
            R.op("umfDisjointPoolParamsSetName", [&] { return umfDisjointPoolParamsSetName(p, "another longer name") == UMF_RESULT_SUCCESS; });
            umfDisjointPoolParamsDestroy(p);
            break;
        }
        case 4: {
            umf_level_zero_memory_provider_params_handle_t p = nullptr;
            if (!R.op("umfLevelZeroMemoryProviderParamsCreate",
                      [&] { return umfLevelZeroMemoryProviderParamsCreate(&p) == UMF_RESULT_SUCCESS; }))
                break;
            umfLevelZeroMemoryProviderParamsDestroy(p);
            break;
        }
        case 5: {
            umf_mempolicy_handle_t mp = nullptr;
            if (!R.op("umfMempolicyCreate", [&] { return umfMempolicyCreate(UMF_MEMPOLICY_SPLIT, &mp) == UMF_RESULT_SUCCESS; }))
                break;
            for (int j = 0; j < 2; j++) {
                umf_mempolicy_split_partition_t pt[3] = {{1, 0}, {2, 1}, {3, 2}};
                R.op("umfMempolicySetCustomSplitPartitions",
                     [&] { return umfMempolicySetCustomSplitPartitions(mp, pt, 2 + j) == UMF_RESULT_SUCCESS; });
            }
            umfMempolicyDestroy(mp);
            break;
        }
        case 6: {
            umf_scalable_pool_params_handle_t p = nullptr;
            if (R.op("umfScalablePoolParamsCreate", [&] { return umfScalablePoolParamsCreate(&p) == UMF_RESULT_SUCCESS; }))
                umfScalablePoolParamsDestroy(p);
            break;
        }
        default: {
            umf_disjoint_pool_shared_limits_handle_t l = nullptr;
            if (R.op("umfDisjointPoolSharedLimitsCreate", [&] { return (l = umfDisjointPoolSharedLimitsCreate(1 << 20)) != nullptr; }))
                umfDisjointPoolSharedLimitsDestroy(l);
        }
        }
}
static void scIndex(Run &R) { // the internal maps
    critnib *c = nullptr;
    if (R.op("critnib_new", [&] { return (c = critnib_new()) != nullptr; })) {
        std::map<uint64_t, uint64_t> m;
        for (int i = 0; i < 40; i++) {
            uint64_t k = R.r.below(16) << (4 * R.r.below(12)), v = R.r.next() | 1;
            if (R.r.chance(2, 3)) {
                bool had = m.count(k), upd = R.r.chance(1, 2);
                if (!had || upd) {
                    if (R.op("critnib_insert", [&] { return critnib_insert(c, k, (void *)v, upd) == 0; }))
                        m[k] = v;
                }
            } else if (m.count(k)) {
                void *got = nullptr;
                R.op("critnib_remove", [&] { return (got = critnib_remove(c, k)) != nullptr; });
                CHECK((uint64_t)got == m[k], "C13:critnib", "remove returns another value");
                m.erase(k);
            }
            for (auto &x : m)
                CHECK((uint64_t)critnib_get(c, x.first) == x.second, "C13:critnib", "key %lx is lost or changed", x.first);
        }
        critnib_delete(c);
    }
    struct ravl *t = nullptr;
    auto cmp = [](const void *a, const void *b) {
        uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
        return x < y ? -1 : x > y;
    };
    if (R.op("ravl_new", [&] { return (t = ravl_new_sized(cmp, 8)) != nullptr; })) {
        std::set<uint64_t> m;
        for (int i = 0; i < 30; i++) {
            uint64_t k = R.r.below(40);
            if (!m.count(k)) {
                if (R.op("ravl_emplace", [&] { return ravl_emplace_copy(t, &k) == 0; }))
                    m.insert(k);
            } else if (R.r.chance(1, 2)) {
                struct ravl_node *n = ravl_find(t, &k, RAVL_PREDICATE_EQUAL);
                CHECK(n != nullptr, "C13:ravl", "a key is lost");
                if (n)
                    ravl_remove(t, n);
                m.erase(k);
            }
            for (auto x : m)
                CHECK(ravl_find(t, &x, RAVL_PREDICATE_EQUAL) != nullptr, "C13:ravl", "key %lu is lost", x);
        }
        ravl_delete(t);
    }
}
static long ctlval;
static int ctl_rd(void *, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *idx, const char *, umf_ctl_query_type_t) {
    *(long *)arg = ctlval;
    (void)idx;
    return 0;
}
static int ctl_wr(void *, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *idx, const char *, umf_ctl_query_type_t) {
    ctlval = *(int *)arg + 1000 * (idx ? idx->value : 0);
    return 0;
}
static const struct ctl_argument ctlarg = CTL_ARG_INT;
static void scCtl(Run &R) {
    struct ctl *c = nullptr;
    static umf_ctl_node_t leaf[2], ind[2], mid[3], top[2]; // the last of each is the end
    leaf[0].name = "value";
    leaf[0].type = CTL_NODE_LEAF;
    leaf[0].cb[CTL_QUERY_READ] = ctl_rd;
    leaf[0].cb[CTL_QUERY_WRITE] = ctl_wr;
    leaf[0].arg = &ctlarg;
    ind[0].name = "index";
    ind[0].type = CTL_NODE_INDEXED;
    ind[0].children = leaf;
    mid[0].name = "bucket";
    mid[0].type = CTL_NODE_NAMED;
    mid[0].children = ind;
    mid[1] = leaf[0];
    top[0].name = "heap";
    top[0].type = CTL_NODE_NAMED;
    top[0].children = mid;
    std::string f = scratch() + "/ctl_" + std::to_string(getpid());
    if (R.op("ctl_new", [&] { return (c = ctl_new()) != nullptr; })) {
        ctl_register_module_node(c, "mod", top);
        for (int i = 0; i < 8; i++) {
            long v = 0;
            int w = (int)R.r.below(500);
            char nm[80];
            unsigned ix = (unsigned)R.r.below(9);
            snprintf(nm, sizeof nm, "mod.heap.bucket.%u.value", ix);
            switch (R.r.below(4)) {
            case 0:
                if (R.op("ctl read", [&] { return ctl_query(c, nullptr, CTL_QUERY_PROGRAMMATIC, nm, CTL_QUERY_READ, &v) == 0; }))
                    CHECK(v == ctlval, "C13:ctl", "read %ld", v);
                break;
            case 1:
                if (R.op("ctl write", [&] { return ctl_query(c, nullptr, CTL_QUERY_PROGRAMMATIC, nm, CTL_QUERY_WRITE, &w) == 0; }))
                    CHECK(ctlval == w + 1000L * ix, "C13:ctl", "wrote %ld", ctlval);
                break;
            case 2: {
                char cfg[200];
                snprintf(cfg, sizeof cfg, "mod.heap.value=1;%s=%d;", nm, w);
                int ctx = 0; // failures are reported with a context
                if (R.op("ctl config", [&] { return ctl_load_config_from_string(c, &ctx, cfg) == 0; }))
                    CHECK(ctlval == w + 1000L * ix, "C13:ctl", "config wrote %ld", ctlval);
                break;
            }
            default: {
                FILE *o = fopen(f.c_str(), "w");
                fprintf(o, "%s=%d;#comment\nmod.heap.value=7;\n", nm, w);
                fclose(o);
                int ctx = 0;
                if (R.op("ctl file", [&] { return ctl_load_config_from_file(c, &ctx, f.c_str()) == 0; }))
                    CHECK(ctlval == 7, "C13:ctl", "file wrote %ld", ctlval);
                unlink(f.c_str());
            }
            }
        }
        ctl_delete(c);
    }
}
static void scInit(Run &R) {
    // the library is set up here already: tear it down and set it up under faults
    label("init");
    umfTearDown();
    if (!R.op("umfInit", [&] { return umfInit() == 0; })) {
        umfInit();
    }
    scProxy(R);
}
static void scManyPools(Run &R) { // tracker nodes and IPC caches with many pools
    pv::Prov P;
    P.arena = 4 << 20;
    P.quiet = release_mode;
    P.start();
    umf_memory_provider_handle_t pr = nullptr;
    if (mkprov(R, pv::ops(true, true), &P, &pr)) {
        std::vector<umf_memory_pool_handle_t> ps;
        for (int s = 0; s < 16; s++) {
            if (ps.empty() || R.r.chance(1, 3)) {
                umf_memory_pool_handle_t p = nullptr;
                if (mkpool(R, umfProxyPoolOps(), pr, nullptr, 0, &p))
                    ps.push_back(p);
            } else if (R.r.chance(1, 4)) {
                size_t i = R.r.below(ps.size());
                freeAll(R, ps[i]);
                destroy(R, ps[i]);
                ps[i] = ps.back();
                ps.pop_back();
            } else
                churn(R, ps[R.r.below(ps.size())], 2, 9000, false, true);
        }
        for (auto p : ps) {
            freeAll(R, p);
            destroy(R, p);
        }
        destroyProv(R, pr);
    }
    clean(R, P);
}

struct Scen {
    const char *name;
    void (*fn)(Run &);
    bool rel; // takes part in the release mode
};
static const Scen scens[] = {
    {"disjoint", scDisjoint, true}, {"proxy", scProxy, true},     {"scalable", scScalable, false}, {"nested", scNested, true},
    {"split", scSplit, true},       {"ipc", scIpc, true},         {"coarse", scCoarse, true},      {"fixed", scFixed, true},
    {"file", scFile, true},         {"devdax", scDax, true},      {"os", scOs, true},              {"os2", scOs, true},
    {"memspace", scMemspace, false}, {"memspace2", scMemspace, false}, {"predefined", scPredef, false}, {"params", scParams, false},
    {"index", scIndex, false},      {"ctl", scCtl, false},        {"init", scInit, false},         {"pools", scManyPools, true},
};
static const size_t NS = sizeof scens / sizeof *scens;

static int nfds() { return h::openFds(); }
struct Base {
    int64_t blocks, pools, topo, lib, bm;
    int fds;
    size_t maps;
    uint64_t serial;
};
static Base snap() {
    return {ba::st.live_blocks, ba::st.live_pools, topos, libs, bitmaps, nfds(), maps->size(), ba::serial()};
}
static void account(const Base &b, const char *scen, const char *what) {
    Base n = snap();
    if (n.blocks != b.blocks || n.pools != b.pools)
        viol("C13:leak-metadata", "%s (%s): %ld metadata blocks and %ld allocators are left: %s", scen, what, n.blocks - b.blocks,
             n.pools - b.pools, ba::leaks(b.serial).c_str());
    CHECK(n.topo == b.topo, "C13:leak-topology", "%s (%s): %ld hardware topologies are left", scen, what, n.topo - b.topo);
    CHECK(n.lib == b.lib, "C13:leak-library", "%s (%s): %ld libraries stay open", scen, what, n.lib - b.lib);
    CHECK(n.bm == b.bm, "C13:leak-bitmap", "%s (%s): %ld node sets are left", scen, what, n.bm - b.bm);
    CHECK(n.fds == b.fds, "C13:leak-fd", "%s (%s): %d descriptors are left", scen, what, n.fds - b.fds);
    if (n.maps != b.maps) {
        viol("C13:leak-map", "%s (%s): %zd mappings are left", scen, what, (ssize_t)(n.maps - b.maps));
        for (auto &m : *maps)
            __real_munmap((void *)m.first, m.second);
        maps->clear();
    }
    cnt("accounts");
}

static void once(const Scen &sc, uint64_t seed, uint64_t from, uint64_t len, uint64_t from2, bool retry) {
    umfTearDown();
    Base b = snap();
    if (umfInit()) {
        viol("C13:init", "umfInit fails without a fault");
        return;
    }
    npoint = 0;
    fail_from = from;
    fail_len = len;
    fail_from2 = from2;
    char what[100];
    Run R(seed, retry);
    R.scen = sc.name;
    uint64_t i0 = ninj;
    sc.fn(R);
    armed = false;
    for (auto &f : R.last)
        f();
    snprintf(what, sizeof what, "point %lu+%lu,%lu of %s; retry %d; faults %s", from, len, from2, sc.name, retry, inj_names.c_str());
    if (len && ninj == i0)
        cnt("runs_without_fault");
    umfTearDown();
    label("account");
    if (!release_mode)
        account(b, sc.name, what);
    else { // what failed to be released is kept out of the way
        maps->clear();
    }
    if (umfInit())
        viol("C13:init", "umfInit fails without a fault");
    cnt("runs");
}

void harness_begin() {
    maps = new std::map<uintptr_t, size_t>;
    ba::fail_hook = on_meta;
    pv::fault_hook = on_prov;
    release_mode = ctx().mode == "release";
    // parts of other libraries are set up lazily and stay
    for (auto &s : scens) {
        for (int i = 0; i < 2; i++) {
            Run R(i + 1, true);
            R.scen = s.name;
            fail_from = fail_len = fail_from2 = 0;
            s.fn(R);
        }
    }
}
void run_case(uint64_t idx, Rng &r) {
    const char *only = getenv("FAULT_SCEN");
    const Scen *sc = &scens[idx % NS];
    if (only)
        for (auto &s : scens)
            if (!strcmp(s.name, only))
                sc = &s;
    if (release_mode && !sc->rel)
        return;
    uint64_t seed = r.next();
    const char *k1 = getenv("FAULT_AT");
    if (k1) {
        once(*sc, seed, strtoull(k1, 0, 10), 1, 0, !getenv("FAULT_NORETRY"));
        return;
    }
    once(*sc, seed, 0, 0, 0, true);
    uint64_t n = npoint;
    maxstat("points_in_a_scenario", n);
    Sig s;
    s.add(idx % NS).add(n).add(seed);
    if (!n)
        return;
    std::string cn = std::string("points_") + sc->name;
    // every point once, with recovery
    uint64_t cap = ctx().thorough ? 100000 : 60;
    auto go = [&](uint64_t k, uint64_t len, uint64_t k2, bool retry) {
        if (ctx().nviol > 20)
            return;
        once(*sc, seed, k, len, k2, retry);
        sig(mix(s.v, mix(k * 1000 + len, k2 * 2 + retry)));
        cnt("fault_runs");
    };
    if (n <= cap)
        for (uint64_t k = 1; k <= n; k++)
            go(k, 1, 0, true);
    else
        for (uint64_t i = 0; i < cap; i++)
            go(r.range(1, n), 1, 0, true);
    // without recovery: what was not built is not there
    uint64_t m = std::min<uint64_t>(n, ctx().thorough ? 60 : 16);
    for (uint64_t i = 0; i < m; i++)
        go(m == n ? i + 1 : r.range(1, n), 1, 0, false);
    // bursts and pairs
    for (uint64_t i = 0; i < (ctx().thorough ? 20 : 6); i++)
        go(r.range(1, n), r.range(2, 6), 0, true);
    for (uint64_t i = 0; i < (ctx().thorough ? 20 : 6); i++) {
        uint64_t a = r.range(1, n);
        go(a, 1, a + 1 + r.below(12), r.chance(1, 2));
    }
    cnt(cn.c_str(), n);
}
void harness_end() {
    for (int i = 0; i < NSRC; i++) {
        cnt((std::string("reached_") + srcname[i]).c_str(), nsrc[i]);
        cnt((std::string("failed_") + srcname[i]).c_str(), isrc[i]);
    }
}
