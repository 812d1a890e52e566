// Pools (disjoint, scalable, proxy, stacked) over a recording provider or real
// providers: disjointness, alignment, usable size, contents (C01), exact return
// of provider memory (C02), configured limits of the disjoint pool (C15).
#include "ba.hpp"
#include "provs.hpp"
#include "sched.hpp"
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
#ifdef WITH_JE
#include "je_fake.hpp"
#include <umf/pools/pool_jemalloc.h>
#endif
using namespace h;

namespace {
enum Kind { DISJOINT, SCALABLE, PROXY, JEMALLOC };
bool hasRealloc(Kind k) { return k == SCALABLE || k == JEMALLOC; }
struct A {
    char *p;
    size_t req, usable;
    uint64_t tag;
    size_t stamped; // bytes of pattern at the front (and as many at the end)
};
static const size_t EDGE = 4096;

void stamp(A &a) {
    a.stamped = std::min(a.usable, EDGE);
    fill(a.p, a.stamped, a.tag);
    if (a.usable > a.stamped)
        fill(a.p + a.usable - std::min(EDGE, a.usable - a.stamped), std::min(EDGE, a.usable - a.stamped), a.tag + 1);
}
void verify(const A &a, const char *when) {
    size_t i = checkfill(a.p, a.stamped, a.tag);
    if (i != a.stamped)
        viol("C01:contents", "%s: byte %zu of a live allocation of %zu bytes (usable %zu) changed", when, i, a.req, a.usable);
    if (a.usable > a.stamped) {
        size_t n = std::min(EDGE, a.usable - a.stamped);
        i = checkfill(a.p + a.usable - n, n, a.tag + 1);
        if (i != n)
            viol("C01:contents", "%s: byte %zu of the tail of a live allocation of %zu bytes changed", when, i, a.req);
    }
}

struct World {
    pv::Prov prov; // bottom ledger
    bool rec = true;
    umf_memory_provider_handle_t bottom = nullptr;
    struct Layer {
        Kind kind;
        umf_memory_pool_handle_t pool = nullptr;
        umf_memory_provider_handle_t prov = nullptr; // what it draws from
        pv::PoolProv pp;
        bool tracked = true, own = false;
        size_t slab_min = 0, maxpool = 0, cap = 0;
        umf_disjoint_pool_params_handle_t dp = nullptr;
    };
    std::vector<std::unique_ptr<Layer>> layers; // [0] lowest
    umf_disjoint_pool_shared_limits_handle_t limits = nullptr;
    size_t limit = 0;
    std::string desc;
    // all live user allocations: base -> end
    pv::Spin imu;
    std::map<uintptr_t, uintptr_t> iv;
    void *fixedbuf = nullptr;
    size_t fixedlen = 0;

    Layer &top() { return *layers.back(); }

    void ivadd(char *p, size_t n, const char *what) {
        uintptr_t a = (uintptr_t)p, e = a + n;
        std::lock_guard<pv::Spin> g(imu);
        auto it = iv.lower_bound(a);
        if (it != iv.end() && it->first < e)
            viol("C01:overlap", "%s: [%zx,+%zu) overlaps the live allocation [%zx,+%zu) (%s)", what, (size_t)a, n, (size_t)it->first,
                 (size_t)(it->second - it->first), desc.c_str());
        if (it != iv.begin()) {
            auto pr = std::prev(it);
            if (pr->second > a)
                viol("C01:overlap", "%s: [%zx,+%zu) overlaps the live allocation [%zx,+%zu) (%s)", what, (size_t)a, n,
                     (size_t)pr->first, (size_t)(pr->second - pr->first), desc.c_str());
        }
        iv[a] = e;
    }
    void ivdel(char *p) {
        std::lock_guard<pv::Spin> g(imu);
        iv.erase((uintptr_t)p);
    }
    // is [p, p+n) inside provider memory the pool holds?
    void inside(char *p, size_t n, const char *what) {
        if (!rec)
            return;
        std::lock_guard<pv::Spin> g(prov.mu);
        auto it = prov.live.upper_bound((uintptr_t)p);
        if (it == prov.live.begin()) {
            viol("C01:outside", "%s returned memory outside every block the pool holds", what);
            return;
        }
        --it;
        if ((uintptr_t)p + n > it->first + it->second.size)
            viol("C01:outside", "%s returned [+%zu,%zu) of a provider block of %zu bytes (%s)", what,
                 (size_t)((uintptr_t)p - it->first), (size_t)((uintptr_t)p - it->first + n), it->second.size, desc.c_str());
    }
    // hook of the provider's free: no user allocation may live there
    void onfree(void *ptr, size_t size) {
        std::lock_guard<pv::Spin> g(imu);
        auto it = iv.lower_bound((uintptr_t)ptr);
        bool hit = it != iv.end() && it->first < (uintptr_t)ptr + size;
        if (!hit && it != iv.begin())
            hit = std::prev(it)->second > (uintptr_t)ptr;
        if (hit)
            viol("C02:returned-in-use", "a block of %zu bytes was returned to the provider while an allocation in it is live (%s)",
                 size, desc.c_str());
    }
    ~World() {
        if (fixedbuf)
            munmap(fixedbuf, fixedlen);
    }
};
World *W; // for the free hook

// wraps the ledger's free with the user-allocation check
umf_memory_provider_ops_t *checkedOps(World &w) {
    static umf_memory_provider_ops_t o;
    o = *pv::ops(w.prov.has_ext, w.prov.has_ipc);
    o.free = [](void *p, void *ptr, size_t s) {
        W->onfree(ptr, s);
        return ((pv::Prov *)p)->free_(ptr, s);
    };
    return &o;
}

bool addLayer(World &w, Rng &r, Kind k, bool forced_lim = false, World *share = nullptr) {
    auto L = std::make_unique<World::Layer>();
    L->kind = k;
    bool below = !w.layers.empty();
    if (below) {
        L->pp.pool = w.layers.back()->pool;
        L->pp.page = 4096;
        // a stacked provider always page-aligns
        static umf_memory_provider_ops_t po;
        po = *pv::poolProvOps();
        po.alloc = [](void *p, size_t s, size_t a, void **o) {
            pv::PoolProv *v = (pv::PoolProv *)p;
            *o = umfPoolAlignedMalloc(v->pool, s, std::max<size_t>(a, v->page));
            return *o ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        };
        if (umfMemoryProviderCreate(&po, &L->pp, &L->prov) != UMF_RESULT_SUCCESS)
            return false;
    } else
        L->prov = w.bottom;
    umf_pool_create_flags_t fl = 0;
    L->own = r.chance(1, 2);
    if (L->own)
        fl |= UMF_POOL_CREATE_FLAG_OWN_PROVIDER;
    char b[200];
    umf_result_t res = UMF_RESULT_ERROR_UNKNOWN;
    if (k == DISJOINT) {
        umf_disjoint_pool_params_handle_t hp = nullptr;
        umfDisjointPoolParamsCreate(&hp);
        static const std::vector<size_t> slabs = {1, 64, 4096, 4096, 65536, 65536, 10000, 1 << 20, 0};
        L->slab_min = r.pick(slabs);
        static const std::vector<size_t> maxp = {0, 512, 4096, 32768, 65536, 1 << 20, 3 << 20, 100, 12288, (size_t)1 << 40};
        L->maxpool = r.pick(maxp);
        static const std::vector<size_t> caps = {0, 1, 2, 4, 4, 32};
        L->cap = r.pick(caps);
        static const std::vector<size_t> mb = {8, 8, 64, 64, 1, 1024, 8192, 65536};
        umfDisjointPoolParamsSetSlabMinSize(hp, L->slab_min);
        umfDisjointPoolParamsSetMaxPoolableSize(hp, L->maxpool);
        umfDisjointPoolParamsSetCapacity(hp, L->cap);
        size_t mbs = r.pick(mb);
        umfDisjointPoolParamsSetMinBucketSize(hp, mbs);
        int trace = r.chance(1, 4) ? (int)r.below(4) : 0;
        umfDisjointPoolParamsSetTrace(hp, trace);
        umf_disjoint_pool_shared_limits_handle_t lim = share ? share->limits : w.limits;
        if (lim)
            umfDisjointPoolParamsSetSharedLimits(hp, lim);
        L->tracked = true; // large blocks need the tracker
        res = umfPoolCreate(umfDisjointPoolOps(), L->prov, hp, fl, &L->pool);
        umfDisjointPoolParamsDestroy(hp);
        snprintf(b, sizeof b, "disjoint(slab %zu maxpool %zu cap %zu minb %zu trace %d lim %zd)", L->slab_min, L->maxpool, L->cap, mbs,
                 trace, lim ? (ssize_t)(share ? share->limit : w.limit) : -1);
    } else if (k == SCALABLE) {
        umf_scalable_pool_params_handle_t hp = nullptr;
        if (r.chance(2, 3)) {
            umfScalablePoolParamsCreate(&hp);
            static const std::vector<size_t> gr = {4096, 65536, 1 << 20, 2 << 20};
            umfScalablePoolParamsSetGranularity(hp, r.pick(gr));
            umfScalablePoolParamsSetKeepAllMemory(hp, r.chance(1, 3));
        }
        L->tracked = r.chance(3, 4);
        if (!L->tracked)
            fl |= UMF_POOL_CREATE_FLAG_DISABLE_TRACKING;
        res = umfPoolCreate(umfScalablePoolOps(), L->prov, hp, fl, &L->pool);
        if (hp)
            umfScalablePoolParamsDestroy(hp);
        snprintf(b, sizeof b, "scalable(tracked %d)", L->tracked);
#ifdef WITH_JE
    } else if (k == JEMALLOC) {
        L->tracked = r.chance(3, 4);
        if (!L->tracked)
            fl |= UMF_POOL_CREATE_FLAG_DISABLE_TRACKING;
        if (r.chance(1, 5)) { // the arena cannot be made, or not be set up: nothing is left and nothing taken
            size_t n0 = je::arenas(), p0 = w.rec ? w.prov.nlive() : 0;
            uint64_t f0 = w.prov.finalized;
            (r.chance(1, 2) ? je::fail_create : je::fail_hooks) = 1;
            umf_memory_pool_handle_t none = nullptr;
            umf_result_t rc = umfPoolCreate(umfJemallocPoolOps(), L->prov, nullptr, fl & ~UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &none);
            je::fail_create = je::fail_hooks = 0;
            CHECK(rc == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "C01:create-code", "a pool whose arena cannot be made: %d", rc);
            CHECK(je::arenas() == n0, "C02:arena-left", "a pool that could not be created left its arena");
            CHECK((!w.rec || w.prov.nlive() == p0) && w.prov.finalized == f0, "C02:outstanding", "a pool that could not be created holds memory");
            cnt("je_create_failed");
        }
        res = umfPoolCreate(umfJemallocPoolOps(), L->prov, nullptr, fl, &L->pool);
        snprintf(b, sizeof b, "jemalloc(tracked %d)", L->tracked);
#endif
    } else {
        res = umfPoolCreate(umfProxyPoolOps(), L->prov, nullptr, fl, &L->pool);
        snprintf(b, sizeof b, "proxy");
    }
    if (!w.desc.empty())
        w.desc += " on ";
    w.desc = std::string(b) + (w.desc.empty() ? "" : " on ") + w.desc;
    if (res != UMF_RESULT_SUCCESS) {
        viol("C01:create", "creating %s failed: %d", w.desc.c_str(), res);
        return false;
    }
    w.layers.push_back(std::move(L));
    return true;
}

bool build(World &w, Rng &r, bool conc, bool notbb) {
    W = &w;
    int src = (int)r.below(8);
    w.prov.arena = 192u << 20;
    w.prov.gran = r.pick(std::vector<size_t>{4096, 4096, 65536, 8192});
    w.prov.page_min = 4096;
    if (r.chance(1, 3))
        w.prov.page_min = w.prov.gran;
#ifdef WITH_JE
    w.prov.gran = w.prov.page_min = 4096; // extents are split at pages
#endif
    w.prov.lifo = r.chance(1, 2);
    w.prov.name = "bottom";
    if (src < 6) {
        w.prov.start();
        if (umfMemoryProviderCreate(checkedOps(w), &w.prov, &w.bottom) != UMF_RESULT_SUCCESS)
            return false;
        w.desc = "rec";
    } else if (src == 6) {
        w.rec = false;
        umf_os_memory_provider_params_handle_t op = nullptr;
        umfOsMemoryProviderParamsCreate(&op);
        umf_result_t res = umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &w.bottom);
        umfOsMemoryProviderParamsDestroy(op);
        if (res != UMF_RESULT_SUCCESS)
            return false;
        w.desc = "os";
    } else {
        w.rec = false;
        w.fixedlen = 64u << 20;
        w.fixedbuf = mmap(0, w.fixedlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pv::Prov::unpoison(w.fixedbuf, w.fixedlen);
        umf_fixed_memory_provider_params_handle_t fp = nullptr;
        umfFixedMemoryProviderParamsCreate(&fp, w.fixedbuf, w.fixedlen);
        umf_result_t res = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &w.bottom);
        umfFixedMemoryProviderParamsDestroy(fp);
        if (res != UMF_RESULT_SUCCESS)
            return false;
        w.desc = "fixed";
    }
    std::vector<Kind> kinds = notbb ? std::vector<Kind>{DISJOINT, DISJOINT, PROXY}
                                    : std::vector<Kind>{DISJOINT, DISJOINT, SCALABLE, PROXY};
#ifdef WITH_JE
    kinds = {JEMALLOC, JEMALLOC, JEMALLOC, DISJOINT, PROXY};
#endif
    if (r.chance(1, 3)) {
        w.limit = r.pick(std::vector<size_t>{0, 65536, 1 << 20, 8 << 20});
        w.limits = umfDisjointPoolSharedLimitsCreate(w.limit);
    }
    int n = r.chance(1, 4) ? 2 : r.chance(1, 8) ? 3 : 1;
    for (int i = 0; i < n; i++) {
        Kind k = r.pick(kinds);
        if (n > 1 && w.desc.find("scalable") == std::string::npos && i + 1 < n)
            k = r.chance(1, 2) ? DISJOINT : PROXY; // TBB only on top (its blocks are big)
        if (!addLayer(w, r, k))
            return false;
    }
#ifdef WITH_JE
    je::ask_addresses = true;
    if (w.rec && w.layers[0]->kind == JEMALLOC && r.chance(1, 2)) { // what the provider refuses is not done
        w.prov.fail_pm[pv::SPLIT] = w.prov.fail_pm[pv::MERGE] = (unsigned)r.below(300);
        w.prov.fail_pm[pv::PURGEL] = w.prov.fail_pm[pv::PURGEF] = 200;
        w.prov.fail_code = r.pick(std::vector<umf_result_t>{UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_UNKNOWN});
        if (r.chance(1, 2)) {
            je::ask_addresses = false; // nothing else could keep what cannot be freed then
            w.prov.fail_pm[pv::FREE] = 100;
        }
        w.desc += " refusing";
    }
#endif
    label("%s", w.desc.c_str());
    return true;
}

void teardown(World &w) {
    w.prov.fail_pm[pv::FREE] = 0;
    uint64_t fin0 = w.prov.finalized;
    bool bottom_owned = w.layers.empty() ? false : w.layers[0]->own;
    while (!w.layers.empty()) {
        auto &L = *w.layers.back();
        umf_memory_provider_handle_t up = nullptr;
        umfPoolGetMemoryProvider(L.pool, &up);
        CHECK(up == L.prov, "C16:getprovider", "umfPoolGetMemoryProvider returned %p instead of %p", (void *)up, (void *)L.prov);
        umfPoolDestroy(L.pool);
        if (w.layers.size() > 1 && !L.own)
            umfMemoryProviderDestroy(L.prov);
        w.layers.pop_back();
    }
    if (w.rec) {
        size_t n = w.prov.nlive();
        CHECK(n == 0, "C02:outstanding", "%zu provider blocks (%zu bytes) outstanding after all pools were destroyed (%s)", n,
              w.prov.live_bytes, w.desc.c_str());
        cnt("destroyed_clean");
        CHECK(w.prov.finalized - fin0 == (bottom_owned ? 1u : 0u), "C02:ownership", "provider finalized %lu times (owned %d)",
              w.prov.finalized - fin0, bottom_owned);
        cnt("provider_allocs", w.prov.calls[pv::ALLOC]);
        cnt("provider_frees", w.prov.calls[pv::FREE]);
    }
    if (!bottom_owned) {
        void *p = nullptr; // still usable
        umf_result_t res = umfMemoryProviderAlloc(w.bottom, 65536, 4096, &p);
        CHECK(res == UMF_RESULT_SUCCESS && p, "C02:provider-dead", "provider unusable after its pools were destroyed: %d", res);
        if (p) {
            pv::Prov::unpoison(p, 65536); // a pool leaves its blocks poisoned in ASan builds
            memset(p, 1, 65536);
            umfMemoryProviderFree(w.bottom, p, 65536);
        }
        umfMemoryProviderDestroy(w.bottom);
        if (w.rec)
            CHECK(w.prov.finalized - fin0 == 1, "C02:ownership", "provider finalized %lu times", w.prov.finalized - fin0);
    }
    if (w.limits)
        umfDisjointPoolSharedLimitsDestroy(w.limits);
    w.limits = nullptr;
}

size_t randsize0(Rng &r, const World::Layer &L) {
    switch (r.below(12)) {
    case 0: return 1 + r.below(16);
    case 1: return L.maxpool && L.maxpool < (8 << 20) ? L.maxpool - r.below(3) + r.below(3) : 64;
    case 2: return L.slab_min ? L.slab_min / (1 + r.below(3)) + r.below(3) : 100;
    case 3: return ((size_t)1 << r.below(18)) + r.below(3) - 1;
    case 4: return (3ull << r.below(16)) + r.below(3) - 1;
    case 5: return r.logsize(1 << 21) + 1;
    case 6: return r.logsize(1 << 18) + 1;
    default: return r.logsize(1 << 12) + 1;
    }
}

size_t randsize(Rng &r, const World::Layer &L) {
    size_t n = randsize0(r, L);
    return n ? n : 1;
}

std::atomic<uint64_t> tagger{1};

// one allocation of any flavour; returns false when it (legitimately) failed
bool alloc1(World &w, Rng &r, A &a, Sig &s, bool light, size_t fsize = 0, size_t falign = 0) {
    auto &L = w.top();
    size_t size = fsize ? fsize : randsize(r, L);
    if (light && size > 65536)
        size = 1 + size % 65536;
    int how = (int)r.below(10);
    size_t align = 0;
    char *p = nullptr;
    char what[120];
    if (fsize) {
        align = falign;
        how = falign ? 5 : 0;
    }
    if (fsize && falign) {
        snprintf(what, sizeof what, "aligned_malloc(%zu, %zu)", size, align);
        p = (char *)umfPoolAlignedMalloc(L.pool, size, align);
    } else if (how < 5) {
        snprintf(what, sizeof what, "malloc(%zu)", size);
        p = (char *)umfPoolMalloc(L.pool, size);
    } else if (how < 8 || L.kind == PROXY || L.kind == DISJOINT) {
        align = (size_t)1 << r.below(light ? 14 : 18);
        if (align < 8)
            align = 8;
        if (r.chance(1, 2))
            size = std::max<size_t>(1, size % (4 * align));
        snprintf(what, sizeof what, "aligned_malloc(%zu, %zu)", size, align);
        p = (char *)umfPoolAlignedMalloc(L.pool, size, align);
    } else {
        size_t n = 1 + r.below(20);
        snprintf(what, sizeof what, "calloc(%zu, %zu)", n, size);
        if (n * size > (4u << 20))
            n = 1;
        p = (char *)umfPoolCalloc(L.pool, n, size);
        size *= n;
        if (p)
            for (size_t i = 0; i < size; i++)
                if (p[i]) {
                    viol("C01:calloc", "%s: byte %zu is %d", what, i, p[i]);
                    break;
                }
    }
    s.add(how).add(size).add(align).add(p != nullptr);
    if (!p) {
        cnt("alloc_null");
        return false;
    }
    cnt("allocs");
    size_t us = umfPoolMallocUsableSize(L.pool, p);
    if (L.kind != PROXY)
        CHECK(us >= size, "C01:usable", "%s: usable size %zu (%s)", what, us, w.desc.c_str());
    size_t n = std::max(us, size);
    CHECK(!align || (uintptr_t)p % align == 0, "C01:align", "%s: %p misaligned (%s)", what, p, w.desc.c_str());

    w.ivadd(p, n, what);
    w.inside(p, n, what);
    a = {p, size, n, tagger++, 0};
    stamp(a);
    if (L.tracked) {
        const void *q = p + r.below(n);
        CHECK(umfPoolByPtr(q) == L.pool, "C03:lookup", "%s: lookup of a live allocation's byte does not give its pool (%s)", what,
              w.desc.c_str());
    }
    return true;
}

void free1(World &w, Rng &r, A &a) {
    auto &L = w.top();
    verify(a, "before free");
    w.ivdel(a.p);
    umf_result_t res = (L.tracked && r.chance(1, 3)) ? umfFree(a.p) : umfPoolFree(L.pool, a.p);
    CHECK(res == UMF_RESULT_SUCCESS, "C01:free", "freeing a live allocation of %zu bytes failed: %d (%s)", a.req, res, w.desc.c_str());
    cnt("frees");
}

// false: the allocation is gone
bool realloc1(World &w, Rng &r, A &a, Sig &s) {
    auto &L = w.top();
    size_t size = randsize(r, L);
    verify(a, "before realloc");
    w.ivdel(a.p);
    if (r.chance(1, 12)) { // frees, then allocates
        void *z = umfPoolRealloc(L.pool, a.p, 0);
        CHECK(!z, "C01:realloc-zero", "realloc of a live allocation to 0 returned memory (%s)", w.desc.c_str());
        char *p = (char *)umfPoolRealloc(L.pool, nullptr, size);
        cnt("reallocs_zero");
        if (!p)
            return false;
        size_t us = umfPoolMallocUsableSize(L.pool, p);
        CHECK(us >= size, "C01:usable", "realloc(NULL, %zu): usable size %zu", size, us);
        w.ivadd(p, std::max(us, size), "realloc");
        w.inside(p, std::max(us, size), "realloc");
        a = {p, size, std::max(us, size), tagger++, 0};
        stamp(a);
        return true;
    }
    char *p = (char *)umfPoolRealloc(L.pool, a.p, size);
    s.add(7).add(size);
    if (!p) {
        w.ivadd(a.p, a.usable, "failed realloc"); // the old block must still be there
        verify(a, "after failed realloc");
        return true;
    }
    size_t keep = std::min({size, a.req, a.stamped});
    size_t i = checkfill(p, keep, a.tag);
    CHECK(i == keep, "C01:realloc", "realloc %zu -> %zu: byte %zu of the common prefix changed", a.req, size, i);
    size_t us = umfPoolMallocUsableSize(L.pool, p);
    CHECK(us >= size, "C01:usable", "realloc(%zu): usable size %zu", size, us);
    w.ivadd(p, std::max(us, size), "realloc");
    w.inside(p, std::max(us, size), "realloc");
    a = {p, size, std::max(us, size), tagger++, 0};
    stamp(a);
    cnt("reallocs");
    return true;
}

// requests that cannot be served must return NULL
void impossible(World &w, Rng &r) {
    auto &L = w.top();
    Label l("impossible request");
    size_t big = r.pick(std::vector<size_t>{SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 63, SIZE_MAX - 4095, SIZE_MAX - 65536, SIZE_MAX / 2 + 1, (size_t)1 << 47});
    size_t al = (size_t)8 << r.below(20);
    void *p;
    const char *what;
    int kind = (int)r.below(hasRealloc(L.kind) ? 5 : 4);
#ifdef WITH_JE
    if (L.kind == JEMALLOC) // forgets the last error
        if (void *x = umfPoolMalloc(L.pool, 8))
            umfPoolRealloc(L.pool, x, 0);
#endif
    switch (kind) {
    case 4: {
        what = "realloc";
        size_t n = 1 + r.below(300);
        char *q = (char *)umfPoolMalloc(L.pool, n);
        if (!q)
            return;
        fill(q, n, big);
        p = umfPoolRealloc(L.pool, q, big);
        if (!p) {
            CHECK(checkfill(q, n, big) == n, "C01:realloc", "a refused realloc changed the block (%s)", w.desc.c_str());
            umfPoolFree(L.pool, q);
        }
        break;
    }
    case 0:
        what = "malloc";
        p = umfPoolMalloc(L.pool, big);
        break;
    case 1:
        what = "aligned_malloc";
        p = umfPoolAlignedMalloc(L.pool, big, al);
        break;
    case 2:
        what = "calloc";
        al = r.pick(std::vector<size_t>{2, 16, (size_t)1 << 32, (size_t)1 << 60});
        p = umfPoolCalloc(L.pool, al, r.chance(1, 2) ? big : SIZE_MAX / al + 1 + r.below(64));
        break;
    default:
        what = "calloc";
        al = r.chance(1, 2) ? SIZE_MAX : big;
        p = umfPoolCalloc(L.pool, al, 2 + r.below(100));
    }
    cnt("impossible");
#ifdef WITH_JE
    if (!p && L.kind == JEMALLOC)
        CHECK(umfPoolGetLastAllocationError(L.pool) == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "C14:pool-error",
              "after a refused %s the last allocation error is %d", what, umfPoolGetLastAllocationError(L.pool));
#endif
    CHECK(!p, "C01:impossible", "%s of an impossible amount (%zu, %zu) returned memory (%s)", what, big, al, w.desc.c_str());
}

void run_st(Rng &r) {
    World w;
    Sig s;
    if (!build(w, r, false, false))
        return;
    std::vector<A> live;
    int nops = 60 + (int)r.below(300);
    size_t bytes = 0;
    unsigned fp = 3 + (unsigned)r.below(5); // out of 10: allocation bias
    for (int i = 0; i < nops; i++) {
        if (r.chance(1, 40))
            fp = 2 + (unsigned)r.below(7);
        if (r.below(10) < fp || live.empty()) {
            A a;
            if (bytes < (24u << 20) && alloc1(w, r, a, s, false)) {
                bytes += a.usable;
                live.push_back(a);
            }
        } else if (hasRealloc(w.top().kind) && r.chance(1, 4)) {
            A &a = live[r.below(live.size())];
            bytes -= a.usable;
            if (realloc1(w, r, a, s))
                bytes += a.usable;
            else {
                a = live.back();
                live.pop_back();
            }
        } else {
            size_t k = r.chance(1, 3) ? live.size() - 1 : r.below(live.size());
            bytes -= live[k].usable;
            free1(w, r, live[k]);
            s.add(9).add(k);
            live[k] = live.back();
            live.pop_back();
        }
        if (r.chance(1, 25))
            impossible(w, r);
        if (r.chance(1, 50) && bytes < (12u << 20)) { // several neighbours of one size: all chunks of a slab live at once
            size_t align = r.chance(2, 3) ? (size_t)1 << (3 + r.below(13)) : 0;
            size_t b = ((size_t)(r.chance(1, 2) ? 2 : 3)) << (3 + r.below(13)); // a bucket's size
            size_t size = r.chance(1, 2) ? 1 + r.below(std::max<size_t>(b, 64)) : b > align ? b - align + r.below(3) - r.below(2) : b / 3;
            if (!size || size > b + 2)
                size = 1;
            int k = 4 + (int)r.below(28);
            for (int j = 0; j < k && bytes < (20u << 20); j++) {
                A a;
                if (!alloc1(w, r, a, s, false, size, align))
                    break;
                bytes += a.usable;
                live.push_back(a);
            }
            cnt("bursts");
        }
        if (r.chance(1, 60)) // drain
            while (!live.empty()) {
                bytes -= live.back().usable;
                free1(w, r, live.back());
                live.pop_back();
            }
    }
    for (auto &a : live)
        verify(a, "at the end");
    bool leave = w.top().kind == PROXY && false;
    (void)leave;
    while (!live.empty()) {
        free1(w, r, live.back());
        live.pop_back();
    }
    sig(s.v);
    sample("%s: %d ops, %lu provider allocs, %lu frees", w.desc.c_str(), nops, w.prov.calls[pv::ALLOC], w.prov.calls[pv::FREE]);
    teardown(w);
}

void run_mt(Rng &r, bool det) {
    World w;
#ifdef VARIANT_TSAN
    bool notbb = true;
#else
    bool notbb = det;
#endif
    if (!build(w, r, true, notbb))
        return;
    int nt = det ? 2 + (int)r.below(2) : 2 + (int)r.below(5);
    int nops = det ? 6 + (int)r.below(14) : 100 + (int)r.below(300);
    struct Slot {
        pv::Spin m;
        bool full = false;
        A a;
    };
    std::vector<Slot> slots(det ? 3 : 16);
    std::vector<std::vector<A>> lists(nt);
    std::vector<Rng> rs;
    for (int t = 0; t < nt; t++)
        rs.emplace_back(r.next());
    // shared starting population
    Sig dummy;
    for (int i = 0; i < 4; i++) {
        A a;
        if (alloc1(w, r, a, dummy, true)) {
            slots[i % slots.size()].full ? free1(w, r, a) : (void)(slots[i % slots.size()].a = a, slots[i % slots.size()].full = true);
        }
    }
    auto body = [&](int t) {
        Rng &q = rs[t];
        auto &live = lists[t];
        Sig s;
        size_t bytes = 0;
        for (int i = 0; i < nops; i++) {
            switch (q.below(5)) {
            case 0:
            case 1: {
                A a;
                if (bytes < (4u << 20) && alloc1(w, q, a, s, true)) {
                    live.push_back(a);
                    bytes += a.usable;
                }
                break;
            }
            case 2:
                if (!live.empty()) {
                    size_t k = q.below(live.size());
                    bytes -= live[k].usable;
                    free1(w, q, live[k]);
                    live[k] = live.back();
                    live.pop_back();
                }
                break;
            case 3: { // hand over to another thread
                auto &sl = slots[q.below(slots.size())];
                A got;
                bool have = false, put = false;
                {
                    std::lock_guard<pv::Spin> g(sl.m);
                    if (sl.full) {
                        got = sl.a;
                        have = true;
                        sl.full = false;
                    } else if (!live.empty()) {
                        sl.a = live.back();
                        sl.full = put = true;
                    }
                }
                if (put) {
                    bytes -= live.back().usable;
                    live.pop_back();
                    cnt("handed_over");
                }
                if (have)
                    free1(w, q, got);
                break;
            }
            default:
                if (!live.empty()) {
                    A &a = live[q.below(live.size())];
                    if (w.top().kind != PROXY)
                        CHECK(umfPoolMallocUsableSize(w.top().pool, a.p) == a.usable, "C01:usable",
                              "usable size of a live allocation changed (%s)", w.desc.c_str());
                    verify(a, "in between");
                    if (hasRealloc(w.top().kind) && q.chance(1, 3)) {
                        bytes -= a.usable;
                        if (realloc1(w, q, a, s))
                            bytes += a.usable;
                        else {
                            a = live.back();
                            live.pop_back();
                        }
                    }
                }
            }
        }
    };
    if (det) {
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; t++)
            bodies.push_back([&, t] { body(t); });
        auto res = sched::run(bodies, r.next(), sched::random_params(r));
        cnt("sched_steps", res.steps);
        cnt("sched_switches", res.switches);
        sig(Sig().add(res.hash).v);
    } else {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++)
            th.emplace_back(body, t);
        for (auto &x : th)
            x.join();
        sig(Sig().add(ctx().cur).v);
    }
    for (auto &l : lists)
        for (auto &a : l)
            free1(w, r, a);
    for (auto &sl : slots)
        if (sl.full)
            free1(w, r, sl.a);
    teardown(w);
}

#ifdef WITH_JE
// threads create, use and destroy their own pools: arenas' indices are used again at once
void run_churn(Rng &r) {
    Label l("churn");
    int nt = 2 + (int)r.below(4);
    std::vector<Rng> rs;
    for (int t = 0; t < nt; t++)
        rs.emplace_back(r.next());
    size_t n0 = je::arenas();
    auto body = [&](int t) {
        Rng &q = rs[t];
        pv::Prov prov;
        prov.arena = 64u << 20;
        prov.gran = prov.page_min = 4096;
        auto hp = pv::create(prov);
        for (int i = 0; i < 12; i++) {
            umf_memory_pool_handle_t pool = nullptr;
            umf_result_t rc = umfPoolCreate(umfJemallocPoolOps(), hp, nullptr, q.chance(1, 2) ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0, &pool);
            CHECK(rc == UMF_RESULT_SUCCESS, "C01:create", "creating a pool failed: %d", rc);
            if (rc)
                break;
            std::vector<A> live;
            int k = 1 + (int)q.below(6);
            for (int j = 0; j < k; j++) {
                size_t n = 1 + q.logsize(1 << 16);
                char *p = (char *)umfPoolMalloc(pool, n);
                CHECK(p, "C01:null", "malloc(%zu) of a fresh pool failed", n);
                if (!p)
                    continue;
                {
                    std::lock_guard<pv::Spin> g(prov.mu);
                    auto it = prov.live.upper_bound((uintptr_t)p);
                    bool in = it != prov.live.begin() && (--it, (uintptr_t)p + n <= it->first + it->second.size);
                    CHECK(in, "C01:outside", "malloc(%zu) returned memory which is not of the pool's provider", n);
                }
                A a = {p, n, n, tagger++, 0};
                stamp(a);
                live.push_back(a);
            }
            for (auto &a : live) {
                verify(a, "before free");
                umfPoolFree(pool, a.p);
            }
            umfPoolDestroy(pool);
            CHECK(prov.nlive() == 0, "C02:outstanding", "%zu provider blocks outstanding after the pool was destroyed", prov.nlive());
            cnt("churned_pools");
        }
        umfMemoryProviderDestroy(hp);
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
        th.emplace_back(body, t);
    for (auto &x : th)
        x.join();
    CHECK(je::arenas() == n0, "C02:arena-left", "%zu arenas left", je::arenas() - n0);
    sig(r.next());
}
#endif

// ---- C15: limits of disjoint pools ---------------------------------------
struct LBlk { // one provider block of a pool
    size_t size;
    size_t cls = 0; // chunk size of the allocations in it (0: not known yet)
    std::set<char *> live;
    bool direct = false;
};
struct LPool {
    pv::Prov prov;
    umf_memory_provider_handle_t hp = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    size_t slab_min, maxpool, cap;
    std::map<uintptr_t, LBlk> blks;
    std::map<char *, size_t> live; // -> requested
    std::string desc;

    bool make(Rng &r, umf_disjoint_pool_shared_limits_handle_t lim) {
        prov.arena = 96u << 20;
        prov.gran = 4096;
        prov.lifo = r.chance(1, 2);
        prov.log = true;
        prov.name = "limits";
        hp = pv::create(prov);
        slab_min = r.pick(std::vector<size_t>{64, 4096, 65536, 65536, 10000, 1 << 18, 0});
        maxpool = r.pick(std::vector<size_t>{256, 4096, 65536, 1 << 20, 100000, 0, 3000});
        cap = r.pick(std::vector<size_t>{0, 1, 2, 3, 5});
        umf_disjoint_pool_params_handle_t d = nullptr;
        umfDisjointPoolParamsCreate(&d);
        umfDisjointPoolParamsSetSlabMinSize(d, slab_min);
        umfDisjointPoolParamsSetMaxPoolableSize(d, maxpool);
        umfDisjointPoolParamsSetCapacity(d, cap);
        size_t mb = (size_t)8 << r.below(8);
        umfDisjointPoolParamsSetMinBucketSize(d, mb);
        umfDisjointPoolParamsSetTrace(d, (int)r.below(4));
        if (lim)
            umfDisjointPoolParamsSetSharedLimits(d, lim);
        umf_result_t res = umfPoolCreate(umfDisjointPoolOps(), hp, d, 0, &pool);
        umfDisjointPoolParamsDestroy(d);
        char b[160];
        snprintf(b, sizeof b, "slab %zu maxpool %zu cap %zu minb %zu", slab_min, maxpool, cap, mb);
        desc = b;
        return res == UMF_RESULT_SUCCESS;
    }
    LBlk *of(char *p, uintptr_t *base = nullptr) {
        auto it = blks.upper_bound((uintptr_t)p);
        if (it == blks.begin())
            return nullptr;
        --it;
        if ((uintptr_t)p >= it->first + it->second.size)
            return nullptr;
        if (base)
            *base = it->first;
        return &it->second;
    }
    size_t chunks(const LBlk &b) const { return std::max<size_t>(1, b.cls ? slab_min / b.cls : 1); }
    size_t pooled() const {
        size_t n = 0;
        for (auto &b : blks)
            if (!b.second.direct && b.second.live.empty())
                n += b.second.size;
        return n;
    }
    // applies what the provider saw since `from`; returns number of allocations
    int sync(size_t from, bool direct) {
        int na = 0;
        for (size_t i = from; i < prov.evs.size(); i++) {
            auto &e = prov.evs[i];
            if (e.res)
                continue;
            if (e.op == pv::ALLOC) {
                blks[e.p] = LBlk{e.a};
                blks[e.p].direct = direct;
                if (!direct)
                    CHECK(e.a >= slab_min, "C15:slab-size", "slab of %zu bytes taken (%s)", e.a, desc.c_str());
                na++;
            } else if (e.op == pv::FREE)
                blks.erase(e.p);
        }
        return na;
    }
};

void run_lim(Rng &r) {
    size_t limit = r.chance(1, 3) ? SIZE_MAX : r.pick(std::vector<size_t>{0, 4096, 65536, 200000, 1 << 20, 3 << 20});
    bool shared = limit != SIZE_MAX || r.chance(1, 2);
    auto lim = shared ? umfDisjointPoolSharedLimitsCreate(limit) : nullptr;
    int np = shared ? 1 + (int)r.below(3) : 1;
    Sig s;
    {
        std::vector<std::unique_ptr<LPool>> ps;
        for (int i = 0; i < np; i++) {
            ps.push_back(std::make_unique<LPool>());
            if (!ps.back()->make(r, lim)) {
                viol("C15:create", "pool creation failed (%s)", ps.back()->desc.c_str());
                return;
            }
        }
        label("limit %zd, %d pools, %s", (ssize_t)limit, np, ps[0]->desc.c_str());
        auto total = [&] {
            size_t n = 0;
            for (auto &p : ps)
                n += p->pooled();
            return n;
        };
        auto after = [&](LPool &L) {
            // empty slabs per class
            std::map<size_t, size_t> empty;
            for (auto &b : L.blks)
                if (!b.second.direct && b.second.live.empty())
                    empty[b.second.cls]++;
            for (auto &e : empty) {
                size_t allowed = e.first && e.first <= L.slab_min / 2 ? 1 : L.cap;
                CHECK(e.second <= allowed, "C15:capacity", "%zu empty slabs kept for size class %zu, allowed %zu (%s)", e.second, e.first,
                      allowed, L.desc.c_str());
            }
            size_t t = total();
            CHECK(t <= limit, "C15:limit", "%zu pooled bytes with a limit of %zu (%s)", t, limit, L.desc.c_str());
            maxstat("max_pooled", t);
            cnt("limit_checks");
        };
        int nops = 80 + (int)r.below(250);
        unsigned bias = 5;
        std::vector<size_t> favourite;
        for (int i = 0; i < 3; i++)
            favourite.push_back(1 + r.logsize(1 << 17));
        for (int i = 0; i < nops; i++) {
            LPool &L = *ps[r.below(np)];
            if (r.chance(1, 30))
                bias = 2 + (unsigned)r.below(7);
            size_t from = L.prov.evs.size();
            if (r.below(10) < bias || L.live.empty()) {
                size_t size = r.chance(2, 3) ? r.pick(favourite) : 1 + r.logsize(1 << 17);
                if (r.chance(1, 6) && L.maxpool)
                    size = L.maxpool + r.below(3) - (L.maxpool > 1 ? 1 : 0);
                if (!size)
                    size = 1;
                size_t align = r.chance(1, 4) ? (size_t)8 << r.below(10) : 0; // at most a page
                if (align > 4096)
                    align = 4096;
                size_t eff = align ? (size + align - 1) / align * align : size;
                bool direct = eff > L.maxpool;
                // what is reusable before the call, per class
                std::map<size_t, bool> room;
                for (auto &b : L.blks)
                    if (!b.second.direct && b.second.live.size() < L.chunks(b.second))
                        room[b.second.cls] = true;
                char *p = (char *)(align ? umfPoolAlignedMalloc(L.pool, size, align) : umfPoolMalloc(L.pool, size));
                int na = L.sync(from, direct);
                s.add(size).add(align).add(na);
                if (!p) {
                    cnt("alloc_null");
                    continue;
                }
                uintptr_t base = 0;
                LBlk *b = L.of(p, &base);
                if (!b) {
                    viol("C15:outside", "allocation of %zu bytes lies in no block of the pool (%s)", size, L.desc.c_str());
                    continue;
                }
                if (direct) {
                    CHECK(na == 1 && b->direct && b->size == size && base == (uintptr_t)p, "C15:direct",
                          "request of %zu bytes above the pooling limit was not served directly (%d provider allocations, block of %zu) (%s)",
                          size, na, b->size, L.desc.c_str());
                    cnt("direct");
                } else {
                    size_t us = umfPoolMallocUsableSize(L.pool, p);
                    size_t cls = us; // page-aligned slabs: the chunk is not shifted
                    CHECK(na <= 1, "C15:slabs-taken", "%d provider allocations for one request (%s)", na, L.desc.c_str());
                    if (b->cls == 0)
                        b->cls = cls;
                    CHECK(b->cls == cls, "C15:mixed", "slab holds chunks of %zu and %zu bytes (%s)", b->cls, cls, L.desc.c_str());
                    if (na && room.count(cls))
                        viol("C15:not-reused", "new slab taken for %zu bytes (class %zu) although a pooled slab has room (%s)", size, cls,
                             L.desc.c_str());
                    if (!na)
                        cnt("reused");
                    cnt("pooled_allocs");
                }
                b->live.insert(p);
                L.live[p] = size;
            } else {
                auto it = L.live.begin();
                std::advance(it, r.below(L.live.size()));
                char *p = it->first;
                uintptr_t base = 0;
                LBlk *b = L.of(p, &base);
                LBlk was = *b;
                b->live.erase(p);
                L.live.erase(it);
                size_t before = total() - (b->live.empty() && !b->direct ? b->size : 0);
                std::map<size_t, size_t> empty;
                for (auto &x : L.blks)
                    if (!x.second.direct && x.second.live.empty() && x.first != base)
                        empty[x.second.cls]++;
                umf_result_t res = umfPoolFree(L.pool, p);
                CHECK(res == UMF_RESULT_SUCCESS, "C15:free", "free failed: %d (%s)", res, L.desc.c_str());
                L.sync(from, false);
                bool gone = !L.blks.count(base);
                if (was.direct)
                    CHECK(gone, "C15:direct", "directly served block of %zu bytes was kept (%s)", was.size, L.desc.c_str());
                else if (was.live.size() == 1) {
                    size_t allowed = was.cls <= L.slab_min / 2 ? 1 : L.cap;
                    bool fits = empty[was.cls] + 1 <= allowed && before + was.size <= limit;
                    if (fits)
                        CHECK(!gone, "C15:not-pooled",
                              "emptied slab of %zu bytes (class %zu, %zu others empty) was returned although capacity %zu and limit %zu allow it (pooled %zu) (%s)",
                              was.size, was.cls, empty[was.cls], L.cap, limit, before, L.desc.c_str());
                    cnt(gone ? "slab_returned" : "slab_pooled");
                } else
                    CHECK(!gone, "C15:returned-live", "slab returned while it holds live chunks (%s)", L.desc.c_str());
                s.add(1);
            }
            after(L);
            if (np > 1 && r.chance(1, 60)) { // retire one pool, start another
                size_t k = r.below(np);
                LPool &D = *ps[k];
                for (auto &x : D.live)
                    umfPoolFree(D.pool, x.first);
                umfPoolDestroy(D.pool);
                umfMemoryProviderDestroy(D.hp);
                CHECK(D.prov.nlive() == 0, "C02:outstanding", "provider memory outstanding after destroy (%s)", D.desc.c_str());
                ps[k] = std::make_unique<LPool>();
                ps[k]->make(r, lim);
                cnt("pool_replaced");
            }
        }
        for (auto &p : ps) {
            for (auto &x : p->live)
                umfPoolFree(p->pool, x.first);
            umfPoolDestroy(p->pool);
            umfMemoryProviderDestroy(p->hp);
            CHECK(p->prov.nlive() == 0, "C02:outstanding", "provider memory outstanding after destroy (%s)", p->desc.c_str());
        }
        sample("limit %zu, %d pools: %s, %d ops", limit, np, ps[0]->desc.c_str(), nops);
    }
    sig(s.v);
    if (lim && limit >= 65536 && limit != SIZE_MAX) {
        // the accounting is back to zero: a fresh pool can pool up to the whole limit
        LPool L;
        L.prov.arena = 96u << 20;
        L.hp = pv::create(L.prov);
        umf_disjoint_pool_params_handle_t d = nullptr;
        umfDisjointPoolParamsCreate(&d);
        size_t slab = limit & ~(size_t)4095;
        umfDisjointPoolParamsSetSlabMinSize(d, slab);
        umfDisjointPoolParamsSetMaxPoolableSize(d, 64);
        umfDisjointPoolParamsSetCapacity(d, 4);
        umfDisjointPoolParamsSetSharedLimits(d, lim);
        if (umfPoolCreate(umfDisjointPoolOps(), L.hp, d, 0, &L.pool) == UMF_RESULT_SUCCESS) {
            void *p = umfPoolMalloc(L.pool, 64);
            umfPoolFree(L.pool, p);
            CHECK(L.prov.nlive() == 1, "C15:accounting", "after all sharing pools were destroyed %zu of the limit %zu is not available any more",
                  slab, limit);
            cnt("accounting_checks");
            umfPoolDestroy(L.pool);
        }
        umfDisjointPoolParamsDestroy(d);
        umfMemoryProviderDestroy(L.hp);
    }
    if (lim)
        umfDisjointPoolSharedLimitsDestroy(lim);
}

// concurrent users of shared limits: totals at quiescence
void run_limmt(Rng &r, bool det) {
    size_t limit = r.pick(std::vector<size_t>{0, 4096, 16384, 65536, 1 << 20});
    bool tight = r.chance(3, 4); // room for one or two slabs, which several pools want to keep
    if (tight)
        limit = r.pick(std::vector<size_t>{4096, 8192, 12288, 16384});
    auto lim = umfDisjointPoolSharedLimitsCreate(limit);
    struct P {
        pv::Prov prov;
        umf_memory_provider_handle_t hp;
        umf_memory_pool_handle_t pool;
    };
    int np = tight ? 2 + (int)r.below(2) : 1 + (int)r.below(3), nt = det ? 2 + (int)r.below(2) : 2 + (int)r.below(4);
    std::vector<std::unique_ptr<P>> ps;
    size_t slab = r.pick(std::vector<size_t>{4096, 8192});
    size_t cap = tight ? 1 + r.below(3) : r.below(4);
    size_t maxp = r.pick(std::vector<size_t>{4096, 16384});
    for (int i = 0; i < np; i++) {
        auto p = std::make_unique<P>();
        p->prov.arena = 64u << 20;
        p->prov.fill_garbage = false;
        p->prov.lifo = r.chance(1, 2);
        p->prov.name = "limits";
        p->hp = pv::create(p->prov);
        umf_disjoint_pool_params_handle_t d = nullptr;
        umfDisjointPoolParamsCreate(&d);
        umfDisjointPoolParamsSetSlabMinSize(d, slab);
        umfDisjointPoolParamsSetMaxPoolableSize(d, maxp);
        umfDisjointPoolParamsSetCapacity(d, cap);
        umfDisjointPoolParamsSetTrace(d, (int)r.below(3));
        umfDisjointPoolParamsSetSharedLimits(d, lim);
        umfPoolCreate(umfDisjointPoolOps(), p->hp, d, 0, &p->pool);
        umfDisjointPoolParamsDestroy(d);
        ps.push_back(std::move(p));
    }
    label("limit %zu slab %zu cap %zu maxp %zu pools %d", limit, slab, cap, maxp, np);
    std::vector<Rng> rs;
    for (int t = 0; t < nt; t++)
        rs.emplace_back(r.next());
    int nops = det ? (tight ? 4 : 10) + (int)r.below(10) : 400;
    std::vector<size_t> sizes = {64, 1500, 3000, 4096, 6000, 16384};
    if (tight && r.chance(1, 2))
        sizes = {64, 3000, 4096};
    // only the releases run concurrently
    bool burst = det && r.chance(1, 2);
    std::vector<std::vector<std::pair<P *, void *>>> held(nt);
    if (burst) {
        nops = 0;
        for (int t = 0; t < nt; t++)
            for (int i = 1 + (int)r.below(2); i; i--) {
                P *p = ps[(t + r.below(2)) % np].get();
                void *x = umfPoolMalloc(p->pool, r.pick(sizes));
                if (x) {
                    held[t].push_back({p, x});
                    cnt("allocs");
                }
            }
        cnt("bursts");
    }
    auto body = [&](int t) {
        Rng &q = rs[t];
        std::vector<std::pair<P *, void *>> live = held[t];
        for (int i = 0; i < nops; i++) {
            if (live.size() < 6 && (live.empty() || q.chance(1, 2))) {
                P *p = ps[q.below(np)].get();
                void *x = umfPoolMalloc(p->pool, q.pick(sizes));
                if (x) {
                    memset(x, (int)t, 64);
                    live.push_back({p, x});
                    cnt("allocs");
                }
            } else {
                size_t k = q.below(live.size());
                umfPoolFree(live[k].first->pool, live[k].second);
                live[k] = live.back();
                live.pop_back();
                cnt("frees");
            }
        }
        for (auto &x : live)
            umfPoolFree(x.first->pool, x.second);
    };
    if (det) {
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; t++)
            bodies.push_back([&, t] { body(t); });
        auto res = sched::run(bodies, r.next(), sched::random_params(r));
        cnt("sched_steps", res.steps);
        sig(Sig().add(res.hash).v);
    } else {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++)
            th.emplace_back(body, t);
        for (auto &x : th)
            x.join();
        sig(ctx().cur);
    }
    size_t tot = 0;
    for (auto &p : ps)
        tot += p->prov.live_bytes; // everything is free: all of it is pooled
    CHECK(tot <= limit, "C15:limit", "%zu pooled bytes with a limit of %zu after concurrent use", tot, limit);
    cnt("limit_checks");
    for (auto &p : ps) {
        umfPoolDestroy(p->pool);
        umfMemoryProviderDestroy(p->hp);
        CHECK(p->prov.nlive() == 0, "C02:outstanding", "provider memory outstanding after destroy");
    }
    if (limit >= 4096) {
        P p;
        p.prov.arena = 64u << 20;
        p.hp = pv::create(p.prov);
        umf_disjoint_pool_params_handle_t d = nullptr;
        umfDisjointPoolParamsCreate(&d);
        umfDisjointPoolParamsSetSlabMinSize(d, limit);
        umfDisjointPoolParamsSetMaxPoolableSize(d, 64);
        umfDisjointPoolParamsSetCapacity(d, 4);
        umfDisjointPoolParamsSetSharedLimits(d, lim);
        umfPoolCreate(umfDisjointPoolOps(), p.hp, d, 0, &p.pool);
        umfDisjointPoolParamsDestroy(d);
        void *x = umfPoolMalloc(p.pool, 64);
        umfPoolFree(p.pool, x);
        CHECK(p.prov.nlive() == 1, "C15:accounting", "after concurrent use and destruction of all sharing pools the limit of %zu is not available",
              limit);
        cnt("accounting_checks");
        umfPoolDestroy(p.pool);
        umfMemoryProviderDestroy(p.hp);
    }
    umfDisjointPoolSharedLimitsDestroy(lim);
}
} // namespace

void harness_begin() { umfInit(); }
void harness_end() { umfTearDown(); }
void run_case(uint64_t idx, Rng &r) {
    const std::string &m = ctx().mode;
    bool det = m == "sched" || m == "limsched";
#ifndef VARIANT_SCHED
    det = false;
#endif
    if (m == "st")
        run_st(r);
    else if (m == "mt")
        run_mt(r, false);
    else if (m == "sched")
        run_mt(r, det);
#ifdef WITH_JE
    else if (m == "churn")
        run_churn(r);
#endif
    else if (m == "lim")
        run_lim(r);
    else if (m == "limmt")
        run_limmt(r, false);
    else if (m == "limsched")
        run_limmt(r, det);
}
