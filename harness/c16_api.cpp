// C16: every call of the provider and pool API reaches the callback it names
// exactly once, with the caller's arguments and the handle's own private state,
// and its result and output come back unchanged.
#ifndef NO_BA
#include "ba.hpp"
#endif
#include "provs.hpp"
#include "sched.hpp"
extern "C" void *umfMemoryProviderGetPriv(umf_memory_provider_handle_t);

using namespace h;

namespace {

enum F {
    INIT, FINI, ALLOC, FREE, ERR, REC, MIN, NAME, PLAZY, PFORCE, SPLIT, MERGE, ISIZE, IGET, IPUT, IOPEN, ICLOSE, CTL,
    PINIT, PFINI, PMALLOC, PCALLOC, PREALLOC, PALIGNED, PUSABLE, PFREE, PLAST, PCTL, NF
};
const char *fname[] = {"initialize", "finalize", "alloc", "free", "get_last_native_error", "get_recommended_page_size",
                       "get_min_page_size", "get_name", "purge_lazy", "purge_force", "allocation_split", "allocation_merge",
                       "get_ipc_handle_size", "get_ipc_handle", "put_ipc_handle", "open_ipc_handle", "close_ipc_handle", "ctl",
                       "pool initialize", "pool finalize", "malloc", "calloc", "realloc", "aligned_malloc", "malloc_usable_size",
                       "pool free", "get_last_allocation_error", "pool ctl"};

struct Call {
    int f, table;
    const void *priv;
    uint64_t a[4];
    std::string s;
};
struct Script { // what the next callback returns and stores
    umf_result_t res = UMF_RESULT_SUCCESS;
    void *ptr = nullptr;
    size_t sz = 0;
    int32_t err = 0;
    const char *msg = nullptr;
    bool touch = true; // the callback stores its output
};
thread_local std::vector<Call> calls;
thread_local Script sc;
// handed over to the initialize callbacks
thread_local void *newpriv;

uint64_t U(const void *p) { return (uint64_t)p; }

template <int T> struct Tab {
    static umf_result_t rec(int f, const void *priv, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, const char *s = "") {
        calls.push_back({f, T, priv, {a, b, c, 0}, s});
        return sc.res;
    }
    static umf_result_t init(void *params, void **priv) {
        rec(INIT, params);
        if (sc.touch)
            *priv = newpriv;
        return sc.res;
    }
    static void fini(void *p) { rec(FINI, p); }
    static umf_result_t alloc(void *p, size_t n, size_t a, void **out) {
        if (sc.touch)
            *out = sc.ptr;
        return rec(ALLOC, p, n, a, U(out));
    }
    static umf_result_t free_(void *p, void *q, size_t n) { return rec(FREE, p, U(q), n); }
    static void err(void *p, const char **m, int32_t *e) {
        rec(ERR, p, U(m), U(e));
        if (sc.touch) {
            *m = sc.msg;
            *e = sc.err;
        }
    }
    static umf_result_t recp(void *p, size_t n, size_t *out) {
        if (sc.touch)
            *out = sc.sz;
        return rec(REC, p, n, U(out));
    }
    static umf_result_t minp(void *p, void *q, size_t *out) {
        if (sc.touch)
            *out = sc.sz;
        return rec(MIN, p, U(q), U(out));
    }
    static const char *name(void *p) {
        rec(NAME, p);
        return sc.msg;
    }
    static umf_result_t plazy(void *p, void *q, size_t n) { return rec(PLAZY, p, U(q), n); }
    static umf_result_t pforce(void *p, void *q, size_t n) { return rec(PFORCE, p, U(q), n); }
    static umf_result_t split(void *p, void *q, size_t t, size_t f) { return rec(SPLIT, p, U(q), t, f); }
    static umf_result_t merge(void *p, void *l, void *hi, size_t t) { return rec(MERGE, p, U(l), U(hi), t); }
    static umf_result_t isize(void *p, size_t *out) {
        if (sc.touch)
            *out = sc.sz;
        return rec(ISIZE, p, U(out));
    }
    static umf_result_t iget(void *p, const void *q, size_t n, void *d) { return rec(IGET, p, U(q), n, U(d)); }
    static umf_result_t iput(void *p, void *d) { return rec(IPUT, p, U(d)); }
    static umf_result_t iopen(void *p, void *d, void **out) {
        if (sc.touch)
            *out = sc.ptr;
        return rec(IOPEN, p, U(d), U(out));
    }
    static umf_result_t iclose(void *p, void *q, size_t n) { return rec(ICLOSE, p, U(q), n); }
    static umf_result_t ctl(void *p, int, const char *n, void *arg, umf_ctl_query_type_t t) {
        return rec(CTL, p, U(arg), (uint64_t)t, 0, n);
    }
    // pools
    static umf_result_t pinit(umf_memory_provider_handle_t pr, void *params, void **priv) {
        rec(PINIT, params, U(pr));
        if (sc.touch)
            *priv = newpriv;
        return sc.res;
    }
    static void pfini(void *p) { rec(PFINI, p); }
    static void *pmalloc(void *p, size_t n) {
        rec(PMALLOC, p, n);
        return sc.ptr;
    }
    static void *pcalloc(void *p, size_t a, size_t b) {
        rec(PCALLOC, p, a, b);
        return sc.ptr;
    }
    static void *prealloc(void *p, void *q, size_t n) {
        rec(PREALLOC, p, U(q), n);
        return sc.ptr;
    }
    static void *paligned(void *p, size_t n, size_t a) {
        rec(PALIGNED, p, n, a);
        return sc.ptr;
    }
    static size_t pusable(void *p, void *q) {
        rec(PUSABLE, p, U(q));
        return sc.sz;
    }
    static umf_result_t pfree(void *p, void *q) { return rec(PFREE, p, U(q)); }
    static umf_result_t plast(void *p) { return rec(PLAST, p); }
    static umf_result_t pctl(void *p, int, const char *n, void *arg, umf_ctl_query_type_t t) {
        return rec(PCTL, p, U(arg), (uint64_t)t, 0, n);
    }
    static umf_memory_provider_ops_t prov() {
        umf_memory_provider_ops_t o;
        memset(&o, 0, sizeof o);
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = init;
        o.finalize = fini;
        o.alloc = alloc;
        o.free = free_;
        o.get_last_native_error = err;
        o.get_recommended_page_size = recp;
        o.get_min_page_size = minp;
        o.get_name = name;
        o.ext = {plazy, pforce, merge, split};
        o.ipc = {isize, iget, iput, iopen, iclose};
        o.ctl = ctl;
        return o;
    }
    static umf_memory_pool_ops_t pool() {
        umf_memory_pool_ops_t o;
        memset(&o, 0, sizeof o);
        o.version = UMF_POOL_OPS_VERSION_CURRENT;
        o.initialize = pinit;
        o.finalize = pfini;
        o.malloc = pmalloc;
        o.calloc = pcalloc;
        o.realloc = prealloc;
        o.aligned_malloc = paligned;
        o.malloc_usable_size = pusable;
        o.free = pfree;
        o.get_last_allocation_error = plast;
        o.ctl = pctl;
        return o;
    }
};
umf_memory_provider_ops_t provTab(unsigned t) { return t == 0 ? Tab<0>::prov() : t == 1 ? Tab<1>::prov() : Tab<2>::prov(); }
umf_memory_pool_ops_t poolTab(unsigned t) { return t == 0 ? Tab<0>::pool() : t == 1 ? Tab<1>::pool() : Tab<2>::pool(); }

struct PH {
    umf_memory_provider_handle_t h = nullptr;
    void *priv = nullptr;
    int table = 0;
    bool lazy = true, force = true, ext = true, ipc = true, ctl = true;
};
struct QH {
    umf_memory_pool_handle_t h = nullptr;
    umf_memory_provider_handle_t inner = nullptr; // what the pool was given
    PH *up = nullptr;
    void *priv = nullptr;
    int table = 0;
    bool ctl = true, own = false, track = true;
    void *tag = nullptr;
};

const umf_result_t codes[] = {UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, (umf_result_t)4321,
                              UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_INVALID_ARGUMENT,
                              UMF_RESULT_ERROR_INVALID_ALIGNMENT, UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_USER_SPECIFIC,
                              UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, UMF_RESULT_ERROR_UNKNOWN};

struct Gen {
    Rng &r;
    explicit Gen(Rng &r) : r(r) {}
    umf_result_t code() { return r.chance(1, 2) ? UMF_RESULT_SUCCESS : codes[r.below(10)]; }
    uint64_t word() { // pointers and sizes at the ends of their range too
        switch (r.below(6)) {
        case 0: return r.below(64);
        case 1: return ~0ull - r.below(64);
        case 2: return 1ull << r.below(64);
        default: return r.next();
        }
    }
    uint64_t nz() {
        uint64_t w = word();
        return w ? w : 1;
    }
};

// exactly one call, of this kind, with these arguments
void expect(const char *api, int f, int table, const void *priv, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0) {
    if (calls.size() != 1) {
        viol("C16:calls", "%s made %zu calls of callbacks instead of one", api, calls.size());
        for (auto &x : calls)
            viol("C16:calls", "  %s", fname[x.f]);
        calls.clear();
        return;
    }
    Call k = calls[0];
    calls.clear();
    if (k.f != f) {
        viol("C16:wrong-callback", "%s reached %s instead of %s", api, fname[k.f], fname[f]);
        return;
    }
    CHECK(k.table == table && k.priv == priv, "C16:wrong-object", "%s reached implementation %d with private state %p; the handle has %d and %p",
          api, k.table, k.priv, table, priv);
    CHECK(k.a[0] == a && k.a[1] == b && k.a[2] == c, "C16:arguments", "%s handed over (%lx, %lx, %lx) instead of (%lx, %lx, %lx)", api, k.a[0],
          k.a[1], k.a[2], a, b, c);
    cnt("forwarded");
}
void none(const char *api, umf_result_t rc, umf_result_t want) {
    CHECK(calls.empty(), "C16:reached", "%s reached %s although its arguments are invalid or it is not supported", api,
          calls.empty() ? "" : fname[calls[0].f]);
    CHECK(rc == want, "C16:refusal", "%s returned %d instead of %d", api, rc, want);
    calls.clear();
    cnt("refused");
}
const umf_result_t INV = UMF_RESULT_ERROR_INVALID_ARGUMENT, NOSUP = UMF_RESULT_ERROR_NOT_SUPPORTED;
#define RES(api) CHECK(rc == sc.res, "C16:result", api " returned %d instead of the callback's %d", rc, sc.res)

void provCall(PH &p, Rng &r, bool single) {
    Gen g(r);
    sc = Script();
    sc.res = g.code();
    sc.ptr = (void *)g.word();
    sc.sz = g.word();
    sc.err = (int32_t)r.next();
    static const char *msgs[] = {"one", "two", "", "a longer message %s %n"};
    sc.msg = r.chance(1, 5) ? nullptr : msgs[r.below(4)];
    sc.touch = sc.res == UMF_RESULT_SUCCESS || r.chance(1, 2);
    calls.clear();
    void *const canary = (void *)0x5a5a1234;
    bool bad = r.chance(1, 6);
    (void)single;
    switch (r.below(15)) {
    case 0: {
        void *out = canary;
        size_t n = g.word(), a = g.word();
        if (bad) {
            none("umfMemoryProviderAlloc", r.chance(1, 2) ? umfMemoryProviderAlloc(nullptr, n, a, &out) : umfMemoryProviderAlloc(p.h, n, a, nullptr), INV);
            CHECK(out == canary, "C16:output", "a refused umfMemoryProviderAlloc changed its output");
            break;
        }
        umf_result_t rc = umfMemoryProviderAlloc(p.h, n, a, &out);
        if (!calls.empty()) // the address of the output may be the caller's or a temporary
            calls[0].a[2] = 0;
        expect("umfMemoryProviderAlloc", ALLOC, p.table, p.priv, n, a);
        RES("umfMemoryProviderAlloc");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.ptr, "C16:output", "umfMemoryProviderAlloc gave %p instead of %p", out, sc.ptr);
        break;
    }
    case 1: {
        void *q = (void *)g.word();
        size_t n = g.word();
        if (bad) {
            none("umfMemoryProviderFree", umfMemoryProviderFree(nullptr, q, n), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderFree(p.h, q, n);
        expect("umfMemoryProviderFree", FREE, p.table, p.priv, U(q), n);
        RES("umfMemoryProviderFree");
        break;
    }
    case 2: {
        const char *m = "canary";
        int32_t e = 77;
        sc.touch = true;
        umfMemoryProviderGetLastNativeError(p.h, &m, &e);
        if (!calls.empty())
            calls[0].a[0] = calls[0].a[1] = 0;
        expect("umfMemoryProviderGetLastNativeError", ERR, p.table, p.priv);
        CHECK(m == sc.msg && e == sc.err, "C16:output", "umfMemoryProviderGetLastNativeError gave another message or code");
        break;
    }
    case 3: {
        size_t out = 4711, n = g.word();
        if (bad) {
            none("umfMemoryProviderGetRecommendedPageSize",
                 r.chance(1, 2) ? umfMemoryProviderGetRecommendedPageSize(nullptr, n, &out) : umfMemoryProviderGetRecommendedPageSize(p.h, n, nullptr), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderGetRecommendedPageSize(p.h, n, &out);
        if (!calls.empty())
            calls[0].a[1] = 0;
        expect("umfMemoryProviderGetRecommendedPageSize", REC, p.table, p.priv, n);
        RES("umfMemoryProviderGetRecommendedPageSize");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.sz, "C16:output", "umfMemoryProviderGetRecommendedPageSize gave %zu instead of %zu", out, sc.sz);
        break;
    }
    case 4: {
        size_t out = 4711;
        void *q = r.chance(1, 2) ? nullptr : (void *)g.word();
        if (bad) {
            none("umfMemoryProviderGetMinPageSize",
                 r.chance(1, 2) ? umfMemoryProviderGetMinPageSize(nullptr, q, &out) : umfMemoryProviderGetMinPageSize(p.h, q, nullptr), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderGetMinPageSize(p.h, q, &out);
        if (!calls.empty())
            calls[0].a[1] = 0;
        expect("umfMemoryProviderGetMinPageSize", MIN, p.table, p.priv, U(q));
        RES("umfMemoryProviderGetMinPageSize");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.sz, "C16:output", "umfMemoryProviderGetMinPageSize gave %zu instead of %zu", out, sc.sz);
        break;
    }
    case 5: {
        if (bad) {
            const char *m = umfMemoryProviderGetName(nullptr);
            CHECK(!m && calls.empty(), "C16:refusal", "umfMemoryProviderGetName(NULL) = %p", (void *)m);
            calls.clear();
            break;
        }
        const char *m = umfMemoryProviderGetName(p.h);
        expect("umfMemoryProviderGetName", NAME, p.table, p.priv);
        CHECK(m == sc.msg, "C16:output", "umfMemoryProviderGetName gave another string");
        break;
    }
    case 6:
    case 7: {
        bool lazy = r.chance(1, 2);
        auto fn = lazy ? umfMemoryProviderPurgeLazy : umfMemoryProviderPurgeForce;
        const char *nm = lazy ? "umfMemoryProviderPurgeLazy" : "umfMemoryProviderPurgeForce";
        void *q = (void *)g.nz();
        size_t n = g.word();
        if (bad) {
            none(nm, r.chance(1, 2) ? fn(nullptr, q, n) : fn(p.h, nullptr, n), INV);
            break;
        }
        umf_result_t rc = fn(p.h, q, n);
        if (!(lazy ? p.lazy : p.force))
            none(nm, rc, NOSUP);
        else {
            expect(nm, lazy ? PLAZY : PFORCE, p.table, p.priv, U(q), n);
            RES("a purge");
        }
        break;
    }
    case 8: {
        void *q = (void *)g.nz();
        size_t t = g.nz(), f;
        if (t == 1)
            t = 2;
        f = 1 + r.below(t - 1);
        if (r.chance(1, 4))
            f = r.chance(1, 2) ? 1 : t - 1;
        if (bad) {
            umf_result_t rc;
            switch (r.below(6)) {
            case 0: rc = umfMemoryProviderAllocationSplit(nullptr, q, t, f); break;
            case 1: rc = umfMemoryProviderAllocationSplit(p.h, nullptr, t, f); break;
            case 2: rc = umfMemoryProviderAllocationSplit(p.h, q, 0, f); break;
            case 3: rc = umfMemoryProviderAllocationSplit(p.h, q, t, 0); break;
            case 4: rc = umfMemoryProviderAllocationSplit(p.h, q, t, t); break;
            default: rc = umfMemoryProviderAllocationSplit(p.h, q, f, f + 1 + r.below(~0ull - f)); break;
            }
            none("umfMemoryProviderAllocationSplit", rc, INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderAllocationSplit(p.h, q, t, f);
        if (!p.ext)
            none("umfMemoryProviderAllocationSplit", rc, NOSUP);
        else {
            expect("umfMemoryProviderAllocationSplit", SPLIT, p.table, p.priv, U(q), t, f);
            RES("umfMemoryProviderAllocationSplit");
        }
        break;
    }
    case 9: {
        uint64_t lo = g.nz(), d = g.nz();
        if (lo + d < lo || lo + d == 0)
            lo >>= 2, d >>= 2, lo++, d++;
        uint64_t hi = lo + d, t = d + 1 + r.below(r.chance(1, 3) ? 1 : ~0ull - d - 1);
        if (bad) {
            umf_result_t rc;
            switch (r.below(7)) {
            case 0: rc = umfMemoryProviderAllocationMerge(nullptr, (void *)lo, (void *)hi, t); break;
            case 1: rc = umfMemoryProviderAllocationMerge(p.h, nullptr, (void *)hi, t); break;
            case 2: rc = umfMemoryProviderAllocationMerge(p.h, (void *)lo, nullptr, t); break;
            case 3: rc = umfMemoryProviderAllocationMerge(p.h, (void *)lo, (void *)hi, 0); break;
            case 4: rc = umfMemoryProviderAllocationMerge(p.h, (void *)hi, (void *)lo, t); break;
            case 5: rc = umfMemoryProviderAllocationMerge(p.h, (void *)lo, (void *)lo, t); break;
            default: rc = umfMemoryProviderAllocationMerge(p.h, (void *)lo, (void *)hi, r.chance(1, 2) ? d : 1 + r.below(d)); break;
            }
            none("umfMemoryProviderAllocationMerge", rc, INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderAllocationMerge(p.h, (void *)lo, (void *)hi, t);
        if (!p.ext)
            none("umfMemoryProviderAllocationMerge", rc, NOSUP);
        else {
            expect("umfMemoryProviderAllocationMerge", MERGE, p.table, p.priv, lo, hi, t);
            RES("umfMemoryProviderAllocationMerge");
        }
        break;
    }
    case 10: {
        size_t out = 4711;
        if (bad) {
            none("umfMemoryProviderGetIPCHandleSize",
                 r.chance(1, 2) ? umfMemoryProviderGetIPCHandleSize(nullptr, &out) : umfMemoryProviderGetIPCHandleSize(p.h, nullptr), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderGetIPCHandleSize(p.h, &out);
        if (!p.ipc) {
            none("umfMemoryProviderGetIPCHandleSize", rc, NOSUP);
            break;
        }
        if (!calls.empty())
            calls[0].a[0] = 0;
        expect("umfMemoryProviderGetIPCHandleSize", ISIZE, p.table, p.priv);
        RES("umfMemoryProviderGetIPCHandleSize");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.sz, "C16:output", "umfMemoryProviderGetIPCHandleSize gave %zu instead of %zu", out, sc.sz);
        break;
    }
    case 11: {
        void *q = (void *)g.nz(), *d = (void *)g.nz();
        size_t n = g.word();
        if (bad) {
            umf_result_t rc;
            switch (r.below(3)) {
            case 0: rc = umfMemoryProviderGetIPCHandle(nullptr, q, n, d); break;
            case 1: rc = umfMemoryProviderGetIPCHandle(p.h, nullptr, n, d); break;
            default: rc = umfMemoryProviderGetIPCHandle(p.h, q, n, nullptr); break;
            }
            none("umfMemoryProviderGetIPCHandle", rc, INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderGetIPCHandle(p.h, q, n, d);
        if (!p.ipc)
            none("umfMemoryProviderGetIPCHandle", rc, NOSUP);
        else {
            expect("umfMemoryProviderGetIPCHandle", IGET, p.table, p.priv, U(q), n, U(d));
            RES("umfMemoryProviderGetIPCHandle");
        }
        break;
    }
    case 12: {
        void *d = (void *)g.nz();
        if (bad) {
            none("umfMemoryProviderPutIPCHandle", r.chance(1, 2) ? umfMemoryProviderPutIPCHandle(nullptr, d) : umfMemoryProviderPutIPCHandle(p.h, nullptr), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderPutIPCHandle(p.h, d);
        if (!p.ipc)
            none("umfMemoryProviderPutIPCHandle", rc, NOSUP);
        else {
            expect("umfMemoryProviderPutIPCHandle", IPUT, p.table, p.priv, U(d));
            RES("umfMemoryProviderPutIPCHandle");
        }
        break;
    }
    case 13: {
        void *d = (void *)g.nz(), *out = canary;
        if (bad) {
            umf_result_t rc;
            switch (r.below(3)) {
            case 0: rc = umfMemoryProviderOpenIPCHandle(nullptr, d, &out); break;
            case 1: rc = umfMemoryProviderOpenIPCHandle(p.h, nullptr, &out); break;
            default: rc = umfMemoryProviderOpenIPCHandle(p.h, d, nullptr); break;
            }
            none("umfMemoryProviderOpenIPCHandle", rc, INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderOpenIPCHandle(p.h, d, &out);
        if (!p.ipc) {
            none("umfMemoryProviderOpenIPCHandle", rc, NOSUP);
            break;
        }
        if (!calls.empty())
            calls[0].a[1] = 0;
        expect("umfMemoryProviderOpenIPCHandle", IOPEN, p.table, p.priv, U(d));
        RES("umfMemoryProviderOpenIPCHandle");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.ptr, "C16:output", "umfMemoryProviderOpenIPCHandle gave %p instead of %p", out, sc.ptr);
        break;
    }
    default: {
        void *q = (void *)g.nz();
        size_t n = g.word();
        if (bad) {
            none("umfMemoryProviderCloseIPCHandle",
                 r.chance(1, 2) ? umfMemoryProviderCloseIPCHandle(nullptr, q, n) : umfMemoryProviderCloseIPCHandle(p.h, nullptr, n), INV);
            break;
        }
        umf_result_t rc = umfMemoryProviderCloseIPCHandle(p.h, q, n);
        if (!p.ipc)
            none("umfMemoryProviderCloseIPCHandle", rc, NOSUP);
        else {
            expect("umfMemoryProviderCloseIPCHandle", ICLOSE, p.table, p.priv, U(q), n);
            RES("umfMemoryProviderCloseIPCHandle");
        }
    }
    }
}

// control queries by handle (values differ from 0: a query always carries an argument)
void ctlCall(bool pool, umf_memory_provider_handle_t ph, umf_memory_pool_handle_t qh, int table, const void *first, bool has, Rng &r) {
    static const char *tails[] = {"a", "a.b.c", "params.x", "stats.7.y", "7"};
    const char *tail = tails[r.below(5)];
    char path[100];
    snprintf(path, sizeof path, "umf.%s.by_handle.%s", pool ? "pool" : "provider", tail);
    sc = Script();
    sc.res = r.chance(1, 2) ? UMF_RESULT_SUCCESS : codes[1 + r.below(9)];
    int arg = 0;
    calls.clear();
    int ty = (int)r.below(3);
    void *ctx = pool ? (void *)qh : (void *)ph;
    umf_result_t rc = ty == 0 ? umfCtlGet(path, ctx, &arg) : ty == 1 ? umfCtlSet(path, ctx, &arg) : umfCtlExec(path, ctx, &arg);
    static const umf_ctl_query_type_t kinds[] = {CTL_QUERY_READ, CTL_QUERY_WRITE, CTL_QUERY_RUNNABLE};
    if (!has) {
        CHECK(calls.empty() && rc != UMF_RESULT_SUCCESS, "C16:ctl", "a control query of a %s without ctl callback: rc %d, %zu calls",
              pool ? "pool" : "provider", rc, calls.size());
        calls.clear();
        return;
    }
    if (calls.size() == 1)
        CHECK(calls[0].s == tail, "C16:ctl", "the control query '%s' hands over the name '%s'", path, calls[0].s.c_str());
    expect("a control query", pool ? PCTL : CTL, table, first, U(&arg), (uint64_t)kinds[ty]);
    CHECK((rc == UMF_RESULT_SUCCESS) == (sc.res == UMF_RESULT_SUCCESS), "C16:ctl", "the control query returned %d, the callback %d", rc, sc.res);
    cnt("ctl_queries");
}

void poolCall(QH &q, Rng &r, bool single) {
    Gen g(r);
    sc = Script();
    sc.res = g.code();
    sc.ptr = r.chance(1, 4) ? nullptr : (void *)g.word();
    sc.sz = g.word();
    calls.clear();
    bool bad = r.chance(1, 8);
    umf_memory_pool_handle_t hp = bad ? nullptr : q.h;
    void *p = nullptr;
    uint64_t a = g.word(), b = g.word();
    switch (r.below(single ? 11 : 8)) {
    case 0:
        p = umfPoolMalloc(hp, a);
        if (!bad)
            expect("umfPoolMalloc", PMALLOC, q.table, q.priv, a);
        break;
    case 1:
        p = umfPoolCalloc(hp, a, b);
        if (!bad)
            expect("umfPoolCalloc", PCALLOC, q.table, q.priv, a, b);
        break;
    case 2:
        p = umfPoolRealloc(hp, (void *)a, b);
        if (!bad)
            expect("umfPoolRealloc", PREALLOC, q.table, q.priv, a, b);
        break;
    case 3:
        p = umfPoolAlignedMalloc(hp, a, b);
        if (!bad)
            expect("umfPoolAlignedMalloc", PALIGNED, q.table, q.priv, a, b);
        break;
    case 4: {
        size_t n = umfPoolMallocUsableSize(hp, (void *)a);
        if (bad) {
            CHECK(n == 0, "C16:refusal", "umfPoolMallocUsableSize(NULL) = %zu", n);
            none("umfPoolMallocUsableSize", INV, INV);
        } else {
            expect("umfPoolMallocUsableSize", PUSABLE, q.table, q.priv, a);
            CHECK(n == sc.sz, "C16:result", "umfPoolMallocUsableSize = %zu instead of %zu", n, sc.sz);
        }
        return;
    }
    case 5: {
        umf_result_t rc = umfPoolFree(hp, (void *)a);
        if (bad)
            none("umfPoolFree", rc, INV);
        else {
            expect("umfPoolFree", PFREE, q.table, q.priv, a);
            RES("umfPoolFree");
        }
        return;
    }
    case 6: {
        umf_result_t rc = umfPoolGetLastAllocationError(hp);
        if (bad)
            none("umfPoolGetLastAllocationError", rc, INV);
        else {
            expect("umfPoolGetLastAllocationError", PLAST, q.table, q.priv);
            RES("umfPoolGetLastAllocationError");
        }
        return;
    }
    case 7: {
        umf_memory_provider_handle_t ph = nullptr;
        umf_result_t rc;
        if (bad) {
            rc = umfPoolGetMemoryProvider(q.h, nullptr);
            none("umfPoolGetMemoryProvider", rc, INV);
        } else {
            rc = umfPoolGetMemoryProvider(q.h, &ph);
            none("umfPoolGetMemoryProvider", rc, UMF_RESULT_SUCCESS);
            CHECK(ph == q.up->h, "C16:provider", "umfPoolGetMemoryProvider gives another provider than the pool was created with");
        }
        return;
    }
    case 8: {
        void *old = (void *)0x77, *t = (void *)g.word();
        if (bad) {
            none("umfPoolSetTag", umfPoolSetTag(nullptr, t, &old), INV);
            CHECK(old == (void *)0x77, "C16:output", "a refused umfPoolSetTag changed its output");
            return;
        }
        bool want = r.chance(2, 3);
        none("umfPoolSetTag", umfPoolSetTag(q.h, t, want ? &old : nullptr), UMF_RESULT_SUCCESS);
        if (want)
            CHECK(old == q.tag, "C16:tag", "umfPoolSetTag gives the old tag %p instead of %p", old, q.tag);
        q.tag = t;
        return;
    }
    case 9: {
        void *t = (void *)0x77;
        if (bad) {
            none("umfPoolGetTag", r.chance(1, 2) ? umfPoolGetTag(nullptr, &t) : umfPoolGetTag(q.h, nullptr), INV);
            return;
        }
        none("umfPoolGetTag", umfPoolGetTag(q.h, &t), UMF_RESULT_SUCCESS);
        CHECK(t == q.tag, "C16:tag", "umfPoolGetTag gives %p instead of %p", t, q.tag);
        return;
    }
    default: { // memory no pool owns
        int x;
        umf_result_t rc = umfFree(r.chance(1, 2) ? (void *)nullptr : &x);
        none("umfFree of foreign memory", rc, UMF_RESULT_SUCCESS);
        CHECK(umfPoolByPtr(&x) == nullptr && umfPoolByPtr(nullptr) == nullptr, "C16:foreign", "foreign memory has a pool");
        return;
    }
    }
    // the allocating calls
    if (bad) {
        CHECK(p == nullptr, "C16:refusal", "an allocation from pool NULL gives %p", p);
        none("an allocation from pool NULL", INV, INV);
    } else
        CHECK(p == sc.ptr, "C16:result", "the pool's allocation call returned %p instead of %p", p, sc.ptr);
}

// the provider handle the pool was given: requests reach the pool's provider
void innerCall(QH &q, Rng &r) {
    Gen g(r);
    PH &p = *q.up;
    sc = Script();
    sc.res = g.code();
    sc.sz = g.word();
    sc.msg = "inner";
    sc.err = (int32_t)r.next();
    calls.clear();
    switch (r.below(5)) {
    case 0: {
        size_t out = 0, n = g.word();
        umf_result_t rc = umfMemoryProviderGetRecommendedPageSize(q.inner, n, &out);
        if (!calls.empty())
            calls[0].a[1] = 0;
        expect("the page size of a pool's provider", REC, p.table, p.priv, n);
        RES("the page size of a pool's provider");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.sz, "C16:output", "a pool's provider gives the page size %zu instead of %zu", out, sc.sz);
        break;
    }
    case 1: {
        size_t out = 0;
        void *a = (void *)g.word();
        umf_result_t rc = umfMemoryProviderGetMinPageSize(q.inner, a, &out);
        if (!calls.empty())
            calls[0].a[1] = 0;
        expect("the minimum page size of a pool's provider", MIN, p.table, p.priv, U(a));
        RES("the minimum page size of a pool's provider");
        if (rc == UMF_RESULT_SUCCESS)
            CHECK(out == sc.sz, "C16:output", "a pool's provider gives the page size %zu instead of %zu", out, sc.sz);
        break;
    }
    case 2: {
        bool lazy = r.chance(1, 2);
        void *a = (void *)g.nz();
        size_t n = g.word();
        umf_result_t rc = lazy ? umfMemoryProviderPurgeLazy(q.inner, a, n) : umfMemoryProviderPurgeForce(q.inner, a, n);
        if (!(lazy ? p.lazy : p.force))
            none("a purge by a pool", rc, NOSUP);
        else {
            expect("a purge by a pool", lazy ? PLAZY : PFORCE, p.table, p.priv, U(a), n);
            RES("a purge by a pool");
        }
        break;
    }
    case 3: {
        const char *m = nullptr;
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(q.inner, &m, &e);
        if (!calls.empty())
            calls[0].a[0] = calls[0].a[1] = 0;
        expect("the native error of a pool's provider", ERR, p.table, p.priv);
        CHECK(m == sc.msg && e == sc.err, "C16:output", "a pool's provider gives another native error");
        break;
    }
    default: {
        size_t out = 0;
        if (!q.track) {
            const char *m = umfMemoryProviderGetName(q.inner);
            expect("the name of a pool's provider", NAME, p.table, p.priv);
            CHECK(m == sc.msg, "C16:output", "a pool's provider gives another name");
            break;
        }
        umf_result_t rc = umfMemoryProviderGetIPCHandleSize(q.inner, &out);
        if (!p.ipc)
            none("the IPC size of a pool's provider", rc, NOSUP);
        else {
            if (!calls.empty())
                calls[0].a[0] = 0;
            expect("the IPC size of a pool's provider", ISIZE, p.table, p.priv);
            RES("the IPC size of a pool's provider");
        }
    }
    }
    cnt("through_pool");
}

void *somepriv(Rng &r) { return r.chance(1, 8) ? nullptr : (void *)(r.chance(1, 3) ? r.below(4) * 16 : r.next()); }

bool mkProv(PH &p, Rng &r, bool maybeFail = true) {
    p.table = (int)r.below(3);
    // the caller's operations structure need not outlive the call
    auto ops = std::make_unique<umf_memory_provider_ops_t>(provTab((unsigned)p.table));
    if (r.chance(1, 3)) {
        p.lazy = r.chance(1, 2);
        p.force = r.chance(1, 2);
        p.ext = r.chance(1, 2);
        p.ipc = r.chance(1, 2);
        p.ctl = r.chance(1, 2);
        if (!p.lazy)
            ops->ext.purge_lazy = nullptr;
        if (!p.force)
            ops->ext.purge_force = nullptr;
        if (!p.ext)
            ops->ext.allocation_split = nullptr, ops->ext.allocation_merge = nullptr;
        if (!p.ipc)
            memset(&ops->ipc, 0, sizeof ops->ipc);
        if (!p.ctl)
            ops->ctl = nullptr;
    }
    if (r.chance(1, 10))
        ops->version = UMF_MAKE_VERSION(0, 10); // only warned about
    void *params = (void *)r.next();
    sc = Script();
    calls.clear();
    umf_memory_provider_handle_t out = nullptr;
    if (maybeFail && r.chance(1, 4)) { // refused or failing creation
        umf_result_t rc;
        if (r.chance(1, 3)) {
            sc.res = codes[1 + r.below(9)];
            sc.touch = r.chance(1, 2);
            newpriv = (void *)r.next();
            rc = umfMemoryProviderCreate(ops.get(), params, &out);
            expect("umfMemoryProviderCreate", INIT, p.table, params);
            RES("umfMemoryProviderCreate");
            cnt("failed_init");
            return false;
        }
        if (r.chance(1, 5)) {
            rc = r.chance(1, 2) ? umfMemoryProviderCreate(nullptr, params, &out) : umfMemoryProviderCreate(ops.get(), params, nullptr);
        } else {
            unsigned k = (unsigned)r.below(15);
            *ops = provTab((unsigned)p.table);
            switch (k) {
            case 0: ops->alloc = nullptr; break;
            case 1: ops->free = nullptr; break;
            case 2: ops->get_recommended_page_size = nullptr; break;
            case 3: ops->get_min_page_size = nullptr; break;
            case 4: ops->initialize = nullptr; break;
            case 5: ops->finalize = nullptr; break;
            case 6: ops->get_last_native_error = nullptr; break;
            case 7: ops->get_name = nullptr; break;
            case 8: ops->ext.allocation_merge = nullptr; break;
            case 9: ops->ext.allocation_split = nullptr; break;
            default: { // some but not all of the IPC callbacks
                unsigned m = 1 + (unsigned)r.below(30);
                if (m & 1)
                    ops->ipc.get_ipc_handle_size = nullptr;
                if (m & 2)
                    ops->ipc.get_ipc_handle = nullptr;
                if (m & 4)
                    ops->ipc.put_ipc_handle = nullptr;
                if (m & 8)
                    ops->ipc.open_ipc_handle = nullptr;
                if (m & 16)
                    ops->ipc.close_ipc_handle = nullptr;
            }
            }
            rc = umfMemoryProviderCreate(ops.get(), params, &out);
            cnt("incomplete_ops");
        }
        none("umfMemoryProviderCreate", rc, INV);
        return false;
    }
    newpriv = somepriv(r);
    umf_result_t rc = umfMemoryProviderCreate(ops.get(), params, &out);
    expect("umfMemoryProviderCreate", INIT, p.table, params);
    CHECK(rc == UMF_RESULT_SUCCESS && out, "C16:create", "umfMemoryProviderCreate = %d", rc);
    p.h = out;
    p.priv = newpriv;
    CHECK(umfMemoryProviderGetPriv(out) == p.priv, "C16:priv", "umfMemoryProviderGetPriv gives another private state");
    memset(ops.get(), 0xee, sizeof *ops);
    return true;
}
bool mkPool(QH &q, PH &up, Rng &r, bool canOwn, bool maybeFail = true) {
    q.table = (int)r.below(3);
    auto ops = std::make_unique<umf_memory_pool_ops_t>(poolTab((unsigned)q.table));
    if (r.chance(1, 3)) {
        q.ctl = false;
        ops->ctl = nullptr;
    }
    if (r.chance(1, 10))
        ops->version = UMF_MAKE_VERSION(0, 10);
    q.own = canOwn && r.chance(1, 2);
    q.track = r.chance(2, 3);
    q.up = &up;
    int flags = (q.own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0) | (q.track ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING);
    void *params = (void *)r.next();
    sc = Script();
    calls.clear();
    umf_memory_pool_handle_t out = nullptr;
    if (maybeFail && r.chance(1, 5)) {
        umf_result_t rc;
        if (r.chance(1, 3)) {
            switch (r.below(3)) {
            case 0: rc = umfPoolCreate(nullptr, up.h, params, flags, &out); break;
            case 1: rc = umfPoolCreate(ops.get(), nullptr, params, flags, &out); break;
            default: rc = umfPoolCreate(ops.get(), up.h, params, flags, nullptr); break;
            }
            none("umfPoolCreate", rc, INV);
        } else {
            sc.res = codes[1 + r.below(9)];
            sc.touch = r.chance(1, 2);
            newpriv = (void *)r.next();
            rc = umfPoolCreate(ops.get(), up.h, params, flags, &out);
            if (!calls.empty())
                calls[0].a[0] = 0;
            // the pool that did not come to be owns nothing: its provider stays
            expect("a failing umfPoolCreate", PINIT, q.table, params);
            RES("umfPoolCreate");
            cnt("failed_init");
        }
        return false;
    }
    newpriv = somepriv(r);
    umf_result_t rc = umfPoolCreate(ops.get(), up.h, params, flags, &out);
    if (!calls.empty()) {
        q.inner = (umf_memory_provider_handle_t)calls[0].a[0];
        calls[0].a[0] = 0;
    }
    expect("umfPoolCreate", PINIT, q.table, params);
    CHECK(rc == UMF_RESULT_SUCCESS && out && q.inner, "C16:create", "umfPoolCreate = %d", rc);
    if (!q.track)
        CHECK(q.inner == up.h, "C16:provider", "a pool without tracking is not given its provider");
    q.h = out;
    q.priv = newpriv;
    q.tag = nullptr;
    memset(ops.get(), 0xee, sizeof *ops);
    return true;
}
void rmProv(PH &p) {
    calls.clear();
    umfMemoryProviderDestroy(p.h);
    expect("umfMemoryProviderDestroy", FINI, p.table, p.priv);
    p.h = nullptr;
}
void rmPool(QH &q) {
    calls.clear();
    sc = Script();
    umfPoolDestroy(q.h);
    if (q.own) {
        if (calls.size() == 2 && calls[0].f == PFINI && calls[1].f == FINI) {
            Call k = calls[1];
            CHECK(k.table == q.up->table && k.priv == q.up->priv, "C16:wrong-object", "destroying a pool finalizes another provider");
            calls.resize(1);
            q.up->h = nullptr;
        } else {
            viol("C16:own-provider", "destroying a pool that owns its provider: %zu callbacks%s%s", calls.size(), calls.empty() ? "" : ", first ",
                 calls.empty() ? "" : fname[calls[0].f]);
            calls.clear();
            return;
        }
        cnt("own_provider");
    }
    expect("umfPoolDestroy", PFINI, q.table, q.priv);
}

void seq_case(Rng &r) {
    Sig s;
    label("sequential");
    umfMemoryProviderDestroy(nullptr); // must be harmless
#ifndef NO_BA
    int64_t blocks = ba::st.live_blocks;
    uint64_t ser = ba::serial();
#endif
    std::vector<std::unique_ptr<PH>> ps;
    std::vector<std::unique_ptr<QH>> qs;
    int steps = (int)r.range(20, 160);
    for (int i = 0; i < steps; i++) {
        progress();
        unsigned k = (unsigned)r.below(100);
        s.add(k);
#ifndef NO_BA
        if (r.chance(1, 25)) { // no metadata: nothing is created and no callback left unbalanced
            PH p;
            auto ops = provTab(1);
            calls.clear();
            sc = Script();
            newpriv = (void *)1;
            umf_memory_provider_handle_t out = nullptr;
            ba::fail_at = 1;
            ba::enabled_failing = true;
            umf_result_t rc = umfMemoryProviderCreate(&ops, nullptr, &out);
            ba::fail_at = 0;
            ba::enabled_failing = false;
            size_t ni = 0, nf = 0;
            for (auto &c : calls)
                c.f == INIT ? ni++ : c.f == FINI ? nf++ : 0;
            CHECK(rc != UMF_RESULT_SUCCESS && ni == nf, "C16:create-oom", "creating a provider without memory: %d, %zu initialized, %zu finalized", rc, ni, nf);
            calls.clear();
        }
        if (!ps.empty() && r.chance(1, 25)) {
            PH &up = *ps[r.below(ps.size())];
            auto ops = poolTab(1);
            calls.clear();
            sc = Script();
            newpriv = (void *)1;
            umf_memory_pool_handle_t out = nullptr;
            ba::fail_at = 1 + (int64_t)r.below(6);
            ba::enabled_failing = true;
            umf_result_t rc = umfPoolCreate(&ops, up.h, nullptr, r.chance(1, 2) ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0, &out);
            ba::fail_at = 0;
            ba::enabled_failing = false;
            if (rc == UMF_RESULT_SUCCESS) {
                umfPoolDestroy(out);
                cnt("oom_not_reached");
            } else
                cnt("oom_pool");
            size_t ni = 0, nf = 0;
            for (auto &c : calls)
                c.f == PINIT ? ni++ : c.f == PFINI ? nf++ : 0;
            CHECK(ni == nf, "C16:create-oom", "creating a pool without memory: %zu initialized, %zu finalized", ni, nf);
            for (auto &c : calls)
                CHECK(c.f == PINIT || c.f == PFINI, "C16:create-oom", "creating a pool without memory called %s", fname[c.f]);
            calls.clear();
        }
#endif
        if (ps.empty() || k < 8) {
            if (ps.size() < 8) {
                auto p = std::make_unique<PH>();
                if (mkProv(*p, r))
                    ps.push_back(std::move(p));
            }
        } else if (k < 16) {
            if (qs.size() < 8) {
                PH *up = ps[r.below(ps.size())].get();
                bool used = false;
                for (auto &q : qs)
                    used |= q->up == up;
                auto q = std::make_unique<QH>();
                bool taken = false;
                for (auto &x : qs)
                    taken |= x->up == up && x->own;
                if (!taken && mkPool(*q, *up, r, !used))
                    qs.push_back(std::move(q));
            }
        } else if (k < 20 && !qs.empty()) {
            size_t j = r.below(qs.size());
            PH *up = qs[j]->up;
            rmPool(*qs[j]);
            qs.erase(qs.begin() + (long)j);
            if (!up->h)
                ps.erase(std::find_if(ps.begin(), ps.end(), [&](auto &x) { return x.get() == up; }));
        } else if (k < 24) {
            size_t j = r.below(ps.size());
            bool used = false;
            for (auto &q : qs)
                used |= q->up == ps[j].get();
            if (!used) {
                rmProv(*ps[j]);
                ps.erase(ps.begin() + (long)j);
            }
        } else if (k < 60)
            provCall(*ps[r.below(ps.size())], r, true);
        else if (k < 66) {
            PH &p = *ps[r.below(ps.size())];
            ctlCall(false, p.h, nullptr, p.table, p.priv, p.ctl, r);
        } else if (k < 72 && !qs.empty()) {
            QH &q = *qs[r.below(qs.size())];
            ctlCall(true, nullptr, q.h, q.table, q.h, q.ctl, r);
        } else if (k < 80 && !qs.empty())
            innerCall(*qs[r.below(qs.size())], r);
        else if (!qs.empty())
            poolCall(*qs[r.below(qs.size())], r, true);
    }
    for (auto &q : qs)
        rmPool(*q);
    for (auto &p : ps)
        if (p->h)
            rmProv(*p);
#ifndef NO_BA
    if (ctx().cur > 40) // lazily grown tables of the library have settled
        CHECK(ba::st.live_blocks <= blocks, "C16:leftover", "%ld metadata blocks are left: %s", ba::st.live_blocks - blocks, ba::leaks(ser).c_str());
#endif
    sig(s.v);
}

// handles shared by threads: calls do not mix, and a pool's tag is exchanged atomically
void mt_case(Rng &r, bool det) {
    label("concurrent");
    std::vector<std::unique_ptr<PH>> ps;
    std::vector<std::unique_ptr<QH>> qs;
    while (ps.size() < 3) {
        auto p = std::make_unique<PH>();
        if (mkProv(*p, r, false))
            ps.push_back(std::move(p));
    }
    for (int i = 0; i < 3; i++) {
        auto q = std::make_unique<QH>();
        if (mkPool(*q, *ps[(size_t)i], r, false, false))
            qs.push_back(std::move(q));
    }
    int nt = (int)r.range(2, det ? 3 : 4), n = det ? (int)r.range(2, 6) : (int)r.range(40, 300);
    std::atomic<int> ready{0};
    uint64_t seeds[8];
    for (auto &x : seeds)
        x = r.next();
    std::vector<std::vector<uint64_t>> olds((size_t)nt);
    QH &tagged = *qs[0];
    CHECK(umfPoolSetTag(tagged.h, (void *)1, nullptr) == UMF_RESULT_SUCCESS, "C16:tag", "umfPoolSetTag failed");
    auto body = [&](int t) {
        Rng q(seeds[t]);
        if (!det) {
            ready++;
            while (ready < nt)
                ;
        }
        for (int i = 0; i < n; i++) {
            unsigned k = (unsigned)q.below(10);
            if (det)
                k = k < 8 ? 9 : 8;
            if (k < 3)
                provCall(*ps[q.below(3)], q, false);
            else if (k < 4)
                innerCall(*qs[q.below(3)], q);
            else if (k < 7)
                poolCall(*qs[q.below(3)], q, false);
            else if (k < 8) { // creation and destruction beside them
                PH p;
                if (mkProv(p, q, false))
                    rmProv(p);
            } else if (k < 9) {
                void *v = nullptr;
                umfPoolGetTag(tagged.h, &v);
                uint64_t w = (uint64_t)v;
                CHECK(w == 1 || ((w >> 32) >= 1 && (w >> 32) <= (uint64_t)nt && (w & 0xffffffff) <= (uint64_t)n), "C16:tag",
                      "a tag nobody has set is read: %lx", w);
            }
            void *old = nullptr;
            uint64_t mine = ((uint64_t)(t + 1) << 32) | (uint64_t)i;
            umf_result_t rc = umfPoolSetTag(tagged.h, (void *)mine, &old);
            CHECK(rc == UMF_RESULT_SUCCESS, "C16:tag", "umfPoolSetTag = %d", rc);
            olds[(size_t)t].push_back((uint64_t)old);
            if ((i & 15) == 0)
                progress();
        }
    };
    if (det) {
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < nt; t++)
            fs.push_back([&body, t] { body(t); });
        auto res = sched::run(fs, r.next(), sched::random_params(r));
        sig(res.hash);
    } else {
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back(body, t);
        for (auto &t : ts)
            t.join();
        Sig s;
        for (auto &o : olds)
            for (auto v : o)
                s.add(v);
        sig(s.v);
    }
    // every tag ever set was handed out exactly once as the old one, but for the last
    std::multiset<uint64_t> out;
    for (auto &o : olds)
        out.insert(o.begin(), o.end());
    void *last = nullptr;
    umfPoolGetTag(tagged.h, &last);
    out.insert((uint64_t)last);
    size_t lost = 0, twice = 0;
    if (out.count(1) != 1)
        lost++;
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < n; i++) {
            size_t c = out.count(((uint64_t)(t + 1) << 32) | (uint64_t)i);
            lost += c == 0;
            twice += c > 1;
        }
    CHECK(!lost && !twice, "C16:tag-exchange", "of %d tags %zu were never given back and %zu twice", nt * n + 1, lost, twice);
    // and in the order in which each thread set them
    cnt("tag_exchanges", (uint64_t)(nt * n));
    calls.clear();
    for (auto &q : qs)
        rmPool(*q);
    for (auto &p : ps)
        rmProv(*p);
}
} // namespace

void harness_begin() {}
void run_case(uint64_t, Rng &r) {
    if (ctx().mode == "mt")
        mt_case(r, false);
    else if (ctx().mode == "sched")
        mt_case(r, true);
    else
        seq_case(r);
}
void harness_end() {}
