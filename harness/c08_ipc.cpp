// IPC handles: bytes shown, provider-side handles, consumer mappings and the
// cache of opened mappings.
// modes: st  - single-threaded histories against an exact model
//        fault - the same with failing provider callbacks and metadata
//        mt / sched - concurrent users of shared handles
//        xproc - the consumer is another process
#include "h.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include "sched.hpp"
#include <cerrno>
#include <sys/stat.h>
#include <sys/wait.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_os_memory.h>
using namespace h;

#define NOASAN __attribute__((no_sanitize("address"), noinline))
namespace {
const size_t PG = 4096;
size_t rup(size_t v) { return (v + PG - 1) / PG * PG; }
size_t LIMIT = 0; // UMF_MAX_OPENED_IPC_HANDLES of this process
bool faults = false;

// plain byte access that ignores poisoning (pools poison freed neighbours)
NOASAN size_t rawdiff(const volatile unsigned char *a, const volatile unsigned char *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return i;
    return n;
}

// ------------------------------------------------------------ memory shared through one file
int gfd = -1;
const size_t GSZ = 256u << 20;
struct Arena { // addresses, reused last-in first-out
    uintptr_t base = 0, cur = 0, end = 0;
    std::map<size_t, std::vector<uintptr_t>> fr;
    void init(size_t n) {
        base = cur = (uintptr_t)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        end = base + n;
    }
    uintptr_t get(size_t n) {
        auto &v = fr[n];
        if (!v.empty()) {
            uintptr_t a = v.back();
            v.pop_back();
            return a;
        }
        if (cur + n + PG > end)
            return 0;
        uintptr_t a = cur;
        cur += n + PG;
        return a;
    }
    void put(uintptr_t a, size_t n) {
        mmap((void *)a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        fr[n].push_back(a);
    }
};
Arena data_arena, view_arena;
size_t goff = 0, goff_end = GSZ;
std::map<size_t, size_t> gused; // live file ranges
std::mutex gmu;

size_t goff_get(size_t n) {
    for (int tries = 0; tries < 100000; tries++) {
        if (goff + n > goff_end)
            goff = 0;
        size_t o = goff;
        auto it = gused.lower_bound(o);
        if (it != gused.begin()) {
            auto p = std::prev(it);
            if (p->first + p->second > o) {
                goff = p->first + p->second;
                continue;
            }
        }
        if (it != gused.end() && it->first < o + n) {
            goff = it->first + it->second;
            continue;
        }
        gused[o] = n;
        goff = o + n;
        return o;
    }
    return ~size_t(0);
}

enum Backing { MEM, OSFD, FIL };
struct RawHandle {
    uint64_t magic, off, size, uid;
};

struct Blk {
    size_t size, off;
    uint64_t uid;
    int gets = 0, puts = 0, total_gets = 0;
    bool reget = false; // a get failed after the provider made the handle
};
struct Spy; // a provider that records everything and forwards to a real one
std::mutex ledmu;
std::map<uintptr_t, std::pair<Spy *, uint64_t>> allviews; // open views -> who opened them, of which handle

struct Spy {
    int id = 0;
    Backing bk = MEM;
    umf_memory_provider_handle_t up = nullptr;
    umf_memory_provider_handle_t h = nullptr;
    size_t hsize = sizeof(RawHandle), upsize = 0;
    bool trailing = false;
    std::map<uintptr_t, Blk> live;
    std::map<uintptr_t, std::pair<size_t, uint64_t>> views; // view -> size, uid
    std::atomic<int> fail_get{-1}, fail_open{-1}, fail_put{-1};
    std::atomic<uint64_t> n_get{0}, n_put{0}, n_open{0}, n_close{0}, n_alloc{0}, n_free{0}, failed{0};
    bool finalized = false;
    std::vector<std::pair<uintptr_t, uint64_t>> closed_log; // views closed since last cleared
};
std::atomic<uint64_t> uidgen{1};
std::mutex uidmu;
std::map<uint64_t, std::pair<Spy *, uintptr_t>> uids; // live handle blocks
bool dead_opens_fail = true;

bool hit(std::atomic<int> &c) {
    if (c.load() < 0)
        return false;
    return c-- == 0;
}

umf_result_t s_init(void *p, void **out) {
    *out = p;
    return UMF_RESULT_SUCCESS;
}
void s_fini(void *p) {
    Spy *s = (Spy *)p;
    if (s->finalized)
        viol("C09:double-finalize", "provider finalized twice");
    s->finalized = true;
}
umf_result_t s_alloc(void *p, size_t n, size_t al, void **out) {
    Spy *s = (Spy *)p;
    Label L("ipc provider alloc");
    void *q = nullptr;
    size_t off = 0;
    if (s->bk == MEM) {
        if (n == 0 || n > (32u << 20))
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        size_t m = rup(n);
        std::lock_guard<std::mutex> g(gmu);
        size_t extra = al > PG ? al : 0;
        uintptr_t a = data_arena.get(m + extra);
        off = goff_get(m + extra);
        if (!a || off == ~size_t(0))
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        mmap((void *)a, m + extra, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, gfd, off);
        size_t d = extra ? (al - a % al) % al : 0;
        q = (void *)(a + d);
        off += d;
        std::lock_guard<std::mutex> g2(ledmu);
        Blk b;
        b.size = n;
        b.off = off;
        b.uid = uidgen++;
        s->live[(uintptr_t)q] = b;
        uids[b.uid] = {s, (uintptr_t)q};
    } else {
        umf_result_t r = umfMemoryProviderAlloc(s->up, n, al, &q);
        if (r != UMF_RESULT_SUCCESS)
            return r;
        std::lock_guard<std::mutex> g2(ledmu);
        Blk b;
        b.size = n;
        b.off = 0;
        b.uid = uidgen++;
        s->live[(uintptr_t)q] = b;
        uids[b.uid] = {s, (uintptr_t)q};
    }
    s->n_alloc++;
    *out = q;
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_free(void *p, void *q, size_t n) {
    Spy *s = (Spy *)p;
    if (!q)
        return UMF_RESULT_SUCCESS;
    size_t off = 0;
    {
        std::lock_guard<std::mutex> g2(ledmu);
        auto it = s->live.find((uintptr_t)q);
        if (it == s->live.end() || it->second.size != n) {
            viol("C02:foreign-free", "provider free(%p, %zu) of something it did not allocate", q, n);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        Blk &b = it->second;
        if (b.gets != b.puts)
            viol("C08:handle-not-put", "a block went back to its provider with %d provider handles never put", b.gets - b.puts);
        if (b.total_gets)
            cnt("handles_put_on_free");
        off = b.off;
        uids.erase(b.uid);
        s->live.erase(it);
    }
    s->n_free++;
    if (s->bk == MEM) {
        std::lock_guard<std::mutex> g(gmu);
        // the range may start inside the reserved one
        auto it = gused.upper_bound(off);
        --it;
        size_t full = it->second, d = off - it->first;
        gused.erase(it);
        data_arena.put((uintptr_t)q - d, full);
        return UMF_RESULT_SUCCESS;
    }
    return umfMemoryProviderFree(s->up, q, n);
}
void s_err(void *, const char **m, int32_t *e) {
    *m = "spy";
    *e = 0;
}
umf_result_t s_pg(void *, size_t, size_t *o) {
    *o = PG;
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_mpg(void *, void *, size_t *o) {
    *o = PG;
    return UMF_RESULT_SUCCESS;
}
const char *s_name(void *) { return "spy"; }
umf_result_t s_hsize(void *p, size_t *n) {
    *n = ((Spy *)p)->hsize;
    return UMF_RESULT_SUCCESS;
}
// the provider handle: [upstream data][uid, checksum][pattern up to hsize]
void seal(Spy *s, void *d, uint64_t uid) {
    unsigned char *c = (unsigned char *)d;
    memcpy(c + s->upsize, &uid, 8);
    for (size_t i = s->upsize + 8; i < s->hsize; i++)
        c[i] = pat(uid, i);
}
bool unseal(Spy *s, const void *d, uint64_t *uid) {
    const unsigned char *c = (const unsigned char *)d;
    memcpy(uid, c + s->upsize, 8);
    for (size_t i = s->upsize + 8; i < s->hsize; i++)
        if (c[i] != pat(*uid, i))
            return false;
    return true;
}
umf_result_t s_get(void *p, const void *q, size_t n, void *d) {
    Spy *s = (Spy *)p;
    if (hit(s->fail_get)) {
        s->failed++;
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    uint64_t uid;
    {
        std::lock_guard<std::mutex> g(ledmu);
        auto it = s->live.find((uintptr_t)q);
        if (it == s->live.end() || it->second.size != n) {
            viol("C08:get-wrong-block", "get_ipc_handle(%p, %zu) does not name a block of the provider", q, n);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        it->second.gets++;
        it->second.total_gets++;
        uid = it->second.uid;
        if (s->bk == MEM) {
            RawHandle r{0x5ea1, it->second.off, n, uid};
            memcpy(d, &r, sizeof r);
        }
    }
    s->n_get++;
    if (s->bk != MEM) {
        umf_result_t r = umfMemoryProviderGetIPCHandle(s->up, q, n, d);
        CHECK(r == UMF_RESULT_SUCCESS, "C08:upstream-get", "get_ipc_handle of a live block = %d", r);
        if (r != UMF_RESULT_SUCCESS) {
            std::lock_guard<std::mutex> g(ledmu);
            s->live[(uintptr_t)q].gets--;
            return r;
        }
    }
    seal(s, d, uid);
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_put(void *p, void *d) {
    Spy *s = (Spy *)p;
    uint64_t uid;
    if (!unseal(s, d, &uid)) {
        viol("C08:put-garbage", "put_ipc_handle with data that get_ipc_handle never returned");
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    if (s->finalized)
        viol("C09:put-after-finalize", "put_ipc_handle on a provider that is gone");
    s->n_put++;
    std::lock_guard<std::mutex> g(ledmu);
    auto it = uids.find(uid);
    if (it == uids.end() || it->second.first != s) {
        viol("C08:put-foreign", "put_ipc_handle of a block that is gone or belongs to another provider");
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    Blk &b = s->live[it->second.second];
    b.puts++;
    if (b.puts > b.gets)
        viol("C08:put-twice", "provider handle put %d times for %d gets", b.puts, b.gets);
    if (s->bk != MEM) {
        umf_result_t r = umfMemoryProviderPutIPCHandle(s->up, d);
        CHECK(r == UMF_RESULT_SUCCESS, "C08:upstream-put", "put_ipc_handle = %d", r);
    }
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_open(void *p, void *d, void **out) {
    Spy *s = (Spy *)p;
    s->n_open++;
    if (hit(s->fail_open)) {
        s->failed++;
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    uint64_t uid;
    if (!unseal(s, d, &uid)) {
        viol("C08:open-garbage", "open_ipc_handle with data that get_ipc_handle never returned");
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    if (s->bk == MEM) {
        RawHandle r;
        memcpy(&r, d, sizeof r);
        size_t m = rup(r.size);
        uintptr_t a;
        {
            std::lock_guard<std::mutex> g(gmu);
            a = view_arena.get(m);
        }
        if (!a)
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        mmap((void *)a, m, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, gfd, r.off);
        std::lock_guard<std::mutex> g(ledmu);
        s->views[a] = {r.size, uid};
        allviews[a] = {s, uid};
        *out = (void *)a;
    } else {
        void *q = nullptr;
        umf_result_t r = umfMemoryProviderOpenIPCHandle(s->up, d, &q);
        if (r != UMF_RESULT_SUCCESS) {
            // The system itself may refuse a mapping for a moment (seen once, on a loaded
            // machine); what the library gets wrong it gets wrong again.
            int e = errno;
            const char *m = nullptr;
            int32_t ne = 0;
            umfMemoryProviderGetLastNativeError(s->up, &m, &ne);
            usleep(2000);
            umf_result_t r2 = umfMemoryProviderOpenIPCHandle(s->up, d, &q);
            if (r2 != UMF_RESULT_SUCCESS) {
                viol("C08:upstream-open", "open_ipc_handle of a live block = %d, again %d (%s, errno %d, native %d)", r, r2,
                     s->bk == FIL ? "file" : "os", e, ne);
                return r2;
            }
            cnt("open_refused_by_system");
        }
        std::lock_guard<std::mutex> g(ledmu);
        s->views[(uintptr_t)q] = {0, uid};
        allviews[(uintptr_t)q] = {s, uid};
        *out = q;
    }
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_close(void *p, void *q, size_t n) {
    Spy *s = (Spy *)p;
    s->n_close++;
    std::pair<size_t, uint64_t> v;
    if (s->finalized)
        viol("C09:close-after-finalize", "close_ipc_handle on a provider that is gone");
    {
        std::lock_guard<std::mutex> g(ledmu);
        auto it = s->views.find((uintptr_t)q);
        if (it == s->views.end()) {
            auto o = allviews.find((uintptr_t)q);
            if (o != allviews.end())
                viol("C09:close-foreign", "a mapping opened by provider %d is closed through provider %d", o->second.first->id, s->id);
            else
                viol("C09:close-twice", "close_ipc_handle(%p, %zu): no such open mapping", q, n);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        v = it->second;
        if (v.first && v.first != n)
            viol("C09:close-size", "a mapping of %zu bytes is closed with size %zu", v.first, n);
        s->views.erase(it);
        allviews.erase((uintptr_t)q);
        s->closed_log.push_back({(uintptr_t)q, v.second});
    }
    if (s->bk == MEM) {
        std::lock_guard<std::mutex> g(gmu);
        view_arena.put((uintptr_t)q, rup(v.first));
        return UMF_RESULT_SUCCESS;
    }
    return umfMemoryProviderCloseIPCHandle(s->up, q, n);
}
umf_memory_provider_ops_t spy_ops = [] {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = s_init;
    o.finalize = s_fini;
    o.alloc = s_alloc;
    o.free = s_free;
    o.get_last_native_error = s_err;
    o.get_recommended_page_size = s_pg;
    o.get_min_page_size = s_mpg;
    o.get_name = s_name;
    o.ipc.get_ipc_handle_size = s_hsize;
    o.ipc.get_ipc_handle = s_get;
    o.ipc.put_ipc_handle = s_put;
    o.ipc.open_ipc_handle = s_open;
    o.ipc.close_ipc_handle = s_close;
    return o;
}();

std::string scratch() {
    const char *s = getenv("VERIF_SCRATCH");
    return s ? s : "/tmp";
}
std::atomic<uint64_t> filen{0};
umf_memory_provider_handle_t mkup(Backing bk, std::string *path) {
    umf_memory_provider_handle_t p = nullptr;
    if (bk == OSFD) {
        umf_os_memory_provider_params_handle_t op = nullptr;
        umfOsMemoryProviderParamsCreate(&op);
        umfOsMemoryProviderParamsSetVisibility(op, UMF_MEM_MAP_SHARED);
        umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &p);
        umfOsMemoryProviderParamsDestroy(op);
    } else if (bk == FIL) {
        uint64_t nth = filen++;
        *path = scratch() + "/ipc_";
        if (nth % 4 == 3) { // a path of some hundred bytes
            *path += "long";
            mkdir(path->c_str(), 0700);
            for (int i = 0; i < 3; i++) {
                *path += "/" + std::string(100 + 70 * i, 'a' + i);
                mkdir(path->c_str(), 0700);
            }
            *path += "/";
            cnt("long_paths");
        }
        *path += std::to_string(getpid()) + "_" + std::to_string(nth);
        umf_file_memory_provider_params_handle_t fp = nullptr;
        umfFileMemoryProviderParamsCreate(&fp, path->c_str());
        umfFileMemoryProviderParamsSetVisibility(fp, UMF_MEM_MAP_SHARED);
        umfMemoryProviderCreate(umfFileMemoryProviderOps(), fp, &p);
        umfFileMemoryProviderParamsDestroy(fp);
    }
    return p;
}

struct PoolT {
    std::unique_ptr<Spy> spy;
    std::string path;
    umf_memory_pool_handle_t pool = nullptr;
    umf_ipc_handler_handle_t handler = nullptr;
    int kind = 0;
    bool own = false; // the pool destroys the provider
    bool dead = false;
};
std::atomic<uint64_t> poolids{0};
std::unique_ptr<PoolT> mkpool(Backing bk, int kind, size_t extra, Rng &r) {
    auto P = std::make_unique<PoolT>();
    P->spy = std::make_unique<Spy>();
    Spy *s = P->spy.get();
    s->id = (int)poolids++;
    s->bk = bk;
    P->kind = kind;
    if (bk != MEM) {
        s->up = mkup(bk, &P->path);
        if (!s->up) {
            viol("C08:create", "cannot create the upstream provider");
            return nullptr;
        }
        umfMemoryProviderGetIPCHandleSize(s->up, &s->upsize);
    } else
        s->upsize = sizeof(RawHandle);
    s->hsize = s->upsize + 8 + extra;
    umf_result_t rc = umfMemoryProviderCreate(&spy_ops, s, &s->h);
    if (rc != UMF_RESULT_SUCCESS)
        return nullptr;
    P->own = r.chance(1, 3);
    umf_pool_create_flags_t fl = P->own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0;
    if (kind == 0)
        rc = umfPoolCreate(umfProxyPoolOps(), s->h, nullptr, fl, &P->pool);
    else if (kind == 1) {
        umf_disjoint_pool_params_handle_t dp = nullptr;
        umfDisjointPoolParamsCreate(&dp);
        umfDisjointPoolParamsSetSlabMinSize(dp, PG << r.below(5));
        umfDisjointPoolParamsSetMaxPoolableSize(dp, PG * (1 + r.below(8)));
        umfDisjointPoolParamsSetCapacity(dp, r.below(4));
        umfDisjointPoolParamsSetMinBucketSize(dp, 64);
        rc = umfPoolCreate(umfDisjointPoolOps(), s->h, dp, fl, &P->pool);
        umfDisjointPoolParamsDestroy(dp);
    } else {
        rc = umfPoolCreate(umfScalablePoolOps(), s->h, nullptr, fl, &P->pool);
    }
    if (rc != UMF_RESULT_SUCCESS) {
        umfMemoryProviderDestroy(s->h);
        if (s->up)
            umfMemoryProviderDestroy(s->up);
        return nullptr;
    }
    umfPoolGetIPCHandler(P->pool, &P->handler);
    return P;
}
void endpool(PoolT &P) {
    Spy *s = P.spy.get();
    umfPoolDestroy(P.pool);
    P.dead = true;
    CHECK(s->views.empty(), "C09:mapping-leaked", "%zu mappings are still open in the provider after its pool is destroyed", s->views.size());
    CHECK(s->live.empty(), "C02:block-leaked", "%zu blocks are still allocated after the pool is destroyed", s->live.size());
    CHECK(s->n_get == s->n_put, "C08:handle-leaked", "%lu provider handles made, %lu put", s->n_get.load(), s->n_put.load());
    if (P.own) {
        CHECK(s->finalized, "C02:owned-provider", "the pool is destroyed, the provider it owns is not");
        cnt("owned_providers");
    } else {
        CHECK(!s->finalized, "C02:provider-not-owned", "the pool destroyed a provider it does not own");
        umfMemoryProviderDestroy(s->h);
    }
    if (s->up)
        umfMemoryProviderDestroy(s->up);
    if (!P.path.empty())
        unlink(P.path.c_str());
}

struct UAl { // a user allocation
    int pool;
    unsigned char *p;
    size_t n;
    uint64_t tag;
};
struct Hd { // a handle, as a consumer would have received it
    std::vector<unsigned char> blob;
    umf_ipc_handle_t orig = nullptr;
    int pool;           // producer
    uint64_t uid;       // block
    uintptr_t ptr;      // exported address
    uintptr_t base;
    size_t bsize;
};
struct Ent { // model of one cached mapping
    uint64_t uid;
    uintptr_t view = 0;
    int refs = 0;
    uint64_t seq = 0;
    bool stale = false;
};

struct World {
    Rng &r;
    std::vector<std::unique_ptr<PoolT>> pools;
    std::vector<UAl> live;
    std::vector<Hd> hds;
    struct Open {
        int cons;
        uint64_t uid;
        unsigned char *p;
        uintptr_t orig; // exported address
        uintptr_t base;
        size_t bsize;
        int prod;
    };
    std::vector<Open> opens;
    std::map<int, std::map<uintptr_t, Ent>> cache; // consumer -> view -> entry
    uint64_t seq = 0, tag = 1;
    size_t peak = 0;
    bool everfailed = false;
    Sig s;
    explicit World(Rng &rr) : r(rr) {}

    // block of the provider that holds an address
    bool blockOf(int pool, const void *p, uintptr_t *b, size_t *n, uint64_t *uid) {
        Spy *sp = pools[pool]->spy.get();
        auto it = sp->live.upper_bound((uintptr_t)p);
        if (it == sp->live.begin())
            return false;
        --it;
        if ((uintptr_t)p >= it->first + it->second.size)
            return false;
        *b = it->first;
        *n = it->second.size;
        *uid = it->second.uid;
        return true;
    }
    void clearlogs() {
        for (auto &P : pools)
            P->spy->closed_log.clear();
    }
    size_t mapped() {
        size_t n = 0;
        for (auto &c : cache)
            n += c.second.size();
        return n;
    }
    size_t inuse() {
        size_t n = 0;
        for (auto &c : cache)
            for (auto &e : c.second)
                n += e.second.refs > 0;
        return n;
    }
    // what the library closed during the last call; every closed mapping must be unused
    struct Closed {
        int cons;
        Ent e;
    };
    std::vector<Closed> takeClosed(const char *when) {
        std::vector<Closed> out;
        for (size_t c = 0; c < pools.size(); c++) {
            for (auto &x : pools[c]->spy->closed_log) {
                auto &m = cache[(int)c];
                auto it = m.find(x.first);
                if (it == m.end()) {
                    viol("C09:model", "%s: closed a mapping the model does not know", when);
                    continue;
                }
                if (it->second.refs > 0)
                    viol("C09:closed-in-use", "%s: a mapping that is opened %d times was closed", when, it->second.refs);
                out.push_back({(int)c, it->second});
                m.erase(it);
            }
            pools[c]->spy->closed_log.clear();
        }
        return out;
    }
    void checkOpen(Open &o, const char *when) {
        // the producer's block is live: all bytes to its end agree
        if (pools[o.prod]->dead)
            return;
        auto it = pools[o.prod]->spy->live.find(o.base);
        if (it == pools[o.prod]->spy->live.end() || it->second.uid != o.uid)
            return;
        size_t n = o.base + o.bsize - o.orig;
        if (n > (1u << 20))
            n = (1u << 20);
        size_t m = rawdiff((unsigned char *)o.orig, o.p, n);
        CHECK(m == n, "C08:bytes", "%s: the opened memory differs from the exported one at byte %zu of %zu", when, m, n);
        cnt("bytes_compared", n);
    }
    void checkAl(UAl &a, const char *when) {
        size_t m = checkfill(a.p, a.n, a.tag);
        CHECK(m == a.n, "C08:producer-bytes", "%s: byte %zu of a live allocation changed", when, m);
    }
};

void reuse_case(Rng &r);
void st_case(uint64_t idx, Rng &r) {
    World w(r);
    label(faults ? "ipc fault" : "ipc");
    dead_opens_fail = true;
    int np = (int)r.range(2, 4);
    Backing bk = r.chance(2, 3) ? MEM : r.chance(1, 2) ? OSFD : FIL;
    int fds0 = openFds();
    size_t extra = r.below(100); // handles have the same layout in all providers of one world
    std::string filepath;
    for (int i = 0; i < np; i++) {
        auto P = mkpool(bk, r.chance(1, 2) ? 0 : r.chance(3, 4) ? 1 : 2, extra, r);
        if (!P) {
            viol("C08:create", "cannot create a pool");
            return;
        }
        w.pools.push_back(std::move(P));
        w.s.add(w.pools.back()->kind);
    }
    w.s.add(bk).add(extra);
    int nops = (int)r.range(30, 160);
    for (int op = 0; op < nops; op++) {
        unsigned k = (unsigned)r.below(100);
        w.s.add(k);
        progress();
        if (k < 18 && w.live.size() < 30) { // allocate
            int p = (int)r.below(w.pools.size());
            if (w.pools[p]->dead)
                continue;
            size_t n = r.chance(1, 2) ? r.range(1, 300) : r.range(1, 5 * PG);
            unsigned char *q = (unsigned char *)umfPoolMalloc(w.pools[p]->pool, n);
            if (!q)
                continue;
            UAl a{p, q, n, w.tag++};
            fill(q, n, a.tag);
            w.live.push_back(a);
            cnt("allocs");
        } else if (k < 28 && !w.live.empty()) { // free
            size_t i = r.below(w.live.size());
            UAl a = w.live[i];
            w.checkAl(a, "before free");
            w.live.erase(w.live.begin() + i);
            w.clearlogs();
            umf_result_t rc = umfFree(a.p);
            CHECK(rc == UMF_RESULT_SUCCESS, "C03:free", "umfFree = %d", rc);
            // handles of blocks that went back to the provider are void
            for (size_t j = 0; j < w.hds.size();) {
                Hd &h = w.hds[j];
                auto it = w.pools[h.pool]->spy->live.find(h.base);
                bool alive = it != w.pools[h.pool]->spy->live.end() && it->second.uid == h.uid;
                if (!alive || h.pool == a.pool) { // also: keep the user contract simple, a freed address is not exported
                    bool mine = h.ptr >= (uintptr_t)a.p && h.ptr < (uintptr_t)a.p + a.n;
                    if (!alive || mine) {
                        if (h.orig)
                            umfPutIPCHandle(h.orig);
                        w.hds.erase(w.hds.begin() + j);
                        continue;
                    }
                }
                j++;
            }
            w.takeClosed("free");
            cnt("frees");
        } else if (k < 48 && !w.live.empty()) { // export
            UAl &a = w.live[r.below(w.live.size())];
            uintptr_t ptr = (uintptr_t)a.p + (r.chance(1, 2) ? 0 : r.below(a.n));
            uintptr_t base;
            size_t bs;
            uint64_t uid;
            if (!w.blockOf(a.pool, (void *)ptr, &base, &bs, &uid)) {
                viol("C01:not-in-provider", "a live allocation is not in memory of the pool's provider");
                continue;
            }
            Spy *sp = w.pools[a.pool]->spy.get();
            Blk &b = sp->live[base];
            int tg = b.total_gets;
            bool inj = false;
            if (faults && r.chance(1, 3)) {
                if (r.chance(1, 2)) {
                    sp->fail_get = 0;
                }
#ifndef NO_BA
                else {
                    ba::enabled_failing = true;
                    ba::fail_at = 1 + (int64_t)r.below(4);
                }
#endif
                inj = true;
            }
            uint64_t f0 = sp->failed;
#ifndef NO_BA
            uint64_t b0 = ba::st.injected;
#endif
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0, want = 0;
            umf_result_t rc = umfGetIPCHandle((void *)ptr, &hd, &hs);
            sp->fail_get = -1;
#ifndef NO_BA
            ba::enabled_failing = false;
            ba::fail_at = -1;
            bool binj = ba::st.injected != b0;
#else
            bool binj = false;
#endif
            bool injected = inj && (sp->failed != f0 || binj);
            if (binj)
                b.reget = true;
            if (rc != UMF_RESULT_SUCCESS) {
                CHECK(injected, "C08:get-failed", "umfGetIPCHandle of a live allocation = %d", rc);
                CHECK(b.gets - b.puts <= 1, "C08:handle-twice", "%d provider handles outstanding after a failed get", b.gets - b.puts);
                if (sp->failed != f0 && !binj)
                    CHECK(rc == UMF_RESULT_ERROR_NOT_SUPPORTED, "C16:get-code", "the provider failed with NOT_SUPPORTED, umfGetIPCHandle with %d", rc);
                cnt("get_failed");
                continue;
            }
            umfPoolGetIPCHandleSize(w.pools[a.pool]->pool, &want);
            CHECK(hs == want, "C08:handle-size", "handle of %zu bytes, the pool announced %zu", hs, want);
            CHECK(b.gets - b.puts == 1, "C08:handle-once", "%d provider handles exist for one block", b.gets - b.puts);
            CHECK(b.total_gets == 1 || b.reget, "C08:handle-remade", "the provider was asked %d times for the handle of one block", b.total_gets);
            (void)tg;
            Hd h;
            h.blob.assign((unsigned char *)hd, (unsigned char *)hd + hs);
            h.pool = a.pool;
            h.uid = uid;
            h.ptr = ptr;
            h.base = base;
            h.bsize = bs;
            if (r.chance(1, 2)) {
                rc = umfPutIPCHandle(hd);
                CHECK(rc == UMF_RESULT_SUCCESS, "C08:put", "umfPutIPCHandle = %d", rc);
            } else
                h.orig = hd;
            CHECK(b.gets - b.puts == 1, "C08:handle-put-early", "the provider handle is gone although the block is live");
            w.hds.push_back(std::move(h));
            cnt("exports");
        } else if (k < 76 && !w.hds.empty()) { // open
            Hd &h = w.hds[r.below(w.hds.size())];
            int c = (int)r.below(w.pools.size());
            PoolT &C = *w.pools[c];
            if (C.dead)
                continue;
            // an exact heap copy: reading past the reported size is seen by ASan
            unsigned char *blob = (unsigned char *)malloc(h.blob.size());
            memcpy(blob, h.blob.data(), h.blob.size());
            auto &m = w.cache[c];
            Ent *e = nullptr;
            for (auto &x : m)
                if (x.second.uid == h.uid && !x.second.stale)
                    e = &x.second;
            uintptr_t eview = e ? e->view : 0;
            bool cached = e != nullptr;
            bool inj = false;
            if (faults && r.chance(1, 3)) {
                if (r.chance(1, 2))
                    C.spy->fail_open = 0;
#ifndef NO_BA
                else {
                    ba::enabled_failing = true;
                    ba::fail_at = 1 + (int64_t)r.below(4);
                }
#endif
                inj = true;
            }
            uint64_t f0 = C.spy->failed;
#ifndef NO_BA
            uint64_t b0 = ba::st.injected;
#endif
            uint64_t o0 = C.spy->n_open, oall0 = 0, oall1 = 0;
            for (auto &P : w.pools)
                oall0 += P->spy->n_open;
            size_t before = w.mapped();
            // candidates for eviction: unused mappings, least recently opened first
            uint64_t lru = ~0ull;
            for (auto &cc : w.cache)
                for (auto &x : cc.second)
                    if (!x.second.refs && !x.second.stale)
                        lru = std::min(lru, x.second.seq);
            w.clearlogs();
            void *q = nullptr;
            umf_result_t rc = umfOpenIPCHandle(C.handler, (umf_ipc_handle_t)blob, &q);
            C.spy->fail_open = -1;
#ifndef NO_BA
            ba::enabled_failing = false;
            ba::fail_at = -1;
            bool binj = ba::st.injected != b0;
#else
            bool binj = false;
#endif
            bool injected = inj && (C.spy->failed != f0 || binj);
            for (auto &P : w.pools)
                oall1 += P->spy->n_open;
            free(blob);
            uint64_t nopen = C.spy->n_open - o0;
            CHECK(oall1 - oall0 == nopen, "C09:open-foreign", "another provider than the consumer's was asked to open");
            // 1. what was closed
            uint64_t keep_uid = cached ? h.uid : 0;
            if (binj || injected)
                w.everfailed = true;
            // a mapping opened and closed again inside the failed call is not in the model
            if (injected)
                for (auto &P : w.pools)
                {
                    std::set<uintptr_t> seen; // a second closing of one view is of a new mapping too
                    for (size_t i = 0; i < P->spy->closed_log.size();)
                        if (!w.cache[(int)(&P - &w.pools[0])].count(P->spy->closed_log[i].first) ||
                            !seen.insert(P->spy->closed_log[i].first).second)
                            P->spy->closed_log.erase(P->spy->closed_log.begin() + i);
                        else
                            i++;
                }
            auto closed = w.takeClosed("open");
            int evicted = 0;
            for (auto &x : closed) {
                bool samekey = x.cons == c && !x.e.stale; // stale entry of the same base, replaced
                // does another live block at the same base exist? the stale one has a dead uid
                samekey = samekey && uids.find(x.e.uid) == uids.end();
                if (samekey && !LIMIT)
                    continue;
                if (!LIMIT) {
                    viol("C09:evicted-unlimited", "a mapping was closed although the cache is unlimited and its block is live");
                    continue;
                }
                evicted++;
                if (!samekey) {
                    CHECK(before >= LIMIT || w.everfailed, "C09:evicted-early", "a mapping was evicted with %zu of %zu open", before, LIMIT);
                    CHECK(x.e.seq == lru, "C09:not-lru", "evicted a mapping opened more recently than another unused one");
                    cnt("evictions");
                }
            }
            CHECK(evicted <= 1, "C09:evicted-many", "%d mappings evicted by one open", evicted);
            if (cached && !closed.empty())
                for (auto &x : closed)
                    if (x.cons == c && x.e.uid == keep_uid)
                        viol("C09:closed-cached", "opening a cached handle closed its mapping");
            // the entry may have moved
            e = nullptr;
            for (auto &x : m)
                if (x.second.uid == h.uid && !x.second.stale)
                    e = &x.second;
            if (rc != UMF_RESULT_SUCCESS) {
                CHECK(injected, "C08:open-failed", "umfOpenIPCHandle of a live handle = %d", rc);
                CHECK(!cached || binj, "C09:cached-open-failed", "opening a cached handle failed: %d", rc);
                cnt("open_failed");
                w.peak = std::max(w.peak, w.inuse() + 1); // it was in use while it was being opened
                // no mapping of this handle may have appeared
                size_t n = 0;
                for (auto &P : w.pools)
                    n += P->spy->views.size();
                CHECK(n == w.mapped(), "C09:failed-open-mapping", "a failed open left %zu mappings", n - w.mapped());
                continue;
            }
            uintptr_t view = (uintptr_t)q - (h.ptr - h.base);
            if (cached && e) {
                CHECK(nopen == 0, "C09:reopened", "a handle whose mapping is still open was opened again in the provider");
                CHECK(view == eview, "C09:two-mappings", "the same handle gave two mappings");
                e->refs++;
                e->seq = ++w.seq;
                cnt("cache_hits");
            } else {
                CHECK(nopen == 1, "C09:open-count", "%lu provider opens for one new handle", nopen);
                auto it = C.spy->views.find(view);
                if (it == C.spy->views.end()) {
                    viol("C08:wrong-pointer", "umfOpenIPCHandle gave an address outside the mapping it opened");
                    continue;
                }
                CHECK(it->second.second == h.uid, "C08:wrong-mapping", "the opened mapping belongs to another handle");
                // an older mapping of the same base is stale now
                for (auto &x : m)
                    if (uids.find(x.second.uid) == uids.end() && x.second.refs) {
                        // only if it has the same base: unknown here, harmless over-approximation
                    }
                Ent n2;
                n2.uid = h.uid;
                n2.view = view;
                n2.refs = 1;
                n2.seq = ++w.seq;
                m[view] = n2;
                cnt("mappings_opened");
            }
            w.opens.push_back({c, h.uid, (unsigned char *)q, h.ptr, h.base, h.bsize, h.pool});
            w.peak = std::max(w.peak, w.inuse());
            if (LIMIT)
                CHECK(w.mapped() <= std::max(LIMIT, w.peak), "C09:over-limit", "%zu mappings are open, the limit is %zu (in use at once: %zu)",
                      w.mapped(), LIMIT, w.peak);
            w.checkOpen(w.opens.back(), "open");
            // both directions: through the view to the producer, for a live user allocation
            for (auto &a : w.live)
                if ((uintptr_t)a.p <= h.ptr && h.ptr < (uintptr_t)a.p + a.n) {
                    size_t o = h.ptr - (uintptr_t)a.p;
                    a.tag = w.tag++;
                    for (size_t i = 0; i < o; i++)
                        a.p[i] = pat(a.tag, i);
                    for (size_t i = o; i < a.n; i++)
                        ((unsigned char *)q)[i - o] = pat(a.tag, i);
                    w.checkAl(a, "written through the view");
                    break;
                }
        } else if (k < 92 && !w.opens.empty()) { // close
            size_t i = r.below(w.opens.size());
            World::Open o = w.opens[i];
            w.checkOpen(o, "before close");
            w.opens.erase(w.opens.begin() + i);
            w.clearlogs();
            umf_result_t rc = umfCloseIPCHandle(o.p);
            CHECK(rc == UMF_RESULT_SUCCESS, "C09:close-failed", "umfCloseIPCHandle = %d", rc);
            for (auto &x : w.cache[o.cons])
                if (x.second.uid == o.uid)
                    x.second.refs--;
            auto closed = w.takeClosed("close");
            for (auto &x : closed) // only a stale mapping is closed at once
                CHECK(x.e.uid == o.uid && uids.find(x.e.uid) == uids.end() && x.cons == o.cons, "C09:closed-on-close",
                      "closing one mapping closed another one that is still cached");
            cnt("closes");
        } else if (k < 94) { // misuse that must be refused
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            char onstack[64];
            umf_result_t rc = umfGetIPCHandle(onstack, &hd, &hs);
            CHECK(rc != UMF_RESULT_SUCCESS, "C08:exported-foreign", "exported an address no pool holds");
            if (!w.opens.empty()) {
                rc = umfGetIPCHandle(r.pick(w.opens).p, &hd, &hs);
                CHECK(rc != UMF_RESULT_SUCCESS, "C08:exported-view", "exported an opened mapping as if it were allocated here");
            }
            rc = umfCloseIPCHandle(onstack);
            CHECK(rc != UMF_RESULT_SUCCESS, "C09:closed-foreign", "closed an address that was never opened");
            if (!w.live.empty()) {
                const UAl &a = r.pick(w.live);
                rc = umfCloseIPCHandle(a.p);
                CHECK(rc != UMF_RESULT_SUCCESS, "C09:closed-foreign", "closed an allocation as if it were an opened handle");
            }
            { // missing arguments: refused with the code of the error, nothing written, nothing exported
                const void *lp = w.live.empty() ? (const void *)onstack : r.pick(w.live).p;
                umf_ipc_handle_t h2 = (umf_ipc_handle_t)onstack;
                size_t s2 = 12345;
                umf_memory_pool_handle_t P = nullptr;
                for (auto &q : w.pools)
                    if (!q->dead)
                        P = q->pool;
                umf_ipc_handler_handle_t ih = nullptr;
                umf_result_t c[8] = {umfGetIPCHandle(nullptr, &h2, &s2),     umfGetIPCHandle(lp, nullptr, &s2),
                                     umfGetIPCHandle(lp, &h2, nullptr),      umfPoolGetIPCHandleSize(nullptr, &s2),
                                     umfPoolGetIPCHandleSize(P, nullptr),    umfPoolGetIPCHandler(nullptr, &ih),
                                     umfPoolGetIPCHandler(P, nullptr),       UMF_RESULT_ERROR_INVALID_ARGUMENT};
                for (int j = 0; j < 8; j++)
                    CHECK(c[j] == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C08:missing-argument", "missing argument %d: %d", j, c[j]);
                CHECK(h2 == (umf_ipc_handle_t)onstack && s2 == 12345 && !ih, "C08:missing-argument", "a refused call wrote a result");
                if (P) {
                    CHECK(umfPoolGetIPCHandler(P, &ih) == UMF_RESULT_SUCCESS && ih, "C08:handler", "a pool has no IPC handler");
                }
            }
            cnt("misuse_refused");
        } else if (k < 96 && w.pools.size() > 1) { // a consumer goes away, its open mappings with it
            int c = (int)r.below(w.pools.size());
            if (w.pools[c]->dead)
                continue;
            int alive = 0;
            for (auto &P : w.pools)
                alive += !P->dead;
            if (alive < 2)
                continue;
            for (size_t i = 0; i < w.live.size();)
                if (w.live[i].pool == c) {
                    w.checkAl(w.live[i], "before destroy");
                    umfFree(w.live[i].p);
                    w.live.erase(w.live.begin() + i);
                } else
                    i++;
            for (size_t j = 0; j < w.hds.size();)
                if (w.hds[j].pool == c) {
                    if (w.hds[j].orig)
                        umfPutIPCHandle(w.hds[j].orig);
                    w.hds.erase(w.hds.begin() + j);
                } else
                    j++;
            std::vector<unsigned char *> gone;
            for (size_t j = 0; j < w.opens.size();)
                if (w.opens[j].cons == c) {
                    gone.push_back(w.opens[j].p);
                    w.opens.erase(w.opens.begin() + j);
                } else
                    j++;
            w.cache.erase(c);
            endpool(*w.pools[c]);
            w.pools[c]->spy->closed_log.clear();
            w.clearlogs();
            for (auto p : gone)
                CHECK(umfCloseIPCHandle(p) != UMF_RESULT_SUCCESS, "C09:close-after-destroy",
                      "a mapping of a destroyed pool could be closed");
            for (auto &o : w.opens)
                w.checkOpen(o, "destroying another pool");
            cnt("consumers_destroyed");
        } else {
            for (auto &a : w.live)
                w.checkAl(a, "check");
            for (auto &o : w.opens)
                w.checkOpen(o, "check");
            // every mapping the model believes open is open in the provider, and vice versa
            for (size_t c = 0; c < w.pools.size(); c++)
                if (!w.pools[c]->dead)
                    CHECK(w.pools[c]->spy->views.size() == w.cache[(int)c].size(), "C09:views", "%zu mappings open in the provider, %zu expected",
                          w.pools[c]->spy->views.size(), w.cache[(int)c].size());
        }
    }
    bool closeall = r.chance(2, 3);
    for (auto &o : w.opens) {
        w.checkOpen(o, "the end");
        if (closeall) {
            umf_result_t rc = umfCloseIPCHandle(o.p);
            CHECK(rc == UMF_RESULT_SUCCESS, "C09:close-failed", "umfCloseIPCHandle = %d", rc);
        }
    }
    for (auto &h : w.hds)
        if (h.orig)
            umfPutIPCHandle(h.orig);
    for (auto &a : w.live) {
        w.checkAl(a, "the end");
        umfFree(a.p);
    }
    std::vector<int> order;
    for (size_t i = 0; i < w.pools.size(); i++)
        order.push_back((int)i);
    for (size_t i = 0; i < order.size(); i++)
        std::swap(order[i], order[r.below(order.size())]);
    for (int i : order)
        if (!w.pools[i]->dead)
            endpool(*w.pools[i]);
    CHECK(allviews.empty(), "C09:mapping-leaked", "%zu mappings left", allviews.size());
    allviews.clear();
    if (bk != MEM && !faults) {
        int maps = mapsOf("memfd:", "verif-ipc") + mapsOf("/ipc_");
        CHECK(maps == 0, "C09:mapping-leaked", "%d mappings of shared files are left after all pools are destroyed", maps);
        int fds = openFds();
        CHECK(fds == fds0, "C08:descriptor-leaked", "%d descriptors open before, %d after", fds0, fds);
        cnt("leak_checks");
    }
    cnt("worlds");
    sig(w.s.v);
    for (auto &P : w.pools)
        P.reset();
    if (!faults && idx % 25 == 7)
        reuse_case(r);
}

// ------------------------------------------------------------ concurrent
// an address is reused after many other handles were made: what is opened is still the new block
void reuse_case(Rng &r) {
    label("ipc reuse");
    size_t extra = r.below(100);
    auto P = mkpool(MEM, 0, extra, r), C = mkpool(MEM, 0, extra, r);
    if (!P || !C) {
        viol("C08:create", "cannot create a pool");
        return;
    }
    size_t n = PG * r.range(1, 3);
    unsigned between = r.chance(1, 40) ? 65535 : r.chance(3, 4) ? 255 : (unsigned)r.range(1, 600);
    uint64_t tag = r.next();
    void *prev = nullptr;
    bool keep = r.chance(1, 3); // leave the first view open
    unsigned char *kept = nullptr;
    for (int round = 0; round < 2; round++) {
        unsigned char *p = (unsigned char *)umfPoolMalloc(P->pool, n);
        if (!p)
            break;
        if (round && p != prev)
            cnt("not_reused");
        prev = p;
        fill(p, n, ++tag);
        umf_ipc_handle_t hd = nullptr;
        size_t hs = 0;
        void *q = nullptr;
        umf_result_t rc = umfGetIPCHandle(p, &hd, &hs);
        CHECK(rc == UMF_RESULT_SUCCESS, "C08:get-failed", "umfGetIPCHandle of a live allocation = %d", rc);
        if (rc == UMF_RESULT_SUCCESS) {
            rc = umfOpenIPCHandle(C->handler, hd, &q);
            CHECK(rc == UMF_RESULT_SUCCESS, "C08:open-failed", "umfOpenIPCHandle of a live handle = %d", rc);
            if (rc == UMF_RESULT_SUCCESS) {
                size_t m = rawdiff(p, (unsigned char *)q, n);
                CHECK(m == n, "C08:bytes", "reuse: the opened memory differs from the exported one at byte %zu of %zu (%u handles between)", m, n, between);
                if (keep && !round)
                    kept = (unsigned char *)q;
                else
                    umfCloseIPCHandle(q);
            }
            umfPutIPCHandle(hd);
        }
        umfFree(p);
        for (unsigned i = 0; !round && i < between; i++) {
            void *x = umfPoolMalloc(P->pool, n);
            if (x && umfGetIPCHandle(x, &hd, &hs) == UMF_RESULT_SUCCESS)
                umfPutIPCHandle(hd);
            umfFree(x);
            if (i % 1000 == 0)
                progress();
        }
    }
    if (kept)
        CHECK(umfCloseIPCHandle(kept) == UMF_RESULT_SUCCESS, "C09:close-failed", "closing a view of a freed block failed");
    endpool(*C);
    endpool(*P);
    CHECK(allviews.empty(), "C09:mapping-leaked", "%zu mappings left", allviews.size());
    allviews.clear();
    cnt("reuse_worlds");
}

void mt_case(uint64_t, Rng &r) {
    label("ipc concurrent");
    Backing bk = r.chance(3, 4) ? MEM : r.chance(1, 2) ? OSFD : FIL;
    int nprod = (int)r.range(1, 2), ncons = (int)r.range(1, 3);
    std::vector<std::unique_ptr<PoolT>> prod, cons;
    int pk = r.chance(1, 2) ? 0 : 1;
    for (int i = 0; i < nprod; i++)
        prod.push_back(mkpool(bk, pk, 8, r));
    for (int i = 0; i < ncons; i++)
        cons.push_back(mkpool(bk, 0, 8, r));
    struct Sh { // exported allocation
        unsigned char *p;
        size_t n;
        uint64_t tag;
        std::vector<unsigned char> blob;
    };
    std::vector<Sh> sh;
    size_t nsh = r.range(1, 5);
    for (size_t i = 0; i < nsh; i++) {
        Sh x;
        x.n = r.range(64, 2 * PG);
        x.p = (unsigned char *)umfPoolMalloc(prod[r.below(nprod)]->pool, x.n);
        if (!x.p)
            return;
        x.tag = i + 7;
        fill(x.p, x.n, x.tag);
        sh.push_back(x);
    }
    bool racing_get = r.chance(1, 2);
    if (!racing_get)
        for (auto &x : sh) {
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            if (umfGetIPCHandle(x.p, &hd, &hs) != UMF_RESULT_SUCCESS) {
                viol("C08:mt-get", "umfGetIPCHandle failed");
                return;
            }
            x.blob.assign((unsigned char *)hd, (unsigned char *)hd + hs);
            umfPutIPCHandle(hd);
        }
    int nt = (int)r.range(2, 4);
    std::mutex tm;
    std::map<std::pair<int, size_t>, std::pair<void *, int>> users; // (consumer, share) -> address, definite users
    uint64_t seeds[8];
    for (int i = 0; i < nt; i++)
        seeds[i] = r.next();
#ifdef VARIANT_SCHED
    int nops = 5;
#else
    int nops = (int)r.range(20, 120);
#endif
    int transient = r.chance(1, 3); // threads that create and destroy consumers
    bool faulty = r.chance(1, 4);
    auto body = [&](int t) {
        Rng q(seeds[t]);
        struct O {
            int c;
            size_t s;
            unsigned char *p;
        };
        std::vector<O> mine;
        std::unique_ptr<PoolT> own;
        auto release = [&](size_t j) {
            O o = mine[j];
            Sh &x = sh[o.s];
            size_t m = checkfill(o.p, x.n, x.tag);
            CHECK(m == x.n, "C08:mt-bytes", "an opened mapping in use shows other bytes at %zu", m);
            if (o.c >= 0) {
                std::lock_guard<std::mutex> g(tm);
                users[{o.c, o.s}].second--;
            }
            umf_result_t rc = umfCloseIPCHandle(o.p);
            CHECK(rc == UMF_RESULT_SUCCESS, "C09:mt-close", "umfCloseIPCHandle = %d", rc);
            mine[j] = mine.back();
            mine.pop_back();
        };
        for (int i = 0; i < nops; i++) {
            unsigned k = (unsigned)q.below(10);
            if (k < 6 || mine.empty()) {
                size_t s = q.below(sh.size());
                Sh &x = sh[s];
                std::vector<unsigned char> b = x.blob;
                if (b.empty()) {
                    umf_ipc_handle_t hd = nullptr;
                    size_t hs = 0;
                    umf_result_t rc = umfGetIPCHandle(x.p, &hd, &hs);
                    if (rc != UMF_RESULT_SUCCESS) {
                        viol("C08:mt-get", "umfGetIPCHandle = %d", rc);
                        continue;
                    }
                    b.assign((unsigned char *)hd, (unsigned char *)hd + hs);
                    umfPutIPCHandle(hd);
                    cnt("mt_gets");
                }
                int c = (int)q.below(cons.size());
                umf_ipc_handler_handle_t hh = cons[c]->handler;
                if (transient && q.chance(1, 3)) {
                    if (!own)
                        own = mkpool(bk, 0, 8, q);
                    hh = own->handler;
                    c = -1;
                }
                if (faulty && c >= 0 && q.chance(1, 6))
                    cons[c]->spy->fail_open = 0;
                void *p = nullptr;
                umf_result_t rc = umfOpenIPCHandle(hh, (umf_ipc_handle_t)b.data(), &p);
                if (rc != UMF_RESULT_SUCCESS) {
                    CHECK(faulty && c >= 0, "C08:mt-open", "umfOpenIPCHandle = %d", rc);
                    cnt("mt_failed_opens");
                    continue;
                }
                if (c >= 0) {
                    std::lock_guard<std::mutex> g(tm);
                    auto &u = users[{c, s}];
                    if (u.second > 0 && u.first != p && !racing_get)
                        viol("C09:mt-two-mappings", "the same handle is open at two addresses in one consumer");
                    u.first = p;
                    u.second++;
                }
                size_t m = checkfill(p, x.n, x.tag);
                CHECK(m == x.n, "C08:mt-bytes", "the opened mapping shows other bytes at %zu", m);
                mine.push_back({c, s, (unsigned char *)p});
                cnt("mt_opens");
            } else if (k < 9) {
                release(q.below(mine.size()));
            } else {
                if (own) {
                    for (size_t j = 0; j < mine.size();)
                        if (mine[j].c < 0)
                            release(j);
                        else
                            j++;
                    endpool(*own);
                    own.reset();
                    cnt("mt_consumers_destroyed");
                } else { // churn
                    void *p = umfPoolMalloc(prod[0]->pool, q.range(1, 2 * PG));
                    umf_ipc_handle_t hd = nullptr;
                    size_t hs = 0;
                    if (p && umfGetIPCHandle(p, &hd, &hs) == UMF_RESULT_SUCCESS)
                        umfPutIPCHandle(hd);
                    if (p)
                        umfFree(p);
                }
            }
        }
        while (!mine.empty())
            release(mine.size() - 1);
        if (own)
            endpool(*own);
    };
#ifdef VARIANT_SCHED
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nt; i++)
        fs.push_back([&, i] { body(i); });
    auto sr = sched::run(fs, r.next(), sched::random_params(r));
    sig(sr.hash);
#else
    std::vector<std::thread> th;
    for (int i = 0; i < nt; i++)
        th.emplace_back(body, i);
    for (auto &t : th)
        t.join();
    sig(r.next());
#endif
    for (auto &P : prod)
        for (auto &b : P->spy->live)
            CHECK(b.second.gets - b.second.puts <= 1, "C08:mt-handle-once", "%d provider handles outstanding for one block",
                  b.second.gets - b.second.puts);
    for (auto &x : sh)
        umfFree(x.p);
    for (auto &P : cons)
        endpool(*P);
    for (auto &P : prod)
        endpool(*P);
    CHECK(allviews.empty(), "C09:mapping-leaked", "%zu mappings left", allviews.size());
    allviews.clear();
    cnt("mt_worlds");
}

// ------------------------------------------------------------ another process
int toch = -1, fromch = -1;
pid_t child = -1;
struct Req {
    uint32_t kind, size, pad, extra; // kind: 0 open+verify 1 quit; backing in pad
    uint64_t n, tag, newtag;
    char path[256];
};
bool rdall(int fd, void *b, size_t n) {
    char *c = (char *)b;
    while (n) {
        ssize_t k = read(fd, c, n);
        if (k <= 0)
            return false;
        c += k;
        n -= k;
    }
    return true;
}
void serve(int in, int out) { // the consumer process
    std::map<int, std::unique_ptr<PoolT>> cons;
    Rng r(1);
    struct OpenV {
        void *p;
    };
    std::vector<void *> kept;
    for (;;) {
        Req q;
        if (!rdall(in, &q, sizeof q) || q.kind == 1)
            _exit(0);
        std::vector<unsigned char> blob(q.size);
        rdall(in, blob.data(), q.size);
        Backing bk = (Backing)q.pad;
        char rep[300] = {0};
        // a fresh consumer per request with another configuration, or a long-lived one
        auto &P = cons[(int)(bk * 1000 + q.extra)];
        if (!P) {
            P = std::make_unique<PoolT>();
            P->spy = std::make_unique<Spy>();
            Spy *s = P->spy.get();
            s->bk = bk;
            if (bk == FIL) {
                umf_file_memory_provider_params_handle_t fp = nullptr;
                umfFileMemoryProviderParamsCreate(&fp, q.path);
                umfFileMemoryProviderParamsSetVisibility(fp, UMF_MEM_MAP_SHARED);
                umfMemoryProviderCreate(umfFileMemoryProviderOps(), fp, &s->up);
                umfFileMemoryProviderParamsDestroy(fp);
            } else if (bk == OSFD)
                s->up = mkup(OSFD, nullptr);
            if (s->up)
                umfMemoryProviderGetIPCHandleSize(s->up, &s->upsize);
            else
                s->upsize = sizeof(RawHandle);
            s->hsize = s->upsize + 8 + q.extra;
            umfMemoryProviderCreate(&spy_ops, s, &s->h);
            umfPoolCreate(umfProxyPoolOps(), s->h, nullptr, 0, &P->pool);
            umfPoolGetIPCHandler(P->pool, &P->handler);
        }
        void *p = nullptr;
        umf_result_t rc = umfOpenIPCHandle(P->handler, (umf_ipc_handle_t)blob.data(), &p);
        if (rc != UMF_RESULT_SUCCESS)
            snprintf(rep, sizeof rep, "open %d", rc);
        else {
            size_t m = checkfill(p, q.n, q.tag);
            if (m != q.n)
                snprintf(rep, sizeof rep, "bytes differ at %zu of %lu", m, q.n);
            else {
                fill(p, q.n, q.newtag);
                strcpy(rep, "ok");
            }
            if (umfCloseIPCHandle(p) != UMF_RESULT_SUCCESS && !strcmp(rep, "ok"))
                strcpy(rep, "close failed");
        }
        if (ctx().nviol)
            strcpy(rep, "violation in the consumer");
        if (write(out, rep, sizeof rep) != sizeof rep)
            _exit(0);
    }
}
void startchild() {
    int a[2], b[2];
    if (pipe(a) || pipe(b))
        exit(77);
    child = fork();
    if (child == 0) {
        close(a[1]);
        close(b[0]);
        serve(a[0], b[1]);
    }
    close(a[0]);
    close(b[1]);
    toch = a[1];
    fromch = b[0];
}
bool osfd_works = true;
void xproc_case(uint64_t, Rng &r) {
    label("ipc other process");
    Backing bk = r.chance(1, 2) ? MEM : r.chance(1, 2) && osfd_works ? OSFD : FIL;
    size_t extra = r.below(20);
    Rng pr(r.next());
    auto P = mkpool(bk, r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : 2, extra, r);
    if (!P) {
        viol("C08:create", "cannot create a pool");
        return;
    }
    std::vector<UAl> live;
    uint64_t tag = r.next() & 0xffffff;
    int nops = (int)r.range(10, 40);
    for (int i = 0; i < nops; i++) {
        unsigned k = (unsigned)r.below(10);
        if (k < 3 || live.empty()) {
            size_t n = r.range(1, 3 * PG);
            unsigned char *p = (unsigned char *)umfPoolMalloc(P->pool, n);
            if (!p)
                continue;
            fill(p, n, ++tag);
            live.push_back({0, p, n, tag});
        } else if (k < 5) {
            size_t j = r.below(live.size());
            size_t m = checkfill(live[j].p, live[j].n, live[j].tag);
            CHECK(m == live[j].n, "C08:producer-bytes", "byte %zu changed", m);
            umfFree(live[j].p);
            live.erase(live.begin() + j);
        } else {
            UAl &a = live[r.below(live.size())];
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            umf_result_t rc = umfGetIPCHandle(a.p, &hd, &hs);
            CHECK(rc == UMF_RESULT_SUCCESS, "C08:get-failed", "umfGetIPCHandle = %d", rc);
            if (rc != UMF_RESULT_SUCCESS)
                continue;
            Req q;
            memset(&q, 0, sizeof q);
            q.size = (uint32_t)hs;
            q.pad = bk;
            q.extra = (uint32_t)extra;
            q.n = a.n;
            q.tag = a.tag;
            q.newtag = ++tag;
            snprintf(q.path, sizeof q.path, "%s/ipc_consumer_%d", scratch().c_str(), getpid());
            if (write(toch, &q, sizeof q) != sizeof q || write(toch, hd, hs) != (ssize_t)hs)
                exit(77);
            umfPutIPCHandle(hd);
            char rep[300];
            if (!rdall(fromch, rep, sizeof rep)) {
                viol("C08:consumer-died", "the consumer process died");
                startchild();
                break;
            }
            if (bk == OSFD && !strncmp(rep, "open", 4)) {
                // pidfd_getfd is not permitted here
                osfd_works = false;
                cnt("xproc_osfd_unavailable");
                break;
            }
            CHECK(!strcmp(rep, "ok"), "C08:xproc", "another process that opened the handle: %s (%s)", rep,
                  bk == MEM ? "mem" : bk == OSFD ? "os" : "file");
            if (!strcmp(rep, "ok")) {
                a.tag = q.newtag;
                size_t m = checkfill(a.p, a.n, a.tag);
                CHECK(m == a.n, "C08:xproc-back", "bytes written by the other process do not appear at %zu", m);
                cnt("xproc_roundtrips");
                cnt(bk == MEM ? "xproc_mem" : bk == OSFD ? "xproc_os" : "xproc_file");
            }
        }
    }
    for (auto &a : live)
        umfFree(a.p);
    endpool(*P);
    cnt("xproc_worlds");
    sig(r.next());
}
// Several producer processes which are copies of each other, so that their
// handles differ in little but the process they come from.
struct Ann {
    uint64_t n, tag, hs;
};
void produce(int idx, int in, int out, uint64_t seed, int kind, size_t extra) {
    goff = GSZ / 2 + (size_t)idx * (GSZ / 16);
    goff_end = GSZ;
    uidgen = ((uint64_t)idx + 1) << 40;
    Rng r(seed);
    auto P = mkpool(MEM, kind, extra, r);
    const char *bad = nullptr;
    std::vector<UAl> bl;
    int nb = (int)r.range(1, 5);
    for (int i = 0; P && i < nb; i++) {
        size_t n = r.range(1, 3 * PG);
        unsigned char *p = (unsigned char *)umfPoolMalloc(P->pool, n);
        umf_ipc_handle_t hd = nullptr;
        size_t hs = 0;
        if (!p)
            _exit(77);
        uint64_t tag = ((uint64_t)idx << 16) + i + 1;
        fill(p, n, tag);
        if (umfGetIPCHandle(p, &hd, &hs) != UMF_RESULT_SUCCESS)
            _exit(77);
        if (r.chance(1, 3)) { // a block at the same address under a new handle
            umfPutIPCHandle(hd);
            umfFree(p);
            p = (unsigned char *)umfPoolMalloc(P->pool, n);
            fill(p, n, tag);
            if (umfGetIPCHandle(p, &hd, &hs) != UMF_RESULT_SUCCESS)
                _exit(77);
        }
        Ann a{n, tag, hs};
        if (write(out, &a, sizeof a) != sizeof a || write(out, hd, hs) != (ssize_t)hs)
            _exit(77);
        umfPutIPCHandle(hd);
        bl.push_back({0, p, n, tag});
    }
    Ann end{0, 0, 0};
    if (write(out, &end, sizeof end) != sizeof end)
        _exit(77);
    for (auto &b : bl) { // what the consumer left in the blocks
        uint64_t tag;
        if (!rdall(in, &tag, 8))
            _exit(77);
        if (checkfill(b.p, b.n, tag) != b.n)
            bad = "bytes";
        umfFree(b.p);
    }
    if (P)
        endpool(*P);
    _exit(bad ? 3 : ctx().nviol ? 4 : 0);
}
void xprod_case(uint64_t, Rng &r) {
    label("ipc several producers");
    struct Prod {
        pid_t pid;
        int to, from;
    };
    struct B {
        int prod;
        uint64_t n, tag;
        std::vector<unsigned char> blob;
    };
    struct V {
        size_t b;
        unsigned char *p;
    };
    size_t extra = r.below(20);
    int kind = (int)r.below(2), np = 2 + (int)r.below(3);
    uint64_t seed = r.next();
    std::vector<Prod> ps;
    std::vector<B> bs;
    for (int i = 0; i < np; i++) {
        int a[2], b[2];
        if (pipe(a) || pipe(b))
            exit(77);
        pid_t pid = fork();
        if (pid == 0) {
            close(a[1]);
            close(b[0]);
            produce(i, a[0], b[1], seed, kind, extra);
        }
        close(a[0]);
        close(b[1]);
        ps.push_back({pid, a[1], b[0]});
    }
    bool ok = true;
    for (int i = 0; i < np; i++)
        for (;;) {
            Ann a;
            if (!rdall(ps[i].from, &a, sizeof a)) {
                viol("C08:producer-died", "a producer process died");
                ok = false;
                break;
            }
            if (!a.n)
                break;
            B b{i, a.n, a.tag, std::vector<unsigned char>(a.hs)};
            rdall(ps[i].from, b.blob.data(), a.hs);
            bs.push_back(b);
        }
    auto C = mkpool(MEM, 0, extra, r);
    std::vector<V> vs;
    uint64_t tag = 1u << 24;
    int nops = (int)r.range(20, 60);
    for (int o = 0; ok && C && o < nops && !bs.empty(); o++) {
        if (vs.empty() || (vs.size() < 10 && r.chance(3, 5))) {
            size_t k = r.below(bs.size());
            void *q = nullptr;
            umf_result_t rc = umfOpenIPCHandle(C->handler, (umf_ipc_handle_t)bs[k].blob.data(), &q);
            CHECK(rc == UMF_RESULT_SUCCESS, "C08:open-failed", "umfOpenIPCHandle = %d", rc);
            if (rc == UMF_RESULT_SUCCESS)
                vs.push_back({k, (unsigned char *)q});
        } else {
            size_t k = r.below(vs.size());
            CHECK(umfCloseIPCHandle(vs[k].p) == UMF_RESULT_SUCCESS, "C08:close-failed", "umfCloseIPCHandle refused");
            vs[k] = vs.back();
            vs.pop_back();
        }
        for (auto &v : vs) {
            size_t m = checkfill(v.p, bs[v.b].n, bs[v.b].tag);
            if (m != bs[v.b].n) {
                viol("C08:producer-mixed", "a handle of producer %d does not show its bytes (at %zu of %lu)", bs[v.b].prod, m, bs[v.b].n);
                ok = false;
                break;
            }
            cnt("producer_views");
        }
        if (ok && !vs.empty() && r.chance(1, 3)) {
            B &b = bs[vs[r.below(vs.size())].b];
            b.tag = ++tag;
            for (auto &v : vs)
                if (&bs[v.b] == &b) {
                    fill(v.p, b.n, b.tag);
                    break;
                }
        }
    }
    for (auto &v : vs)
        umfCloseIPCHandle(v.p);
    if (C)
        endpool(*C);
    for (auto &b : bs)
        if (write(ps[b.prod].to, &b.tag, 8) != 8)
            ok = false;
    for (auto &p : ps) {
        close(p.to);
        close(p.from);
        int st = 0;
        waitpid(p.pid, &st, 0);
        if (ok)
            CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "C08:producer", "a producer process ended with status %x (3: bytes differ)", st);
    }
    cnt("producer_worlds");
    sig(r.next());
}
} // namespace

void harness_begin() {
    const char *l = getenv("UMF_MAX_OPENED_IPC_HANDLES");
    LIMIT = l ? strtoul(l, 0, 10) : 0;
    faults = ctx().mode == "fault";
    setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
    gfd = memfd_create("verif-ipc", 0);
    if (ftruncate(gfd, GSZ))
        exit(77);
    data_arena.init(size_t(4) << 30);
    view_arena.init(size_t(16) << 30);
    umfInit();
    if (ctx().mode == "xproc") {
        goff_end = GSZ / 2; // the rest belongs to producer processes
        startchild();
    }
}
void run_case(uint64_t i, Rng &r) {
    if (ctx().mode == "mt" || ctx().mode == "sched")
        mt_case(i, r);
    else if (ctx().mode == "xproc" && i % 3 == 0)
        xprod_case(i, r);
    else if (ctx().mode == "xproc")
        xproc_case(i, r);
    else {
        NoStdin z(i % 8 == 3);
        st_case(i, r);
    }
}
void harness_end() {
    if (child > 0) {
        Req q;
        memset(&q, 0, sizeof q);
        q.kind = 1;
        if (write(toch, &q, sizeof q) < 0) {
        }
        waitpid(child, nullptr, 0);
        unlink((scratch() + "/ipc_consumer_" + std::to_string(getpid())).c_str());
    }
}
