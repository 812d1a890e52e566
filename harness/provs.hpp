// Recording memory provider (exact ledger, immediate address reuse, IPC through
// a memfd, fault injection, manual ASan poisoning), a pool-backed provider and a
// pass-through pool that exposes the tracking provider.
#pragma once
#include "h.hpp"
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PROVS_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif

#ifndef MFD_CLOEXEC
#define MFD_CLOEXEC 1U
#endif

namespace pv {

enum Op {
    ALLOC,
    FREE,
    SPLIT,
    MERGE,
    IPCSIZE,
    IPCGET,
    IPCPUT,
    IPCOPEN,
    IPCCLOSE,
    PURGEL,
    PURGEF,
    PAGEREC,
    PAGEMIN,
    NOPS
};
static const char *const opname[] = {"alloc", "free", "split", "merge", "ipcsize", "ipcget", "ipcput",
                                     "ipcopen", "ipcclose", "purge_lazy", "purge_force", "pagerec", "pagemin"};

inline bool (*fault_hook)(int op) = nullptr; // asked at every fallible provider operation

struct Spin { // not wrapped by the scheduler's pthread hooks
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() {
        while (f.test_and_set(std::memory_order_acquire))
            sched_yield();
    }
    void unlock() { f.clear(std::memory_order_release); }
};

inline size_t up(size_t v, size_t a) { return (v + a - 1) / a * a; }

struct IpcHandle { // what the provider writes into its IPC data
    uint64_t magic;
    uint64_t id;
    int fd;
    int prov;
    uint64_t off;
    uint64_t size;
    unsigned char pad[24]; // must travel unchanged
};
static const uint64_t IPC_MAGIC = 0x1badb002cafef00dull;

struct Blk {
    size_t size, align;
    uint64_t id;
    bool ipc = false; // an IPC handle of it is outstanding
};
struct Open {
    size_t size;
    void *map;
    size_t maplen;
    uint64_t hid;
};
struct Ev {
    int op;
    uintptr_t p;
    size_t a, b;
    int res;
};

struct Prov {
    // configuration
    size_t arena = 64u << 20;
    size_t gran = 4096; // every allocation starts at a multiple
    size_t page_min = 4096, page_rec = 4096;
    bool has_ext = true, has_ipc = true;
    bool fill_garbage = true;
    bool lifo = false; // reuse most recently freed range first
    bool log = false;
    bool quiet = false;           // do not judge (set while a fault makes misuse expected)
    const char *name = "recprov"; // names the ledger in reports
    size_t limit = ~size_t(0);    // total live bytes
    // faults
    long fail_in[NOPS]; // -1 never; n: the n-th next call fails (0 = next)
    unsigned fail_pm[NOPS];
    umf_result_t fail_code = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    bool native_err = false; // fail with MEMORY_PROVIDER_SPECIFIC
    h::Rng frng{7};
    std::function<void(Op)> hook; // called before each op, outside the lock
    // state
    Spin mu;
    int fd = -1;
    char *base = nullptr;
    std::map<uintptr_t, size_t> freer; // free ranges
    std::vector<std::pair<uintptr_t, size_t>> recent;
    std::map<uintptr_t, Blk> live;
    std::map<uint64_t, IpcHandle> handles; // outstanding handles
    std::map<uintptr_t, Open> opened;
    uint64_t nextid = 1, nexthid = 1;
    uint64_t calls[NOPS] = {}, fails[NOPS] = {};
    size_t live_bytes = 0, peak = 0;
    uint64_t initialized = 0, finalized = 0;
    const char *err_msg = "recprov native error";
    int32_t err_code = 4242;
    std::vector<Ev> evs;
    int id = 0;

    Prov() {
        static std::atomic<int> n{1};
        id = n++;
        for (int i = 0; i < NOPS; i++) {
            fail_in[i] = -1;
            fail_pm[i] = 0;
        }
    }
    void start() {
        fd = memfd_create("recprov", MFD_CLOEXEC);
        if (fd < 0 || ftruncate(fd, arena)) {
            perror("memfd");
            exit(77);
        }
        // align the arena generously so large alignments are possible
        size_t big = 4u << 20;
        char *r = (char *)mmap(0, arena + big, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (r == MAP_FAILED)
            exit(77);
        char *a = (char *)up((uintptr_t)r, big);
        base = (char *)mmap(a, arena, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
        if (base == MAP_FAILED)
            exit(77);
        if (a > r)
            munmap(r, a - r);
        if (a + arena < r + arena + big)
            munmap(a + arena, r + arena + big - (a + arena));
        freer[(uintptr_t)base] = arena;
        poison(base, arena);
    }
    ~Prov() {
        if (base) {
            unpoison(base, arena);
            munmap(base, arena);
        }
        for (auto &o : opened)
            munmap(o.second.map, o.second.maplen);
        if (fd >= 0)
            close(fd);
    }
    static void poison(void *p, size_t n) {
#ifdef PROVS_ASAN
        __asan_poison_memory_region(p, n);
#endif
    }
    static void unpoison(void *p, size_t n) {
#ifdef PROVS_ASAN
        __asan_unpoison_memory_region(p, n);
#endif
    }
    bool inarena(const void *p) const { return (char *)p >= base && (char *)p < base + arena; }
    void bad(const char *k, const char *fmt, ...) {
        if (quiet)
            return;
        char b[600];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        h::viol(k, "%s: %s", name, b);
    }
    // under lock
    bool shouldFail(Op op) {
        calls[op]++;
        bool f = false;
        if (fail_in[op] >= 0) {
            if (fail_in[op] == 0)
                f = true;
            fail_in[op]--;
        }
        if (!f && fault_hook && fault_hook(op))
            f = true;
        if (!f && fail_pm[op] && frng.below(1000) < fail_pm[op])
            f = true;
        if (f)
            fails[op]++;
        return f;
    }
    umf_result_t code() { return native_err ? UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC : fail_code; }
    void ev(int op, const void *p, size_t a, size_t b, int res) {
        h::progress();
        if (log && evs.size() < 100000)
            evs.push_back({op, (uintptr_t)p, a, b, res});
    }
    void clearFaults() {
        for (int i = 0; i < NOPS; i++) {
            fail_in[i] = -1;
            fail_pm[i] = 0;
        }
    }
    size_t nlive() {
        std::lock_guard<Spin> g(mu);
        return live.size();
    }
    void addFree(uintptr_t p, size_t n) {
        auto it = freer.emplace(p, n).first;
        auto nx = std::next(it);
        if (nx != freer.end() && p + it->second == nx->first) {
            it->second += nx->second;
            freer.erase(nx);
        }
        if (it != freer.begin()) {
            auto pr = std::prev(it);
            if (pr->first + pr->second == it->first) {
                pr->second += it->second;
                freer.erase(it);
            }
        }
    }
    uintptr_t carve(size_t n, size_t al) {
        auto take = [&](std::map<uintptr_t, size_t>::iterator it, uintptr_t p) {
            uintptr_t b = it->first;
            size_t bs = it->second;
            freer.erase(it);
            if (p > b)
                freer[b] = p - b;
            if (p + n < b + bs)
                freer[p + n] = b + bs - (p + n);
            return p;
        };
        if (lifo)
            while (!recent.empty()) {
                auto r = recent.back();
                recent.pop_back();
                if (r.second < n || r.first % al)
                    continue;
                auto it = freer.upper_bound(r.first);
                if (it == freer.begin())
                    continue;
                --it;
                if (it->first + it->second >= r.first + n)
                    return take(it, r.first);
            }
        for (auto it = freer.begin(); it != freer.end(); ++it) {
            uintptr_t p = up(it->first, al);
            if (p >= it->first && p - it->first <= it->second && it->second - (p - it->first) >= n)
                return take(it, p);
        }
        return 0;
    }
    umf_result_t alloc(size_t size, size_t align, void **out) {
        if (hook)
            hook(ALLOC);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(ALLOC)) {
            ev(ALLOC, 0, size, align, code());
            *out = nullptr;
            return code();
        }
        if (align & (align - 1)) {
            bad("prov:bad-alignment", "alloc(size=%zu, alignment=%zu): not a power of two", size, align);
            return UMF_RESULT_ERROR_INVALID_ALIGNMENT;
        }
        if (size == 0 || size > arena || live_bytes + size > limit) {
            ev(ALLOC, 0, size, align, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY);
            *out = nullptr;
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        }
        size_t n = up(size, gran);
        uintptr_t p = carve(n, std::max(align ? align : 1, gran));
        if (!p) {
            *out = nullptr;
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        }
        unpoison((void *)p, size);
        if (fill_garbage) {
            size_t f = std::min<size_t>(size, 1 << 20);
            memset((void *)p, 0xdb, f);
            if (size > f)
                memset((char *)p + size - 4096, 0xdb, 4096);
        }
        live[p] = {size, align, nextid++, false};
        live_bytes += size;
        if (live_bytes > peak)
            peak = live_bytes;
        *out = (void *)p;
        ev(ALLOC, (void *)p, size, align, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t free_(void *ptr, size_t size) {
        if (hook)
            hook(FREE);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(FREE)) {
            ev(FREE, ptr, size, 0, code());
            return code();
        }
        auto it = live.find((uintptr_t)ptr);
        if (it == live.end()) {
            bad("prov:free-not-live", "free(%p, %zu): not the start of a live provider allocation (offset %zd)", ptr, size,
                (char *)ptr - base);
            ev(FREE, ptr, size, 0, 1);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        if (it->second.size != size) {
            bad("prov:free-size", "free(%p, %zu): the allocation has size %zu", ptr, size, it->second.size);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        if (it->second.ipc)
            bad("prov:free-with-handle", "free(%p, %zu) while its IPC handle was not put", ptr, size);
        live_bytes -= size;
        live.erase(it);
        size_t n = up(size, gran);
        poison(ptr, n);
        addFree((uintptr_t)ptr, n);
        if (lifo)
            recent.push_back({(uintptr_t)ptr, n});
        ev(FREE, ptr, size, 0, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t split(void *ptr, size_t total, size_t first) {
        if (hook)
            hook(SPLIT);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(SPLIT))
            return code();
        auto it = live.find((uintptr_t)ptr);
        if (it == live.end() || it->second.size != total || !first || first >= total || first % gran) {
            bad("prov:bad-split", "split(%p, %zu, %zu): no such live allocation", ptr, total, first);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        Blk b = it->second;
        it->second.size = first;
        live[(uintptr_t)ptr + first] = {total - first, b.align, nextid++, false};
        ev(SPLIT, ptr, total, first, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t merge(void *lo, void *hi, size_t total) {
        if (hook)
            hook(MERGE);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(MERGE))
            return code();
        auto a = live.find((uintptr_t)lo), b = live.find((uintptr_t)hi);
        if (a == live.end() || b == live.end() || (uintptr_t)lo + a->second.size != (uintptr_t)hi ||
            a->second.size + b->second.size != total) {
            bad("prov:bad-merge", "merge(%p, %p, %zu): not two adjacent live allocations of that total", lo, hi, total);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        a->second.size = total;
        live.erase(b);
        ev(MERGE, lo, (size_t)hi, total, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t ipcGet(const void *ptr, size_t size, void *data) {
        if (hook)
            hook(IPCGET);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(IPCGET))
            return code();
        auto it = live.find((uintptr_t)ptr);
        if (it == live.end() || it->second.size != size) {
            bad("prov:ipcget-range", "get_ipc_handle(%p, %zu): no such live allocation", ptr, size);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        IpcHandle hh;
        memset(&hh, 0, sizeof hh);
        hh.magic = IPC_MAGIC;
        hh.id = nexthid++;
        hh.fd = fd;
        hh.prov = id;
        hh.off = (char *)ptr - base;
        hh.size = size;
        for (unsigned i = 0; i < sizeof hh.pad; i++)
            hh.pad[i] = h::pat(hh.id, i);
        handles[hh.id] = hh;
        it->second.ipc = true;
        memcpy(data, &hh, sizeof hh);
        ev(IPCGET, ptr, size, hh.id, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t ipcPut(void *data) {
        if (hook)
            hook(IPCPUT);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(IPCPUT))
            return code();
        IpcHandle hh;
        memcpy(&hh, data, sizeof hh);
        auto it = handles.find(hh.id);
        if (hh.magic != IPC_MAGIC || it == handles.end() || memcmp(&hh, &it->second, sizeof hh)) {
            bad("prov:put-unknown", "put_ipc_handle of a handle that is not outstanding (id %lu)", hh.id);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        uintptr_t p = (uintptr_t)base + hh.off;
        handles.erase(it);
        bool more = false;
        for (auto &x : handles)
            if (x.second.off == hh.off)
                more = true;
        if (live.count(p) && !more)
            live[p].ipc = false;
        ev(IPCPUT, (void *)p, hh.size, hh.id, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t ipcOpen(void *data, void **out) {
        if (hook)
            hook(IPCOPEN);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(IPCOPEN))
            return code();
        IpcHandle hh;
        memcpy(&hh, data, sizeof hh);
        bool ok = hh.magic == IPC_MAGIC;
        for (unsigned i = 0; ok && i < sizeof hh.pad; i++)
            ok = hh.pad[i] == h::pat(hh.id, i);
        if (!ok) {
            bad("prov:open-garbage", "open_ipc_handle was given data that get_ipc_handle never wrote");
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        uint64_t lo = hh.off / 4096 * 4096, hi = up(hh.off + hh.size, 4096);
        char *m = (char *)mmap(0, hi - lo, PROT_READ | PROT_WRITE, MAP_SHARED, hh.fd, lo);
        if (m == MAP_FAILED)
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        char *p = m + (hh.off - lo);
        unpoison(m, hi - lo);
        opened[(uintptr_t)p] = {hh.size, m, hi - lo, hh.id};
        *out = p;
        ev(IPCOPEN, p, hh.size, hh.id, 0);
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t ipcClose(void *ptr, size_t size) {
        if (hook)
            hook(IPCCLOSE);
        std::lock_guard<Spin> g(mu);
        if (shouldFail(IPCCLOSE))
            return code();
        auto it = opened.find((uintptr_t)ptr);
        if (it == opened.end()) {
            bad("prov:close-not-open", "close_ipc_handle(%p, %zu): not an open mapping of this provider", ptr, size);
            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
        }
        if (it->second.size != size)
            bad("prov:close-size", "close_ipc_handle(%p, %zu): the mapping has size %zu", ptr, size, it->second.size);
        munmap(it->second.map, it->second.maplen);
        opened.erase(it);
        ev(IPCCLOSE, ptr, size, 0, 0);
        return UMF_RESULT_SUCCESS;
    }
    size_t nopen() {
        std::lock_guard<Spin> g(mu);
        return opened.size();
    }
};

inline const umf_memory_provider_ops_t *ops(bool ext = true, bool ipc = true) {
    static umf_memory_provider_ops_t o[4];
    static bool init = [] {
        umf_memory_provider_ops_t b;
        memset(&b, 0, sizeof b);
        b.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        b.initialize = [](void *params, void **p) {
            ((Prov *)params)->initialized++;
            *p = params;
            return UMF_RESULT_SUCCESS;
        };
        b.finalize = [](void *p) { ((Prov *)p)->finalized++; };
        b.alloc = [](void *p, size_t s, size_t a, void **o) { return ((Prov *)p)->alloc(s, a, o); };
        b.free = [](void *p, void *ptr, size_t s) { return ((Prov *)p)->free_(ptr, s); };
        b.get_last_native_error = [](void *p, const char **m, int32_t *e) {
            if (m)
                *m = ((Prov *)p)->err_msg;
            if (e)
                *e = ((Prov *)p)->err_code;
        };
        b.get_recommended_page_size = [](void *p, size_t, size_t *ps) {
            Prov *v = (Prov *)p;
            std::lock_guard<Spin> g(v->mu);
            if (v->shouldFail(PAGEREC))
                return v->code();
            *ps = v->page_rec;
            return UMF_RESULT_SUCCESS;
        };
        b.get_min_page_size = [](void *p, void *, size_t *ps) {
            Prov *v = (Prov *)p;
            std::lock_guard<Spin> g(v->mu);
            if (v->shouldFail(PAGEMIN))
                return v->code();
            *ps = v->page_min;
            return UMF_RESULT_SUCCESS;
        };
        b.get_name = [](void *p) { return ((Prov *)p)->name; };
        for (int i = 0; i < 4; i++) {
            o[i] = b;
            if (i & 1) {
                o[i].ext.purge_lazy = [](void *p, void *, size_t) {
                    Prov *v = (Prov *)p;
                    std::lock_guard<Spin> g(v->mu);
                    return v->shouldFail(PURGEL) ? v->code() : UMF_RESULT_SUCCESS;
                };
                o[i].ext.purge_force = [](void *p, void *, size_t) {
                    Prov *v = (Prov *)p;
                    std::lock_guard<Spin> g(v->mu);
                    return v->shouldFail(PURGEF) ? v->code() : UMF_RESULT_SUCCESS;
                };
                o[i].ext.allocation_split = [](void *p, void *q, size_t t, size_t f) { return ((Prov *)p)->split(q, t, f); };
                o[i].ext.allocation_merge = [](void *p, void *l, void *hh, size_t t) { return ((Prov *)p)->merge(l, hh, t); };
            }
            if (i & 2) {
                o[i].ipc.get_ipc_handle_size = [](void *p, size_t *s) {
                    Prov *v = (Prov *)p;
                    std::lock_guard<Spin> g(v->mu);
                    if (v->shouldFail(IPCSIZE))
                        return v->code();
                    *s = sizeof(IpcHandle);
                    return UMF_RESULT_SUCCESS;
                };
                o[i].ipc.get_ipc_handle = [](void *p, const void *q, size_t s, void *d) { return ((Prov *)p)->ipcGet(q, s, d); };
                o[i].ipc.put_ipc_handle = [](void *p, void *d) { return ((Prov *)p)->ipcPut(d); };
                o[i].ipc.open_ipc_handle = [](void *p, void *d, void **q) { return ((Prov *)p)->ipcOpen(d, q); };
                o[i].ipc.close_ipc_handle = [](void *p, void *q, size_t s) { return ((Prov *)p)->ipcClose(q, s); };
            }
        }
        return true;
    }();
    (void)init;
    return &o[(ext ? 1 : 0) + (ipc ? 2 : 0)];
}

inline umf_memory_provider_handle_t create(Prov &p) {
    if (!p.base)
        p.start();
    umf_memory_provider_handle_t hp = nullptr;
    umf_result_t r = umfMemoryProviderCreate(ops(p.has_ext, p.has_ipc), &p, &hp);
    if (r != UMF_RESULT_SUCCESS || !hp) {
        h::viol("prov:create", "umfMemoryProviderCreate of a valid provider failed: %d", r);
        return nullptr;
    }
    return hp;
}

// a provider that takes its memory from a pool
struct PoolProv {
    umf_memory_pool_handle_t pool;
    size_t page = 4096;
};
inline const umf_memory_provider_ops_t *poolProvOps() {
    static umf_memory_provider_ops_t b;
    static bool init = [] {
        memset(&b, 0, sizeof b);
        b.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        b.initialize = [](void *params, void **p) {
            *p = params;
            return UMF_RESULT_SUCCESS;
        };
        b.finalize = [](void *) {};
        b.alloc = [](void *p, size_t s, size_t a, void **o) {
            PoolProv *v = (PoolProv *)p;
            *o = a > 1 ? umfPoolAlignedMalloc(v->pool, s, a) : umfPoolMalloc(v->pool, s);
            return *o ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        };
        b.free = [](void *p, void *ptr, size_t) { return umfPoolFree(((PoolProv *)p)->pool, ptr); };
        b.get_last_native_error = [](void *, const char **m, int32_t *e) {
            if (m)
                *m = "";
            if (e)
                *e = 0;
        };
        b.get_recommended_page_size = [](void *p, size_t, size_t *ps) {
            *ps = ((PoolProv *)p)->page;
            return UMF_RESULT_SUCCESS;
        };
        b.get_min_page_size = [](void *p, void *, size_t *ps) {
            *ps = ((PoolProv *)p)->page;
            return UMF_RESULT_SUCCESS;
        };
        b.get_name = [](void *) { return "poolprov"; };
        return true;
    }();
    (void)init;
    return &b;
}

// pass-through pool: every malloc is one provider allocation; `prov` is what the
// API layer hands to a pool (the tracking provider)
struct PassPool {
    umf_memory_provider_handle_t prov = nullptr;
    Spin mu;
    std::map<void *, size_t> sizes;
    size_t align = 0;
    int finalized = 0;
    umf_result_t init_result = UMF_RESULT_SUCCESS;
    std::atomic<umf_result_t> last{UMF_RESULT_SUCCESS};
    void *al(size_t s, size_t a) {
        void *p = nullptr;
        umf_result_t r = umfMemoryProviderAlloc(prov, s, a, &p);
        last = r;
        if (r != UMF_RESULT_SUCCESS)
            return nullptr;
        std::lock_guard<Spin> g(mu);
        sizes[p] = s;
        return p;
    }
};
inline const umf_memory_pool_ops_t *passOps() {
    static umf_memory_pool_ops_t b;
    static bool init = [] {
        memset(&b, 0, sizeof b);
        b.version = UMF_POOL_OPS_VERSION_CURRENT;
        b.initialize = [](umf_memory_provider_handle_t pr, void *params, void **p) {
            PassPool *v = (PassPool *)params;
            v->prov = pr;
            *p = v;
            return v->init_result;
        };
        b.finalize = [](void *p) { ((PassPool *)p)->finalized++; };
        b.malloc = [](void *p, size_t s) { return ((PassPool *)p)->al(s, 0); };
        b.calloc = [](void *p, size_t n, size_t s) {
            void *q = ((PassPool *)p)->al(n * s, 0);
            if (q)
                memset(q, 0, n * s);
            return q;
        };
        b.realloc = [](void *, void *, size_t) -> void * { return nullptr; };
        b.aligned_malloc = [](void *p, size_t s, size_t a) { return ((PassPool *)p)->al(s, a); };
        b.malloc_usable_size = [](void *p, void *q) -> size_t {
            PassPool *v = (PassPool *)p;
            std::lock_guard<Spin> g(v->mu);
            return v->sizes.count(q) ? v->sizes[q] : 0;
        };
        b.free = [](void *p, void *q) {
            PassPool *v = (PassPool *)p;
            size_t s = 0;
            {
                std::lock_guard<Spin> g(v->mu);
                auto it = v->sizes.find(q);
                if (it == v->sizes.end())
                    return UMF_RESULT_ERROR_INVALID_ARGUMENT;
                s = it->second;
                v->sizes.erase(it);
            }
            return umfMemoryProviderFree(v->prov, q, s);
        };
        b.get_last_allocation_error = [](void *p) { return (umf_result_t)((PassPool *)p)->last; };
        return true;
    }();
    (void)init;
    return &b;
}

} // namespace pv
