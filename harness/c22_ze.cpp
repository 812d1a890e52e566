// Level Zero provider against a stand-in driver (C22). modes:
//   prov - seeded configurations and histories on providers (and proxy pools over them), driver failures at any call
//   lib  - the driver library missing, incomplete or present over library cycles
//   mt   - threads share providers; failures are per thread
//   xproc- IPC handles exported by another process
#include "h.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/providers/provider_level_zero.h>
#include <ze_api.h>
using namespace h;
namespace {
// ------------------------------------------------------------------ the driver
struct Dev {
    uint64_t maxAlloc;
    uint64_t page;
};
struct Context {
    int id;
};
enum Fn { F_HOST, F_DEV, F_SHARED, F_FREE, F_FREEEXT, F_GETIPC, F_PUTIPC, F_OPENIPC, F_CLOSEIPC, F_RESIDENT, F_PROPS, F_MEMPROPS, F_N };
const char *FNAME[] = {"zeMemAllocHost",    "zeMemAllocDevice",   "zeMemAllocShared",    "zeMemFree",
                       "zeMemFreeExt",      "zeMemGetIpcHandle",  "zeMemPutIpcHandle",   "zeMemOpenIpcHandle",
                       "zeMemCloseIpcHandle", "zeContextMakeMemoryResident", "zeDeviceGetProperties", "zeMemGetAllocProperties"};
struct Call {
    Fn fn;
    void *ctx = nullptr, *dev = nullptr;
    uintptr_t ptr = 0;
    size_t size = 0, align = 0;
    uint32_t ordinal = 0, policy = 0, flags = 0;
    bool relaxed = false, badrelaxed = false, badstype = false;
    ze_ipc_mem_handle_t ipc{};
    ze_result_t res = ZE_RESULT_SUCCESS;
    bool injected = false;
};
struct Alloc {
    Fn by;
    void *ctx, *dev;
    size_t size;
    uint64_t page;
    std::map<void *, int> resident;
};
struct Ipc {
    uintptr_t ptr;
    void *ctx;
};
struct Driver {
    std::mutex mu;
    std::map<uintptr_t, Alloc> live;
    std::map<uint64_t, Ipc> handles;    // exported, not yet put: id
    std::map<uintptr_t, void *> opened; // mapping -> context
    uint64_t nextid = 1, puts = 0, gets = 0, opens = 0, closes = 0;
    std::vector<Dev *> devs;
    bool putLost = false;
} drv;
thread_local std::vector<Call> tlog;
thread_local int64_t fail_in = -1;      // the k-th call from now fails
thread_local int fail_fn = -1;          // only calls of this function count
thread_local int fail_burst = 0;        // further failing calls
thread_local ze_result_t fail_code;
thread_local int injected;
std::atomic<uint32_t> memfd_seed{1};
bool have_put = true, have_freeext = true;

// address space nobody touches
uintptr_t arena, arena_end, arena_next;
uintptr_t place(size_t size, size_t align) {
    if (align < 65536)
        align = 65536;
    size_t m = (size + 65535) & ~(size_t)65535;
    if (!m)
        m = 65536;
    if (arena_next + m + align > arena_end)
        arena_next = arena;
    for (int pass = 0; pass < 3; pass++) {
        uintptr_t a = (arena_next + align - 1) & ~(uintptr_t)(align - 1);
        auto it = drv.live.lower_bound(a);
        bool clash = it != drv.live.end() && it->first < a + m;
        if (!clash && it != drv.live.begin()) {
            auto p = std::prev(it);
            clash = p->first + std::max<size_t>(p->second.size, 1) > a;
        }
        if (!clash) {
            arena_next = a + m;
            return a;
        }
        arena_next = it == drv.live.end() ? arena : std::prev(drv.live.end())->first + std::prev(drv.live.end())->second.size;
    }
    return 0;
}

// ---- the library that holds it
struct Lib {
    std::atomic<int> opens{0};
    bool present = true;
    std::set<std::string> missing;
    uint64_t tries = 0;
} lib;
void *const LIB = &lib;

bool inject(Call &c) {
    CHECK(lib.opens > 0, "C22:call-after-close", "%s called while the driver library is not held open", FNAME[c.fn]);
    if (fail_in < 0 || (fail_fn >= 0 && fail_fn != c.fn))
        return false;
    if (fail_in > 0) {
        fail_in--;
        return false;
    }
    if (fail_burst > 0)
        fail_burst--;
    else
        fail_in = -1;
    c.res = fail_code;
    c.injected = true;
    injected++;
    return true;
}
ze_result_t done(Call &c) {
    tlog.push_back(c);
    return c.res;
}
ze_result_t genAlloc(Call &c, void *out) {
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        uintptr_t a = place(c.size, c.align);
        if (!a) {
            c.res = ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY;
            return done(c);
        }
        drv.live[a] = {c.fn, c.ctx, c.dev, c.size, c.dev ? ((Dev *)c.dev)->page : 4096, {}};
        c.ptr = a;
        *(void **)out = (void *)a;
    }
    return done(c);
}
void devDesc(Call &c, const ze_device_mem_alloc_desc_t *d) {
    if (!d || d->stype != ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC) {
        c.badstype = true;
        return;
    }
    c.ordinal = d->ordinal;
    c.flags |= d->flags;
    for (auto *n = (const ze_base_desc_t *)d->pNext; n; n = (const ze_base_desc_t *)n->pNext) {
        if (n->stype == ZE_STRUCTURE_TYPE_RELAXED_ALLOCATION_LIMITS_EXP_DESC) {
            c.relaxed = true;
            c.badrelaxed = ((const ze_relaxed_allocation_limits_exp_desc_t *)n)->flags != ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE;
        } else
            c.badstype = true;
    }
}
void hostDesc(Call &c, const ze_host_mem_alloc_desc_t *d) {
    if (!d || d->stype != ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC || d->pNext)
        c.badstype = true;
    else
        c.flags |= d->flags;
}
ze_result_t fHost(ze_context_handle_t x, const ze_host_mem_alloc_desc_t *d, size_t s, size_t al, void *o) {
    Call c{F_HOST};
    c.ctx = x, c.size = s, c.align = al;
    hostDesc(c, d);
    return genAlloc(c, o);
}
ze_result_t fDev(ze_context_handle_t x, const ze_device_mem_alloc_desc_t *d, size_t s, size_t al, ze_device_handle_t dv, void *o) {
    Call c{F_DEV};
    c.ctx = x, c.size = s, c.align = al, c.dev = dv;
    devDesc(c, d);
    return genAlloc(c, o);
}
ze_result_t fShared(ze_context_handle_t x, const ze_device_mem_alloc_desc_t *d, const ze_host_mem_alloc_desc_t *hd, size_t s, size_t al,
                    ze_device_handle_t dv, void *o) {
    Call c{F_SHARED};
    c.ctx = x, c.size = s, c.align = al, c.dev = dv;
    devDesc(c, d);
    hostDesc(c, hd);
    return genAlloc(c, o);
}
ze_result_t genFree(Call &c) {
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.live.find(c.ptr);
        if (it == drv.live.end())
            viol("C22:free-unknown", "%s of %#lx, which the driver has not allocated (or has freed)", FNAME[c.fn], c.ptr);
        else {
            CHECK(it->second.ctx == c.ctx, "C22:free-context", "memory freed in another context");
            drv.live.erase(it);
        }
    }
    return done(c);
}
ze_result_t fFree(ze_context_handle_t x, void *p) {
    Call c{F_FREE};
    c.ctx = x, c.ptr = (uintptr_t)p;
    return genFree(c);
}
ze_result_t fFreeExt(ze_context_handle_t x, const ze_memory_free_ext_desc_t *d, void *p) {
    Call c{F_FREEEXT};
    c.ctx = x, c.ptr = (uintptr_t)p;
    if (!d || d->stype != ZE_STRUCTURE_TYPE_MEMORY_FREE_EXT_DESC || d->pNext)
        c.badstype = true;
    else
        c.policy = d->freePolicy;
    return genFree(c);
}
ze_result_t fResident(ze_context_handle_t x, ze_device_handle_t dv, void *p, size_t s) {
    Call c{F_RESIDENT};
    c.ctx = x, c.dev = dv, c.ptr = (uintptr_t)p, c.size = s;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.live.find(c.ptr);
        if (it == drv.live.end())
            viol("C22:resident-unknown", "memory made resident that the driver has not allocated");
        else {
            CHECK(s == it->second.size, "C22:resident-size", "%zu of %zu bytes made resident", s, it->second.size);
            it->second.resident[dv]++;
        }
    }
    return done(c);
}
ze_result_t fProps(ze_device_handle_t dv, ze_device_properties_t *p) {
    Call c{F_PROPS};
    c.dev = dv;
    if (p->stype != ZE_STRUCTURE_TYPE_DEVICE_PROPERTIES)
        c.badstype = true;
    if (!inject(c)) {
        void *n = p->pNext;
        memset(p, 0, sizeof *p);
        p->stype = ZE_STRUCTURE_TYPE_DEVICE_PROPERTIES;
        p->pNext = n;
        p->maxMemAllocSize = ((Dev *)dv)->maxAlloc;
    }
    return done(c);
}
ze_result_t fMemProps(ze_context_handle_t x, const void *p, ze_memory_allocation_properties_t *pr, ze_device_handle_t *dv) {
    Call c{F_MEMPROPS};
    c.ctx = x, c.ptr = (uintptr_t)p;
    if (pr->stype != ZE_STRUCTURE_TYPE_MEMORY_ALLOCATION_PROPERTIES)
        c.badstype = true;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.live.upper_bound(c.ptr);
        if (it == drv.live.begin() || (--it, it->first + std::max<size_t>(it->second.size, 1) <= c.ptr)) {
            pr->type = ZE_MEMORY_TYPE_UNKNOWN;
            pr->pageSize = 0;
        } else {
            pr->type = it->second.by == F_HOST ? ZE_MEMORY_TYPE_HOST : it->second.by == F_DEV ? ZE_MEMORY_TYPE_DEVICE : ZE_MEMORY_TYPE_SHARED;
            pr->pageSize = it->second.page;
            if (dv)
                *dv = (ze_device_handle_t)it->second.dev;
        }
    }
    return done(c);
}
struct Wire { // what is in a driver's IPC handle
    int fd;
    int pad;
    uint64_t id, salt;
};
uint64_t saltOf(uint64_t id) { return mix(id, 0x5a17); }
int ipcfd = -1; // a descriptor every exported handle names
ze_result_t fGetIpc(ze_context_handle_t x, const void *p, ze_ipc_mem_handle_t *out) {
    Call c{F_GETIPC};
    c.ctx = x, c.ptr = (uintptr_t)p;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        if (!drv.live.count(c.ptr))
            viol("C22:ipc-unknown", "IPC handle asked for memory the driver has not allocated at that address");
        uint64_t id = drv.nextid++;
        drv.handles[id] = {c.ptr, x};
        drv.gets++;
        Wire w{ipcfd, 0, id, saltOf(id)};
        memset(out, 0x3c, sizeof *out);
        memcpy(out, &w, sizeof w);
        c.ipc = *out;
    }
    return done(c);
}
ze_result_t fPutIpc(ze_context_handle_t x, ze_ipc_mem_handle_t hnd) {
    Call c{F_PUTIPC};
    c.ctx = x, c.ipc = hnd;
    if (!inject(c)) {
        Wire w;
        memcpy(&w, &hnd, sizeof w);
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.handles.find(w.id);
        if (w.salt != saltOf(w.id) || it == drv.handles.end())
            viol("C22:put-unknown", "an IPC handle is put that is not (or no longer) exported");
        else {
            CHECK(it->second.ctx == x, "C22:put-context", "an IPC handle is put in another context");
            drv.handles.erase(it);
            drv.puts++;
        }
    }
    return done(c);
}
ino_t wantIno = 0; // when not 0: the descriptor in the handle is a copy of the other process's
int lastFd = -1;
ze_result_t fOpenIpc(ze_context_handle_t x, ze_device_handle_t dv, ze_ipc_mem_handle_t hnd, ze_ipc_memory_flags_t fl, void **out) {
    Call c{F_OPENIPC};
    c.ctx = x, c.dev = dv, c.ipc = hnd, c.flags = fl;
    Wire w;
    memcpy(&w, &hnd, sizeof w);
    CHECK(w.salt == saltOf(w.id), "C22:open-garbled", "the driver is given an IPC handle it never made");
    for (size_t i = sizeof w; i < sizeof hnd; i++)
        if (hnd.data[i] != 0x3c) {
            viol("C22:open-garbled", "byte %zu of the IPC handle changed on the way", i);
            break;
        }
    if (wantIno) {
        struct stat sb;
        CHECK(fstat(w.fd, &sb) == 0 && sb.st_ino == wantIno, "C22:open-fd", "the descriptor in the handle of another process is not a copy of that process's");
        lastFd = w.fd;
    }
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        if (!wantIno)
            CHECK(drv.handles.count(w.id) || drv.putLost || !have_put, "C22:open-put", "an IPC handle is opened that has been put");
        uintptr_t a = place(65536, 65536);
        drv.live[a] = {F_N, x, dv, 65536, 4096, {}}; // reserves the place
        drv.opened[a] = x;
        drv.opens++;
        *out = (void *)a;
        c.ptr = a;
    }
    return done(c);
}
ze_result_t fCloseIpc(ze_context_handle_t x, const void *p) {
    Call c{F_CLOSEIPC};
    c.ctx = x, c.ptr = (uintptr_t)p;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.opened.find(c.ptr);
        if (it == drv.opened.end())
            viol("C22:close-unknown", "an IPC mapping is closed that is not open");
        else {
            CHECK(it->second == x, "C22:close-context", "an IPC mapping is closed in another context");
            drv.live.erase(c.ptr);
            drv.opened.erase(it);
            drv.closes++;
        }
    }
    return done(c);
}
const std::map<std::string, void *> &syms() {
    static const std::map<std::string, void *> *m = new std::map<std::string, void *>{
        {FNAME[F_HOST], (void *)fHost},         {FNAME[F_DEV], (void *)fDev},         {FNAME[F_SHARED], (void *)fShared},
        {FNAME[F_FREE], (void *)fFree},         {FNAME[F_FREEEXT], (void *)fFreeExt}, {FNAME[F_GETIPC], (void *)fGetIpc},
        {FNAME[F_PUTIPC], (void *)fPutIpc},     {FNAME[F_OPENIPC], (void *)fOpenIpc}, {FNAME[F_CLOSEIPC], (void *)fCloseIpc},
        {FNAME[F_RESIDENT], (void *)fResident}, {FNAME[F_PROPS], (void *)fProps},     {FNAME[F_MEMPROPS], (void *)fMemProps}};
    return *m;
}
bool isLib(const char *n) { return n && strstr(n, "libze_loader"); }
} // namespace
extern "C" {
void *__real_dlopen(const char *, int);
int __real_dlclose(void *);
void *__real_dlsym(void *, const char *);
void *__wrap_dlopen(const char *n, int f) {
    if (!isLib(n))
        return __real_dlopen(n, f);
    lib.tries++;
    if (!lib.present)
        return __real_dlopen("/nonexistent/libze_loader.so", f); // sets the text dlerror() gives
    lib.opens++;
    return LIB;
}
int __wrap_dlclose(void *l) {
    if (l != LIB)
        return __real_dlclose(l);
    CHECK(lib.opens > 0, "C22:lib-close", "the driver library is closed more often than opened");
    lib.opens--;
    return 0;
}
static void *libSym(const char *s) {
    auto it = syms().find(s);
    if (it == syms().end() || lib.missing.count(s))
        return __real_dlsym(RTLD_DEFAULT, "no_such_symbol_c22");
    return it->second;
}
// the sanitizer's runtime comes this way before it is ready
__attribute__((disable_sanitizer_instrumentation, no_sanitize("address", "undefined"))) void *__wrap_dlsym(void *l, const char *s) {
    return l == (void *)&lib ? libSym(s) : __real_dlsym(l, s);
}
}
namespace {
// ------------------------------------------------------------------ the model
const ze_result_t CODES[] = {ZE_RESULT_NOT_READY,
                             ZE_RESULT_ERROR_DEVICE_LOST,
                             ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY,
                             ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY,
                             ZE_RESULT_ERROR_MODULE_BUILD_FAILURE,
                             ZE_RESULT_ERROR_INSUFFICIENT_PERMISSIONS,
                             ZE_RESULT_ERROR_NOT_AVAILABLE,
                             ZE_RESULT_ERROR_UNINITIALIZED,
                             ZE_RESULT_ERROR_UNSUPPORTED_FEATURE,
                             ZE_RESULT_ERROR_INVALID_ARGUMENT,
                             ZE_RESULT_ERROR_INVALID_NULL_HANDLE,
                             ZE_RESULT_ERROR_INVALID_SIZE,
                             ZE_RESULT_ERROR_UNSUPPORTED_SIZE,
                             ZE_RESULT_ERROR_UNSUPPORTED_ALIGNMENT,
                             ZE_RESULT_ERROR_HANDLE_OBJECT_IN_USE,
                             ZE_RESULT_ERROR_UNKNOWN};
umf_result_t mapped(ze_result_t z) {
    switch (z) {
    case ZE_RESULT_SUCCESS:
        return UMF_RESULT_SUCCESS;
    case ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY:
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    case ZE_RESULT_ERROR_INVALID_ARGUMENT:
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    default:
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
}
struct Conf {
    Context *ctx = nullptr;
    Dev *dev = nullptr;
    umf_usm_memory_type_t type = UMF_MEMORY_TYPE_UNKNOWN;
    std::vector<ze_device_handle_t> res;
    int policy = 0;
    uint32_t ordinal = 0;
};
struct Prov {
    Conf c;
    umf_memory_provider_handle_t h = nullptr;
    struct Blk {
        size_t size;
    };
    std::map<uintptr_t, Blk> blks;
};
std::vector<std::unique_ptr<Dev>> devs;
std::vector<std::unique_ptr<Context>> ctxs;

void arm(Rng &r, unsigned num, unsigned den, int maxcall) {
    fail_in = -1, fail_fn = -1, fail_burst = 0, injected = 0;
    if (r.chance(num, den)) {
        fail_in = (int64_t)r.below(maxcall);
        fail_code = CODES[r.below(sizeof CODES / sizeof *CODES)];
        if (r.chance(1, 6))
            fail_burst = (int)r.range(1, 3);
    }
    tlog.clear();
}
void disarm() { fail_in = -1, fail_burst = 0; }

// the failing thread can ask for the driver's code
void checkNative(umf_memory_provider_handle_t p, umf_result_t r, ze_result_t z, const char *what) {
    CHECK(r == mapped(z), "C22:result", "%s: the driver returned %#x and the call %d instead of %d", what, z, r, mapped(z));
    if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && p) {
        static const char sentinel[] = "sentinel";
        const char *m = sentinel;
        int32_t e = 0x55aa;
        umfMemoryProviderGetLastNativeError(p, &m, &e);
        CHECK(e == (int32_t)z, "C22:native", "%s: the driver returned %#x and the native error is %#x", what, z, e);
        CHECK(m != sentinel, "C22:message", "%s: no message set with the native error", what);
        if (m && m != sentinel) { // a readable string
            volatile size_t n = strlen(m);
            (void)n;
        }
        cnt("native_checked");
    }
    if (r != UMF_RESULT_SUCCESS)
        cnt("driver_failures");
}
uint32_t zpol(int p) {
    return p == UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE
           : p == UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFER_FREE ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE
                                                                        : 0;
}
void checkCall(const Conf &c, const Call &k) {
    CHECK(!k.badstype, "C22:descriptor", "%s: a structure with the wrong type or an unexpected extension", FNAME[k.fn]);
    if (k.fn != F_PROPS)
        CHECK(k.ctx == c.ctx, "C22:context", "%s: not the configured context", FNAME[k.fn]);
    switch (k.fn) {
    case F_HOST:
    case F_DEV:
    case F_SHARED: {
        Fn want = c.type == UMF_MEMORY_TYPE_HOST ? F_HOST : c.type == UMF_MEMORY_TYPE_DEVICE ? F_DEV : F_SHARED;
        CHECK(k.fn == want, "C22:memory-type", "%s used for memory type %d", FNAME[k.fn], c.type);
        CHECK(k.flags == 0, "C22:flags", "%s with flags %#x", FNAME[k.fn], k.flags);
        if (k.fn != F_HOST) {
            CHECK(k.dev == c.dev, "C22:device", "%s: not the configured device", FNAME[k.fn]);
            CHECK(k.ordinal == c.ordinal, "C22:ordinal", "%s with ordinal %u, configured %u", FNAME[k.fn], k.ordinal, c.ordinal);
            CHECK(k.relaxed == (k.size > c.dev->maxAlloc), "C22:relaxed", "%s: %zu bytes, the device allows %lu: size relaxation %s", FNAME[k.fn],
                  k.size, c.dev->maxAlloc, k.relaxed ? "asked" : "not asked");
            CHECK(!k.badrelaxed, "C22:relaxed-flags", "size relaxation with the wrong flags");
            if (k.relaxed)
                cnt("relaxed");
        }
        break;
    }
    case F_FREE:
    case F_FREEEXT:
        CHECK(k.policy == zpol(c.policy) && (k.fn == F_FREEEXT) == (c.policy != 0), "C22:free-policy", "%s with policy %#x, configured %d",
              FNAME[k.fn], k.policy, c.policy);
        break;
    default:
        break;
    }
}
void checkLog(const Conf &c) {
    for (auto &k : tlog) {
        checkCall(c, k);
        cnt("driver_calls");
    }
}
// the first injected failure, if any, other than in giving memory back
const Call *firstFailure(bool frees = false) {
    for (auto &k : tlog)
        if (k.res != ZE_RESULT_SUCCESS && (frees || (k.fn != F_FREE && k.fn != F_FREEEXT)))
            return &k;
    return nullptr;
}
bool freeFailed() {
    for (auto &k : tlog)
        if (k.res != ZE_RESULT_SUCCESS && (k.fn == F_FREE || k.fn == F_FREEEXT))
            return true;
    return false;
}
size_t liveCount() {
    std::lock_guard<std::mutex> g(drv.mu);
    return drv.live.size();
}
// memory the driver lost because its own free failed
void forgetFailedFrees() {
    std::lock_guard<std::mutex> g(drv.mu);
    for (auto &k : tlog)
        if (k.res != ZE_RESULT_SUCCESS && (k.fn == F_FREE || k.fn == F_FREEEXT))
            drv.live.erase(k.ptr);
}

Conf randConf(Rng &r, bool *valid) {
    Conf c;
    c.ctx = ctxs[r.below(ctxs.size())].get();
    c.type = r.pick(std::vector<umf_usm_memory_type_t>{UMF_MEMORY_TYPE_HOST, UMF_MEMORY_TYPE_DEVICE, UMF_MEMORY_TYPE_SHARED});
    if (c.type != UMF_MEMORY_TYPE_HOST)
        c.dev = devs[r.below(devs.size())].get();
    if (r.chance(1, 2))
        c.policy = (int)r.below(3);
    if (r.chance(1, 2))
        c.ordinal = (uint32_t)(r.chance(1, 4) ? r.next() : r.below(8));
    if (r.chance(1, 2)) {
        size_t n = r.range(1, devs.size());
        std::vector<Dev *> d;
        for (auto &x : devs)
            d.push_back(x.get());
        for (size_t i = 0; i < n; i++) {
            size_t j = i + r.below(d.size() - i);
            std::swap(d[i], d[j]);
            c.res.push_back((ze_device_handle_t)d[i]);
        }
    }
    *valid = true;
    if (r.chance(1, 10)) {
        *valid = false;
        switch (r.below(4)) {
        case 0:
            c.ctx = nullptr;
            break;
        case 1: // a device for host memory, none for device memory
            if (c.type == UMF_MEMORY_TYPE_HOST)
                c.dev = devs[0].get();
            else
                c.dev = nullptr;
            break;
        case 2:
            c.type = UMF_MEMORY_TYPE_UNKNOWN;
            c.dev = nullptr;
            break;
        case 3:
            c.type = UMF_MEMORY_TYPE_UNKNOWN;
            c.dev = devs[0].get();
            break;
        }
    }
    return c;
}
umf_level_zero_memory_provider_params_handle_t mkParams(Rng &r, const Conf &c) {
    umf_level_zero_memory_provider_params_handle_t p = nullptr;
    CHECK(umfLevelZeroMemoryProviderParamsCreate(&p) == UMF_RESULT_SUCCESS, "C22:params", "cannot create parameters");
    std::vector<int> ord{0, 1, 2, 3, 4, 5};
    for (size_t i = 0; i < ord.size(); i++)
        std::swap(ord[i], ord[i + r.below(ord.size() - i)]);
    for (int o : ord) {
        umf_result_t q = UMF_RESULT_SUCCESS;
        switch (o) {
        case 0:
            if (r.chance(1, 4))
                CHECK(umfLevelZeroMemoryProviderParamsSetContext(p, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C22:params", "NULL context accepted");
            if (c.ctx)
                q = umfLevelZeroMemoryProviderParamsSetContext(p, (ze_context_handle_t)c.ctx);
            break;
        case 1:
            if (c.dev || r.chance(1, 2))
                q = umfLevelZeroMemoryProviderParamsSetDevice(p, (ze_device_handle_t)c.dev);
            break;
        case 2:
            if (c.type != UMF_MEMORY_TYPE_UNKNOWN || r.chance(1, 2))
                q = umfLevelZeroMemoryProviderParamsSetMemoryType(p, c.type);
            break;
        case 3:
            if (c.res.size()) {
                // the caller's array is the caller's: it is changed and released once set
                auto *arr = new ze_device_handle_t[c.res.size()];
                std::copy(c.res.begin(), c.res.end(), arr);
                if (r.chance(1, 4)) // set twice: the last one counts
                    q = umfLevelZeroMemoryProviderParamsSetResidentDevices(p, arr, 1);
                q = umfLevelZeroMemoryProviderParamsSetResidentDevices(p, arr, (uint32_t)c.res.size());
                memset((void *)arr, 0x5a, sizeof(*arr) * c.res.size());
                delete[] arr;
            } else if (r.chance(1, 3))
                q = umfLevelZeroMemoryProviderParamsSetResidentDevices(p, nullptr, 0);
            if (r.chance(1, 4))
                CHECK(umfLevelZeroMemoryProviderParamsSetResidentDevices(p, nullptr, 3) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C22:params",
                      "3 devices and no array accepted");
            break;
        case 4:
            if (c.policy || r.chance(1, 2))
                q = umfLevelZeroMemoryProviderParamsSetFreePolicy(p, (umf_level_zero_memory_provider_free_policy_t)c.policy);
            break;
        case 5:
            if (c.ordinal || r.chance(1, 2))
                q = umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(p, c.ordinal);
            break;
        }
        CHECK(q == UMF_RESULT_SUCCESS, "C22:params", "setter %d returned %d", o, q);
    }
    return p;
}
// changes everything in the object a provider was made from
void spoilParams(Rng &r, umf_level_zero_memory_provider_params_handle_t p) {
    if (r.chance(1, 2)) {
        ze_device_handle_t other[1];
        other[0] = (ze_device_handle_t)devs[0].get();
        umfLevelZeroMemoryProviderParamsSetContext(p, (ze_context_handle_t)ctxs[0].get());
        umfLevelZeroMemoryProviderParamsSetDevice(p, (ze_device_handle_t)devs[0].get());
        umfLevelZeroMemoryProviderParamsSetMemoryType(p, UMF_MEMORY_TYPE_SHARED);
        umfLevelZeroMemoryProviderParamsSetResidentDevices(p, other, 1);
        umfLevelZeroMemoryProviderParamsSetFreePolicy(p, UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE);
        umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(p, 77);
    }
    umfLevelZeroMemoryProviderParamsDestroy(p);
}
std::unique_ptr<Prov> mkProv(Rng &r, bool faults, bool alone = true) {
    bool valid;
    auto P = std::make_unique<Prov>();
    P->c = randConf(r, &valid);
    auto *p = mkParams(r, P->c);
    size_t before = liveCount();
    arm(r, faults ? 1 : 0, 4, 6 + (int)P->c.res.size());
#ifndef NO_BA
    bool metafail = faults && r.chance(1, 12);
    if (metafail) {
        ba::fail_at = r.range(1, 4);
        ba::enabled_failing = true;
    }
    uint64_t inj0 = ba::st.injected;
#endif
    umf_memory_provider_handle_t hp = (umf_memory_provider_handle_t)0x11;
    umf_result_t q = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, &hp);
    disarm();
    bool mf = false;
#ifndef NO_BA
    ba::enabled_failing = false;
    ba::fail_at = 0;
    mf = ba::st.injected != inj0;
#endif
    spoilParams(r, p);
    const Call *f = firstFailure();
    if (!valid) {
        CHECK(q != UMF_RESULT_SUCCESS, "C22:invalid-config", "a provider is created without a context, or with the wrong kind of device");
        cnt("invalid_configs");
    } else {
        checkLog(P->c);
        if (mf)
            CHECK(q == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || (q == UMF_RESULT_SUCCESS) || f, "C22:create-oom", "metadata refused at creation: %d", q);
        else if (f)
            checkNative(nullptr, q, f->res, "create");
        else if (!freeFailed())
            CHECK(q == UMF_RESULT_SUCCESS, "C22:create", "create returned %d with a healthy driver", q);
        if (q != UMF_RESULT_SUCCESS)
            cnt("failed_creates");
    }
    if (freeFailed())
        forgetFailedFrees();
    CHECK(!alone || liveCount() == before, "C22:create-leak", "creation (result %d) left %zd driver allocations", q, (ssize_t)(liveCount() - before));
    if (q != UMF_RESULT_SUCCESS)
        return nullptr;
    P->h = hp;
    cnt("providers");
    return P;
}

void opAlloc(Prov &P, Rng &r, bool faults) {
    size_t size = r.chance(1, 3) && P.c.dev ? P.c.dev->maxAlloc - 2 + r.below(5) : r.logsize(1 << 20);
    size_t align = r.chance(1, 2) ? 0 : (size_t)1 << r.below(17);
    arm(r, faults ? 1 : 0, 5, 1 + (int)P.c.res.size());
    if (faults && r.chance(1, 40)) { // residency fails and giving the memory back as well
        fail_in = (int64_t)P.c.res.size();
        fail_code = CODES[r.below(sizeof CODES / sizeof *CODES)];
        fail_burst = 5;
    }
    void *out = (void *)0x77;
    umf_result_t q = umfMemoryProviderAlloc(P.h, size, align, &out);
    disarm();
    checkLog(P.c);
    // exactly one request for what was asked
    int allocs = 0;
    int given_back = 0;
    uintptr_t got = 0;
    std::map<void *, int> res;
    for (auto &k : tlog)
        switch (k.fn) {
        case F_HOST:
        case F_DEV:
        case F_SHARED:
            allocs++;
            got = k.ptr;
            CHECK(k.size == size && k.align == align, "C22:alloc-args", "%zu/%zu asked, %zu/%zu passed on", size, align, k.size, k.align);
            break;
        case F_RESIDENT:
            res[k.dev]++;
            CHECK(k.ptr == got, "C22:resident-ptr", "other memory made resident");
            break;
        case F_FREE:
        case F_FREEEXT:
            CHECK(k.ptr == got && q != UMF_RESULT_SUCCESS, "C22:alloc-frees", "memory freed by an allocation");
            given_back++;
            break;
        default:
            break;
        }
    CHECK(allocs == 1, "C22:alloc-calls", "%d driver allocations for one request", allocs);
    const Call *f = firstFailure();
    if (f)
        checkNative(P.h, q, f->res, "alloc");
    else
        CHECK(q == UMF_RESULT_SUCCESS, "C22:alloc", "alloc returned %d with a healthy driver", q);
    if (freeFailed())
        forgetFailedFrees();
    if (q == UMF_RESULT_SUCCESS) {
        CHECK((uintptr_t)out == got, "C22:alloc-ptr", "not the driver's pointer");
        CHECK(res.size() == P.c.res.size(), "C22:residency", "made resident on %zu devices, %zu configured", res.size(), P.c.res.size());
        for (auto d : P.c.res)
            CHECK(res[d] == 1, "C22:residency", "made resident %d times on a configured device", res[d]);
        P.blks[(uintptr_t)out] = {size};
        cnt("allocs");
        cnt("residencies", res.size());
    } else {
        CHECK(given_back == (got ? 1 : 0), "C22:alloc-leak", "a failed allocation (%s failed) gave the driver's memory back %d times",
              f ? FNAME[f->fn] : "?", given_back);
        cnt("failed_allocs");
        if (f && f->fn == F_RESIDENT)
            cnt("failed_residency");
    }
}
void opFree(Prov &P, Rng &r, bool faults) {
    if (P.blks.empty() || r.chance(1, 30)) {
        arm(r, 0, 1, 1);
        umf_result_t q = umfMemoryProviderFree(P.h, nullptr, r.below(100));
        CHECK(q == UMF_RESULT_SUCCESS && tlog.empty(), "C22:free-null", "free of NULL: %d, %zu driver calls", q, tlog.size());
        return;
    }
    auto it = P.blks.begin();
    std::advance(it, r.below(P.blks.size()));
    uintptr_t a = it->first;
    arm(r, faults ? 1 : 0, 8, 1);
    umf_result_t q = umfMemoryProviderFree(P.h, (void *)a, it->second.size);
    disarm();
    checkLog(P.c);
    CHECK(tlog.size() == 1 && (tlog[0].fn == F_FREE || tlog[0].fn == F_FREEEXT) && tlog[0].ptr == a, "C22:free-calls",
          "%zu driver calls for one free", tlog.size());
    if (tlog.size())
        checkNative(P.h, q, tlog[0].res, "free");
    if (q == UMF_RESULT_SUCCESS) {
        P.blks.erase(it);
        cnt("frees");
    }
}
void opPage(Prov &P, Rng &r, bool faults) {
    arm(r, faults ? 1 : 0, 6, 1);
    size_t ps = 12345;
    umf_result_t q;
    if (r.chance(1, 2) || P.blks.empty()) {
        uint64_t want = P.c.dev ? P.c.dev->page : 4096;
        if (r.chance(1, 2))
            q = umfMemoryProviderGetMinPageSize(P.h, nullptr, &ps);
        else
            q = umfMemoryProviderGetRecommendedPageSize(P.h, r.logsize(1 << 20), &ps);
        disarm();
        if (const Call *f = firstFailure(true))
            checkNative(P.h, q, f->res, "page size");
        else
            CHECK(q == UMF_RESULT_SUCCESS && ps == want, "C22:page-size", "page size %zu (result %d), the driver's is %lu", ps, q, want);
    } else {
        auto it = P.blks.begin();
        std::advance(it, r.below(P.blks.size()));
        uint64_t want;
        {
            std::lock_guard<std::mutex> g(drv.mu);
            want = drv.live[it->first].page = (uint64_t)4096 << r.below(10);
        }
        q = umfMemoryProviderGetMinPageSize(P.h, (void *)it->first, &ps);
        disarm();
        if (const Call *f = firstFailure(true)) {
            checkNative(P.h, q, f->res, "page size");
        } else
            CHECK(q == UMF_RESULT_SUCCESS && ps == want, "C22:page-size-of", "page size %zu (result %d), the driver's for this memory is %lu", ps, q,
                  want);
    }
    checkLog(P.c);
    cnt("page_sizes");
}
void opUnsupported(Prov &P, Rng &r) {
    if (P.blks.empty())
        return;
    arm(r, 0, 1, 1);
    auto it = P.blks.begin();
    void *p = (void *)it->first;
    umf_result_t q = UMF_RESULT_SUCCESS;
    const char *n = "";
    switch (r.below(4)) {
    case 0:
        n = "purge lazy", q = umfMemoryProviderPurgeLazy(P.h, p, it->second.size);
        break;
    case 1:
        n = "purge force", q = umfMemoryProviderPurgeForce(P.h, p, it->second.size);
        break;
    case 2:
        if (it->second.size < 2)
            return;
        n = "split", q = umfMemoryProviderAllocationSplit(P.h, p, it->second.size, 1);
        break;
    case 3:
        if (it->second.size < 2)
            return;
        n = "merge", q = umfMemoryProviderAllocationMerge(P.h, p, (char *)p + 1, it->second.size);
        break;
    }
    CHECK(q == UMF_RESULT_ERROR_NOT_SUPPORTED && tlog.empty(), "C22:unsupported", "%s: %d, %zu driver calls", n, q, tlog.size());
    cnt("unsupported");
}
void opName(Prov &P) {
    const char *n = umfMemoryProviderGetName(P.h);
    CHECK(n && !strcmp(n, "LEVEL_ZERO"), "C22:name", "name %s", n ? n : "NULL");
}
// export, open, close, put on the provider itself
void opIpc(Prov &P, Rng &r, bool faults) {
    if (P.blks.empty())
        return;
    auto it = P.blks.begin();
    std::advance(it, r.below(P.blks.size()));
    size_t hs = 0;
    arm(r, 0, 1, 1);
    CHECK(umfMemoryProviderGetIPCHandleSize(P.h, &hs) == UMF_RESULT_SUCCESS && hs >= sizeof(ze_ipc_mem_handle_t), "C22:ipc-size", "handle size %zu", hs);
    std::unique_ptr<char[]> d(new char[hs]); // exactly as large as it has to be
    memset(d.get(), 0x6b, hs);
    arm(r, faults ? 1 : 0, 6, 1);
    umf_result_t q = umfMemoryProviderGetIPCHandle(P.h, (void *)it->first, it->second.size, d.get());
    disarm();
    checkLog(P.c);
    CHECK(tlog.size() == 1 && tlog[0].fn == F_GETIPC && tlog[0].ptr == it->first, "C22:ipc-get", "get made %zu driver calls", tlog.size());
    if (tlog.size())
        checkNative(P.h, q, tlog[0].res, "get_ipc_handle");
    if (q != UMF_RESULT_SUCCESS)
        return;
    ze_ipc_mem_handle_t made = tlog[0].ipc;
    cnt("ipc_gets");
    int fds0 = openFds();
    size_t n = r.below(4);
    std::vector<void *> maps;
    for (size_t i = 0; i < n; i++) {
        arm(r, faults ? 1 : 0, 5, 1);
        void *m = nullptr;
        q = umfMemoryProviderOpenIPCHandle(P.h, d.get(), &m);
        disarm();
        checkLog(P.c);
        CHECK(tlog.size() == 1 && tlog[0].fn == F_OPENIPC && tlog[0].dev == P.c.dev && !memcmp(&tlog[0].ipc, &made, sizeof made) && tlog[0].flags == 0,
              "C22:ipc-open", "open passed other data, device or flags to the driver (%zu calls)", tlog.size());
        if (tlog.size()) {
            checkNative(P.h, q, tlog[0].res, "open_ipc_handle");
            if (q == UMF_RESULT_SUCCESS) {
                CHECK((uintptr_t)m == tlog[0].ptr, "C22:ipc-open-ptr", "not the driver's mapping");
                maps.push_back(m);
                cnt("ipc_opens");
            }
        }
    }
    for (void *m : maps)
        for (int t = 0;; t++) {
            arm(r, faults && !t ? 1 : 0, 5, 1);
            q = umfMemoryProviderCloseIPCHandle(P.h, m, it->second.size);
            disarm();
            checkLog(P.c);
            CHECK(tlog.size() == 1 && tlog[0].fn == F_CLOSEIPC && tlog[0].ptr == (uintptr_t)m, "C22:ipc-close", "close made %zu driver calls", tlog.size());
            if (tlog.size())
                checkNative(P.h, q, tlog[0].res, "close_ipc_handle");
            if (q == UMF_RESULT_SUCCESS || t)
                break;
        }
    CHECK(openFds() == fds0, "C22:ipc-fds", "%d descriptors left by opening and closing", openFds() - fds0);
    for (int t = 0;; t++) {
        arm(r, faults && !t ? 1 : 0, 5, 1);
        q = umfMemoryProviderPutIPCHandle(P.h, d.get());
        disarm();
        checkLog(P.c);
        if (!have_put) {
            CHECK(q == UMF_RESULT_SUCCESS && tlog.empty(), "C22:ipc-put-none", "put with a driver without zeMemPutIpcHandle: %d", q);
            Wire w;
            memcpy(&w, &made, sizeof w);
            std::lock_guard<std::mutex> g(drv.mu);
            drv.handles.erase(w.id); // released with the memory
            break;
        }
        CHECK(tlog.size() == 1 && tlog[0].fn == F_PUTIPC && !memcmp(&tlog[0].ipc, &made, sizeof made), "C22:ipc-put", "put passed other data to the driver");
        if (tlog.size())
            checkNative(P.h, q, tlog[0].res, "put_ipc_handle");
        if (q == UMF_RESULT_SUCCESS || t)
            break;
    }
    cnt("ipc_roundtrips");
}
// a pool on top: handles are kept by the tracker and put with the memory
void poolCase(Rng &r, bool faults) {
    bool valid;
    Conf c;
    do
        c = randConf(r, &valid);
    while (!valid);
    auto *p = mkParams(r, c);
    arm(r, 0, 1, 1);
    umf_memory_provider_handle_t hp = nullptr;
    umf_result_t q = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, &hp);
    spoilParams(r, p);
    if (q) {
        viol("C22:create", "create returned %d with a healthy driver", q);
        return;
    }
    umf_memory_pool_handle_t pool = nullptr;
    umf_pool_create_flags_t fl = r.chance(1, 2) ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0;
    bool disj = r.chance(1, 3);
    umf_disjoint_pool_params_handle_t dp = nullptr;
    if (disj) {
        umfDisjointPoolParamsCreate(&dp);
        umfDisjointPoolParamsSetMinBucketSize(dp, 64);
        umfDisjointPoolParamsSetSlabMinSize(dp, 65536);
        umfDisjointPoolParamsSetMaxPoolableSize(dp, 16384);
        umfDisjointPoolParamsSetCapacity(dp, r.below(4));
    }
    q = umfPoolCreate(disj ? umfDisjointPoolOps() : umfProxyPoolOps(), hp, dp, fl, &pool);
    if (dp)
        umfDisjointPoolParamsDestroy(dp);
    if (q) {
        viol("C22:pool-create", "umfPoolCreate = %d", q);
        umfMemoryProviderDestroy(hp);
        return;
    }
    umf_ipc_handler_handle_t hd = nullptr;
    CHECK(umfPoolGetIPCHandler(pool, &hd) == UMF_RESULT_SUCCESS, "C22:handler", "no IPC handler");
    struct B {
        void *p;
        size_t n;
        std::vector<umf_ipc_handle_t> hs;
        std::vector<void *> maps;
    };
    std::vector<B> bs;
    size_t ops = r.range(10, 60);
    for (size_t i = 0; i < ops; i++) {
        progress();
        switch (r.below(6)) {
        case 0:
        case 1: {
            size_t n = r.logsize(1 << 17) + 1;
            arm(r, faults ? 1 : 0, 6, 3);
            void *x = umfPoolMalloc(pool, n);
            disarm();
            checkLog(c);
            if (x)
                bs.push_back({x, n, {}, {}});
            else
                CHECK(injected, "C22:pool-alloc", "umfPoolMalloc(%zu) failed with a healthy driver", n);
            forgetFailedFrees();
            break;
        }
        case 2:
            if (bs.size()) {
                B &b = bs[r.below(bs.size())];
                umf_ipc_handle_t hh = nullptr;
                size_t hs;
                arm(r, faults ? 1 : 0, 6, 2);
                q = umfGetIPCHandle(b.p, &hh, &hs);
                disarm();
                checkLog(c);
                if (q == UMF_RESULT_SUCCESS) {
                    b.hs.push_back(hh);
                    cnt("pool_ipc_gets");
                } else
                    CHECK(injected, "C22:pool-ipc-get", "umfGetIPCHandle = %d with a healthy driver", q);
            }
            break;
        case 3:
            if (bs.size()) {
                B &b = bs[r.below(bs.size())];
                if (b.hs.empty())
                    break;
                void *m = nullptr;
                arm(r, faults ? 1 : 0, 5, 1);
                q = umfOpenIPCHandle(hd, b.hs[r.below(b.hs.size())], &m);
                disarm();
                checkLog(c);
                if (q == UMF_RESULT_SUCCESS) {
                    b.maps.push_back(m);
                    cnt("pool_ipc_opens");
                } else
                    CHECK(injected, "C22:pool-ipc-open", "umfOpenIPCHandle = %d with a healthy driver", q);
            }
            break;
        case 4:
            if (bs.size()) {
                B &b = bs[r.below(bs.size())];
                if (b.maps.size()) {
                    arm(r, 0, 1, 1);
                    q = umfCloseIPCHandle(b.maps.back());
                    CHECK(q == UMF_RESULT_SUCCESS, "C22:pool-ipc-close", "umfCloseIPCHandle = %d", q);
                    b.maps.pop_back();
                } else if (b.hs.size()) {
                    q = umfPutIPCHandle(b.hs.back());
                    CHECK(q == UMF_RESULT_SUCCESS, "C22:pool-ipc-put", "umfPutIPCHandle = %d", q);
                    b.hs.pop_back();
                }
            }
            break;
        case 5:
            if (bs.size()) {
                size_t k = r.below(bs.size());
                B b = bs[k];
                for (auto m : b.maps)
                    CHECK(umfCloseIPCHandle(m) == UMF_RESULT_SUCCESS, "C22:pool-ipc-close", "close failed");
                for (auto x : b.hs)
                    CHECK(umfPutIPCHandle(x) == UMF_RESULT_SUCCESS, "C22:pool-ipc-put", "put failed");
                arm(r, 0, 1, 1);
                q = umfPoolFree(pool, b.p);
                checkLog(c);
                CHECK(q == UMF_RESULT_SUCCESS, "C22:pool-free", "umfPoolFree = %d", q);
                bs.erase(bs.begin() + k);
            }
            break;
        }
    }
    for (auto &b : bs) {
        for (auto m : b.maps)
            umfCloseIPCHandle(m);
        for (auto x : b.hs)
            umfPutIPCHandle(x);
        CHECK(umfPoolFree(pool, b.p) == UMF_RESULT_SUCCESS, "C22:pool-free", "umfPoolFree failed");
    }
    umfPoolDestroy(pool);
    if (!fl)
        umfMemoryProviderDestroy(hp);
    std::lock_guard<std::mutex> g(drv.mu);
    if (!have_put)
        drv.handles.clear();
    CHECK(drv.live.empty(), "C22:pool-leak", "%zu driver allocations or mappings left after the pool is destroyed", drv.live.size());
    CHECK(drv.handles.empty(), "C22:pool-ipc-leak", "%zu driver IPC handles never put", drv.handles.size());
    CHECK(drv.opened.empty(), "C22:pool-map-leak", "%zu driver IPC mappings never closed", drv.opened.size());
    drv.live.clear(), drv.handles.clear(), drv.opened.clear();
    cnt("pools");
}
void newWorld(Rng &r) {
    devs.clear();
    ctxs.clear();
    size_t n = r.range(1, 4);
    for (size_t i = 0; i < n; i++)
        devs.emplace_back(new Dev{r.chance(1, 4) ? r.range(2, 64) : (uint64_t)r.range(1024, 1 << 19), (uint64_t)4096 << r.below(10)});
    n = r.range(1, 2);
    for (size_t i = 0; i < n; i++)
        ctxs.emplace_back(new Context{(int)i});
}
void history(Prov &P, Rng &r, bool faults, size_t ops) {
    for (size_t i = 0; i < ops; i++) {
        progress();
        switch (r.below(10)) {
        case 0:
        case 1:
        case 2:
        case 3:
            opAlloc(P, r, faults);
            break;
        case 4:
        case 5:
            opFree(P, r, faults);
            break;
        case 6:
            opPage(P, r, faults);
            break;
        case 7:
            opUnsupported(P, r);
            opName(P);
            break;
        default:
            opIpc(P, r, faults);
        }
    }
}
void finish(Prov &P, Rng &r) {
    while (!P.blks.empty())
        opFree(P, r, false);
    arm(r, 0, 1, 1);
    umfMemoryProviderDestroy(P.h);
    P.h = nullptr;
}
void empty(const char *when) {
    std::lock_guard<std::mutex> g(drv.mu);
    CHECK(drv.live.empty() && drv.opened.empty(), "C22:leak", "%zu driver allocations left %s", drv.live.size(), when);
    CHECK(drv.handles.empty(), "C22:ipc-leak", "%zu driver IPC handles left %s", drv.handles.size(), when);
    drv.live.clear(), drv.opened.clear(), drv.handles.clear();
}
void provCase(Rng &r) {
    newWorld(r);
    bool faults = r.chance(2, 3);
    if (r.chance(1, 4)) {
        label("pool over the Level Zero provider");
        poolCase(r, faults);
        sig(mix(r.s, drv.nextid));
        return;
    }
    label("Level Zero provider");
#ifndef NO_BA
    int64_t live0 = ba::st.live_blocks;
    uint64_t ser0 = ba::serial();
#endif
    std::vector<std::unique_ptr<Prov>> ps;
    size_t n = r.range(1, 3);
    for (size_t i = 0; i < n; i++)
        if (auto P = mkProv(r, faults))
            ps.push_back(std::move(P));
    Sig s;
    for (int round = 0; round < 3 && ps.size(); round++) {
        auto &P = ps[r.below(ps.size())];
        s.add(P->c.type).add(P->c.policy).add(P->c.res.size());
        history(*P, r, faults, r.range(5, 25));
        s.add(P->blks.size());
    }
    for (auto &P : ps)
        finish(*P, r);
    empty("after the providers are destroyed");
#ifndef NO_BA
    CHECK(ba::st.live_blocks == live0, "C22:metadata", "%ld metadata blocks left: %s", (long)(ba::st.live_blocks - live0), ba::leaks(ser0).c_str());
#endif
    sig(mix(s.v, r.s));
    sample("%zu providers over %zu devices, faults %d, %lu driver allocations so far", ps.size(), devs.size(), faults, drv.nextid);
}
// ------------------------------------------------------------------ library cycles
void libCase(Rng &r) {
    label("driver library");
    newWorld(r);
    umfTearDown(); // the constructor's use
    Sig s;
    size_t cycles = r.range(2, 5);
    for (size_t k = 0; k < cycles; k++) {
        progress();
        CHECK(lib.opens == 0, "C22:lib-leak", "the driver library is held open %d times after teardown", (int)lib.opens);
        lib.opens = 0;
        lib.missing.clear();
        lib.present = !r.chance(1, 4);
        have_put = have_freeext = true;
        bool ok = lib.present;
        if (lib.present && r.chance(1, 2)) {
            int f = (int)r.below(F_N);
            if (f == F_PUTIPC)
                have_put = false;
            else if (f == F_FREEEXT)
                have_freeext = false;
            else
                ok = false;
            lib.missing.insert(FNAME[f]);
            s.add(f);
        }
        CHECK(umfInit() == 0, "C22:init", "umfInit failed");
        size_t tries = r.below(4);
        for (size_t t = 0; t < tries; t++) {
            bool valid;
            Conf c;
            do
                c = randConf(r, &valid);
            while (!valid);
            auto *p = mkParams(r, c);
            umf_memory_provider_handle_t hp = nullptr;
            arm(r, 0, 1, 1);
            umf_result_t q = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, &hp);
            spoilParams(r, p);
            if (!ok) {
                CHECK(q == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, "C22:lib-missing", "driver library %s: create returned %d",
                      lib.present ? "incomplete" : "missing", q);
                cnt("lib_unavailable");
                continue;
            }
            if (!have_freeext && c.policy) {
                CHECK(q != UMF_RESULT_SUCCESS, "C22:policy-unavailable", "a free policy is accepted that the driver cannot do");
                cnt("policy_unavailable");
                if (q == UMF_RESULT_SUCCESS)
                    umfMemoryProviderDestroy(hp);
                continue;
            }
            if (q != UMF_RESULT_SUCCESS) {
                viol("C22:lib-available", "driver library available in cycle %zu: create returned %d", k, q);
                continue;
            }
            Prov P;
            P.c = c;
            P.h = hp;
            history(P, r, false, r.range(3, 15));
            finish(P, r);
            empty("after the provider is destroyed");
            cnt("lib_providers");
        }
        umfTearDown();
        s.add(tries).add(ok);
        cnt("lib_cycles");
    }
    CHECK(lib.opens == 0, "C22:lib-leak", "the driver library is held open %d times after teardown", (int)lib.opens);
    lib.present = true;
    lib.missing.clear();
    have_put = have_freeext = true;
    umfInit();
    sig(mix(s.v, r.s));
}
// ------------------------------------------------------------------ threads
void mtCase(Rng &r) {
    label("Level Zero provider shared by threads");
    newWorld(r);
    umfTearDown();
    umfInit(); // the first use of the driver is concurrent as well
    size_t nt = r.range(2, 5);
    std::vector<uint64_t> seeds;
    for (size_t i = 0; i < nt; i++)
        seeds.push_back(r.next());
    bool shared = r.chance(2, 3);
    std::unique_ptr<Prov> S;
    if (shared)
        S = mkProv(r, false, false);
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < nt; i++)
        ts.emplace_back([&, i] {
            Rng q(seeds[i]);
            ready++;
            while (ready < nt)
                ;
            std::unique_ptr<Prov> own;
            Prov view;
            Prov *P = nullptr;
            if (S) {
                view.c = S->c;
                view.h = S->h;
                P = &view;
            } else {
                own = mkProv(q, false, false);
                P = own.get();
            }
            if (!P)
                return;
            for (int k = 0; k < 12; k++) {
                progress();
                switch (q.below(6)) {
                case 0:
                case 1:
                case 2:
                    opAlloc(*P, q, true);
                    break;
                case 3:
                    opFree(*P, q, true);
                    break;
                case 4:
                    opPage(*P, q, true);
                    break;
                case 5:
                    opUnsupported(*P, q);
                }
            }
            while (!P->blks.empty())
                opFree(*P, q, false);
            if (own) {
                umfMemoryProviderDestroy(own->h);
            }
            cnt("mt_threads");
        });
    for (auto &t : ts)
        t.join();
    if (S) {
        umfMemoryProviderDestroy(S->h);
    }
    empty("after the threads are done");
    CHECK(lib.opens <= 1, "C22:lib-opens", "the driver library is opened %d times", (int)lib.opens);
    sig(mix(r.s, nt));
}

// ------------------------------------------------------------------ another process exports
struct Msg {
    uint64_t ino, n;
    char data[256];
};
bool canCopyFds(pid_t pid, int fd) { // what the library relies on
    int pf = (int)syscall(SYS_pidfd_open, pid, 0);
    if (pf < 0)
        return false;
    int x = (int)syscall(SYS_pidfd_getfd, pf, fd, 0);
    close(pf);
    if (x < 0)
        return false;
    close(x);
    return true;
}
void xprocCase(Rng &r) {
    label("IPC handle of another process");
    newWorld(r);
    bool valid;
    Conf c;
    do
        c = randConf(r, &valid);
    while (!valid);
    auto *p = mkParams(r, c);
    Prov P;
    P.c = c;
    arm(r, 0, 1, 1);
    umf_result_t q = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, &P.h);
    umfLevelZeroMemoryProviderParamsDestroy(p);
    if (q) {
        viol("C22:create", "create returned %d with a healthy driver", q);
        return;
    }
    int up[2], down[2];
    if (pipe2(up, O_CLOEXEC) || pipe2(down, O_CLOEXEC))
        abort();
    pid_t pid = fork();
    if (!pid) {
        close(up[0]), close(down[1]);
        Rng q2(r.next());
        for (uint64_t k = q2.below(20); k; k--) // numbers differ from the parent's
            (void)dup(0);
        int f = memfd_create("c22", 0);
        struct stat sb;
        fstat(f, &sb);
        ipcfd = f;
        Msg m{};
        m.ino = sb.st_ino;
        void *a = nullptr;
        size_t hs = 0;
        umfMemoryProviderGetIPCHandleSize(P.h, &hs);
        m.n = hs;
        if (hs > sizeof m.data || umfMemoryProviderAlloc(P.h, 100, 0, &a) || umfMemoryProviderGetIPCHandle(P.h, a, 100, m.data))
            m.n = 0;
        (void)!write(up[1], &m, sizeof m);
        char b;
        (void)!read(down[0], &b, 1); // until the parent is done
        _exit(0);
    }
    close(up[1]), close(down[0]);
    Msg m{};
    bool got = read(up[0], &m, sizeof m) == sizeof m && m.n;
    CHECK(got, "C22:xproc-export", "the other process cannot export");
    if (got) {
        bool dead = r.chance(1, 6);
        if (dead) {
            close(down[1]);
            down[1] = -1;
            waitpid(pid, nullptr, 0);
        }
        std::unique_ptr<char[]> d(new char[m.n]);
        memcpy(d.get(), m.data, m.n);
        size_t tries = r.range(1, 3);
        Wire w;
        memcpy(&w, d.get() + (m.n - sizeof(ze_ipc_mem_handle_t)), sizeof w);
        for (size_t t = 0; t < tries; t++) {
            int f0 = openFds();
            wantIno = m.ino;
            lastFd = -1;
            arm(r, 1, 4, 1);
            fail_burst = 0;
            void *x = nullptr;
            q = umfMemoryProviderOpenIPCHandle(P.h, d.get(), &x);
            disarm();
            wantIno = 0;
            checkLog(c);
            CHECK(openFds() == f0, "C22:xproc-fds", "opening a handle of another process leaves %d descriptors (result %d)", openFds() - f0, q);
            CHECK(!memcmp(d.get(), m.data, m.n), "C22:xproc-data", "the caller's handle is changed");
            if (dead) {
                CHECK(q != UMF_RESULT_SUCCESS && tlog.empty(), "C22:xproc-dead", "the exporting process is gone: %d, %zu driver calls", q, tlog.size());
                cnt("xproc_dead");
            } else if (tlog.empty()) {
                CHECK(q != UMF_RESULT_SUCCESS, "C22:xproc-open", "success without a driver call");
                // the descriptor is the first thing in the driver's handle, whatever precedes it
                bool can = false;
                for (size_t o = 0; !can && o + sizeof w <= m.n; o++) {
                    memcpy(&w, m.data + o, sizeof w);
                    if (w.salt == saltOf(w.id))
                        can = canCopyFds(pid, w.fd);
                }
                CHECK(!can, "C22:xproc-copy", "the descriptor is not copied although it can be (result %d)", q);
                cnt("xproc_not_permitted");
            } else {
                CHECK(tlog.size() == 1 && tlog[0].fn == F_OPENIPC && tlog[0].dev == c.dev, "C22:xproc-open", "%zu driver calls", tlog.size());
                checkNative(P.h, q, tlog[0].res, "open_ipc_handle");
                cnt("xproc_opens");
                if (q == UMF_RESULT_SUCCESS) {
                    arm(r, 0, 1, 1);
                    CHECK(umfMemoryProviderCloseIPCHandle(P.h, x, 100) == UMF_RESULT_SUCCESS && tlog.size() == 1 && tlog[0].ptr == (uintptr_t)x,
                          "C22:xproc-close", "close failed");
                }
            }
        }
    }
    if (down[1] >= 0) {
        close(down[1]);
        waitpid(pid, nullptr, 0);
    }
    close(up[0]);
    finish(P, r);
    empty("after the provider is destroyed");
    sig(r.s);
}
} // namespace

void harness_begin() {
    arena = (uintptr_t)mmap(nullptr, 1ul << 34, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_end = arena + (1ul << 34);
    arena_next = arena;
    ipcfd = memfd_create("c22", MFD_CLOEXEC);
}
void run_case(uint64_t, Rng &r) {
    if (ctx().mode == "prov")
        provCase(r);
    else if (ctx().mode == "lib")
        libCase(r);
    else if (ctx().mode == "xproc")
        xprocCase(r);
    else
        mtCase(r);
}
void harness_end() {}
