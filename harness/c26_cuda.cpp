// CUDA provider against a stand-in driver (C26). modes:
//   prov - seeded configurations and histories on providers and pools over them, driver failures at any call
//   lib  - the driver library missing, incomplete or present over library cycles
//   mt   - threads with their own current contexts share providers
#include "h.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include <cuda.h>
#include <dlfcn.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/providers/provider_cuda.h>
using namespace h;
namespace {
// ------------------------------------------------------------------ the driver
enum Fn { F_GRAN, F_ALLOC, F_HOST, F_MANAGED, F_FREE, F_FREEHOST, F_ERRNAME, F_ERRSTR, F_CTXGET, F_CTXDEV, F_CTXSET, F_GETIPC, F_OPENIPC, F_CLOSEIPC, F_N };
const char *FNAME[] = {"cuMemGetAllocationGranularity", "cuMemAlloc_v2",    "cuMemHostAlloc",  "cuMemAllocManaged", "cuMemFree_v2",
                       "cuMemFreeHost",                 "cuGetErrorName",   "cuGetErrorString", "cuCtxGetCurrent",  "cuCtxGetDevice",
                       "cuCtxSetCurrent",               "cuIpcGetMemHandle", "cuIpcOpenMemHandle_v2", "cuIpcCloseMemHandle"};
struct Context {
    int id;
};
const int NCTX = 4;
Context *contexts; // addresses serve as CUcontext
struct Call {
    Fn fn;
    CUcontext cur = nullptr, arg = nullptr;
    uintptr_t ptr = 0;
    size_t size = 0, out = 0;
    unsigned flags = 0;
    int dev = -1;
    bool bad = false;
    CUipcMemHandle ipc{};
    CUresult res = CUDA_SUCCESS;
};
struct Alloc {
    Fn by;
    CUcontext ctx;
    size_t size;
};
struct Driver {
    std::mutex mu;
    std::map<uintptr_t, Alloc> live;
    std::map<uintptr_t, int> opened;
    std::map<uint64_t, uintptr_t> exported;
    uint64_t nextid = 1;
    size_t gran[8], rec[8]; // per device
    size_t step;            // alignment of what the driver returns
} drv;
thread_local CUcontext current;
thread_local int curdev = -1;
thread_local std::vector<Call> tlog;
thread_local int64_t fail_in = -1;
thread_local int fail_burst = 0, fail_fn = -1;
thread_local CUresult fail_code;
thread_local bool injected = false;
uintptr_t arena, arena_end, arena_next;

struct Lib {
    std::atomic<int> opens{0};
    bool present = true;
    std::set<std::string> missing;
} lib;

bool inject(Call &c) {
    CHECK(lib.opens > 0, "C26:call-after-close", "%s called while the driver library is not held open", FNAME[c.fn]);
    c.cur = current;
    if (fail_in < 0 || (fail_fn >= 0 && fail_fn != c.fn))
        return false;
    if (fail_in > 0) {
        fail_in--;
        return false;
    }
    if (fail_burst > 0)
        fail_burst--;
    else
        fail_in = -1;
    c.res = fail_code;
    injected = true;
    return true;
}
CUresult done(Call &c) {
    tlog.push_back(c);
    return c.res;
}
uintptr_t place(size_t size) {
    size_t st = drv.step;
    for (int pass = 0; pass < 4; pass++) {
        uintptr_t a = (arena_next + st - 1) & ~(uintptr_t)(st - 1);
        size_t m = (size + st) & ~(st - 1); // never adjacent: an end is not another's start
        if (m < size || a + m > arena_end || a + m < a) {
            if (m < size || m > arena_end - arena)
                return 0;
            arena_next = arena;
            continue;
        }
        auto it = drv.live.lower_bound(a);
        bool clash = it != drv.live.end() && it->first < a + m;
        if (!clash && it != drv.live.begin()) {
            auto p = std::prev(it);
            clash = p->first + p->second.size >= a;
        }
        if (!clash) {
            arena_next = a + m;
            return a;
        }
        auto l = std::prev(drv.live.end());
        arena_next = l->first + l->second.size + 1;
    }
    return 0;
}
CUresult genAlloc(Call &c, void *out) {
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        uintptr_t a = c.size ? place(c.size) : 0;
        if (!a)
            c.res = c.size ? CUDA_ERROR_OUT_OF_MEMORY : CUDA_ERROR_INVALID_VALUE;
        else {
            drv.live[a] = {c.fn, current, c.size};
            c.ptr = a;
            *(uintptr_t *)out = a;
        }
    }
    return done(c);
}
CUresult genFree(Call &c) {
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        auto it = drv.live.find(c.ptr);
        if (it == drv.live.end())
            viol("C26:free-unknown", "%s of %#lx, which the driver has not allocated (or has freed)", FNAME[c.fn], c.ptr);
        else {
            CHECK((c.fn == F_FREEHOST) == (it->second.by == F_HOST), "C26:free-kind", "memory of %s is freed by %s", FNAME[it->second.by], FNAME[c.fn]);
            CHECK(it->second.ctx == current, "C26:free-context", "memory is freed while another context than its own is current");
            drv.live.erase(it);
        }
    }
    return done(c);
}
CUresult fGran(size_t *o, const CUmemAllocationProp *p, CUmemAllocationGranularity_flags f) {
    Call c{F_GRAN};
    c.flags = f, c.dev = p->location.id;
    CUmemAllocationProp q = *p;
    c.bad = q.location.type != CU_MEM_LOCATION_TYPE_DEVICE || q.type != CU_MEM_ALLOCATION_TYPE_PINNED || q.requestedHandleTypes || q.win32HandleMetaData;
    if (!inject(c)) {
        if (c.dev < 0 || c.dev >= 8)
            c.res = CUDA_ERROR_INVALID_DEVICE;
        else
            *o = c.out = f == CU_MEM_ALLOC_GRANULARITY_MINIMUM ? drv.gran[c.dev] : drv.rec[c.dev];
    }
    return done(c);
}
CUresult fAlloc(CUdeviceptr *o, size_t s) {
    Call c{F_ALLOC};
    c.size = s;
    return genAlloc(c, o);
}
CUresult fHost(void **o, size_t s, unsigned fl) {
    Call c{F_HOST};
    c.size = s, c.flags = fl;
    return genAlloc(c, o);
}
CUresult fManaged(CUdeviceptr *o, size_t s, unsigned fl) {
    Call c{F_MANAGED};
    c.size = s, c.flags = fl;
    return genAlloc(c, o);
}
CUresult fFree(CUdeviceptr p) {
    Call c{F_FREE};
    c.ptr = p;
    return genFree(c);
}
CUresult fFreeHost(void *p) {
    Call c{F_FREEHOST};
    c.ptr = (uintptr_t)p;
    return genFree(c);
}
std::map<CUresult, std::pair<const char *, const char *>> &names() {
    static std::map<CUresult, std::pair<const char *, const char *>> m = {
        {CUDA_SUCCESS, {"CUDA_SUCCESS", "no error"}},
        {CUDA_ERROR_NOT_INITIALIZED, {"CUDA_ERROR_NOT_INITIALIZED", "initialization error"}},
        {CUDA_ERROR_INVALID_DEVICE, {"CUDA_ERROR_INVALID_DEVICE", "invalid device ordinal"}},
        {CUDA_ERROR_INVALID_CONTEXT, {"CUDA_ERROR_INVALID_CONTEXT", "invalid device context"}},
        {CUDA_ERROR_MAP_FAILED, {"CUDA_ERROR_MAP_FAILED", "mapping of buffer object failed"}},
        {CUDA_ERROR_ILLEGAL_ADDRESS, {"CUDA_ERROR_ILLEGAL_ADDRESS", "an illegal memory access was encountered"}},
        {CUDA_ERROR_NOT_SUPPORTED, {"CUDA_ERROR_NOT_SUPPORTED", "operation not supported"}},
        {CUDA_ERROR_UNKNOWN, {"CUDA_ERROR_UNKNOWN", "unknown error"}}};
    return m;
}
// no name for other codes, and a very long text for one
const std::string LONG(3000, 'x');
CUresult fErrName(CUresult e, const char **s) {
    Call c{F_ERRNAME};
    if (!inject(c)) {
        auto it = names().find(e);
        *s = it == names().end() ? nullptr : it->second.first;
        c.res = *s ? CUDA_SUCCESS : CUDA_ERROR_INVALID_VALUE;
    }
    return done(c);
}
CUresult fErrStr(CUresult e, const char **s) {
    Call c{F_ERRSTR};
    if (!inject(c)) {
        auto it = names().find(e);
        *s = it == names().end() ? nullptr : it->second.second;
        if (e == CUDA_ERROR_LAUNCH_FAILED)
            *s = LONG.c_str();
        c.res = *s ? CUDA_SUCCESS : CUDA_ERROR_INVALID_VALUE;
    }
    return done(c);
}
CUresult fCtxGet(CUcontext *o) {
    Call c{F_CTXGET};
    if (!inject(c))
        *o = current;
    return done(c);
}
CUresult fCtxDev(CUdevice *o) {
    Call c{F_CTXDEV};
    if (!inject(c)) {
        if (curdev < 0)
            c.res = CUDA_ERROR_INVALID_CONTEXT;
        else
            *o = curdev;
    }
    return done(c);
}
CUresult fCtxSet(CUcontext x) {
    Call c{F_CTXSET};
    c.arg = x;
    if (!inject(c))
        current = x;
    return done(c);
}
CUresult fGetIpc(CUipcMemHandle *o, CUdeviceptr p) {
    Call c{F_GETIPC};
    c.ptr = p;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        CHECK(drv.live.count(p), "C26:ipc-unknown", "IPC handle asked for memory the driver has not allocated at that address");
        uint64_t id = drv.nextid++;
        drv.exported[id] = p;
        for (int i = 0; i < 8; i++) {
            uint64_t v = i ? mix(id, i) : id;
            memcpy(o->reserved + 8 * i, &v, 8);
        }
        c.ipc = *o;
    }
    return done(c);
}
CUresult fOpenIpc(CUdeviceptr *o, CUipcMemHandle hnd, unsigned fl) {
    Call c{F_OPENIPC};
    c.flags = fl, c.ipc = hnd;
    uint64_t id;
    memcpy(&id, hnd.reserved, 8);
    for (int i = 1; i < 8; i++) {
        uint64_t v = mix(id, i);
        CHECK(!memcmp(hnd.reserved + 8 * i, &v, 8), "C26:open-garbled", "the driver is given an IPC handle it never made");
    }
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        CHECK(drv.exported.count(id), "C26:open-garbled", "the driver is given an IPC handle it never made");
        uintptr_t a = place(65536);
        if (!a)
            c.res = CUDA_ERROR_MAP_FAILED;
        else {
            drv.live[a] = {F_N, current, 65536};
            drv.opened[a] = 1;
            c.ptr = a;
            *o = a;
        }
    }
    return done(c);
}
CUresult fCloseIpc(CUdeviceptr p) {
    Call c{F_CLOSEIPC};
    c.ptr = p;
    if (!inject(c)) {
        std::lock_guard<std::mutex> g(drv.mu);
        if (!drv.opened.erase(p))
            viol("C26:close-unknown", "an IPC mapping is closed that is not open");
        else
            drv.live.erase(p);
    }
    return done(c);
}
const std::map<std::string, void *> &syms() {
    static const std::map<std::string, void *> *m = [] {
        void *f[F_N] = {(void *)fGran, (void *)fAlloc, (void *)fHost, (void *)fManaged, (void *)fFree, (void *)fFreeHost, (void *)fErrName,
                        (void *)fErrStr, (void *)fCtxGet, (void *)fCtxDev, (void *)fCtxSet, (void *)fGetIpc, (void *)fOpenIpc, (void *)fCloseIpc};
        auto *q = new std::map<std::string, void *>;
        for (int i = 0; i < F_N; i++)
            (*q)[FNAME[i]] = f[i];
        return q;
    }();
    return *m;
}
} // namespace
extern "C" {
void *__real_dlopen(const char *, int);
int __real_dlclose(void *);
void *__real_dlsym(void *, const char *);
void *__wrap_dlopen(const char *n, int f) {
    if (!n || !strstr(n, "libcuda.so"))
        return __real_dlopen(n, f);
    if (!lib.present)
        return __real_dlopen("/nonexistent/libcuda.so", f); // sets the text dlerror() gives
    lib.opens++;
    return &lib;
}
int __wrap_dlclose(void *l) {
    if (l != (void *)&lib)
        return __real_dlclose(l);
    CHECK(lib.opens > 0, "C26:lib-close", "the driver library is closed more often than opened");
    lib.opens--;
    return 0;
}
static void *libSym(const char *s) {
    auto it = syms().find(s);
    if (it == syms().end() || lib.missing.count(s))
        return __real_dlsym(RTLD_DEFAULT, "no_such_symbol_c26");
    return it->second;
}
// the sanitizer's runtime comes this way before it is ready
__attribute__((disable_sanitizer_instrumentation, no_sanitize("address", "undefined"))) void *__wrap_dlsym(void *l, const char *s) {
    return l == (void *)&lib ? libSym(s) : __real_dlsym(l, s);
}
}
namespace {
// ------------------------------------------------------------------ the model
const CUresult CODES[] = {CUDA_ERROR_INVALID_VALUE, CUDA_ERROR_OUT_OF_MEMORY,   CUDA_ERROR_NOT_INITIALIZED,  CUDA_ERROR_DEINITIALIZED,
                          CUDA_ERROR_INVALID_DEVICE, CUDA_ERROR_INVALID_CONTEXT, CUDA_ERROR_MAP_FAILED,       CUDA_ERROR_INVALID_HANDLE,
                          CUDA_ERROR_NOT_FOUND,      CUDA_ERROR_ILLEGAL_ADDRESS, CUDA_ERROR_LAUNCH_FAILED,    CUDA_ERROR_NOT_SUPPORTED,
                          CUDA_ERROR_UNKNOWN};
umf_result_t mapped(CUresult z) {
    switch (z) {
    case CUDA_SUCCESS:
        return UMF_RESULT_SUCCESS;
    case CUDA_ERROR_OUT_OF_MEMORY:
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    case CUDA_ERROR_INVALID_VALUE:
    case CUDA_ERROR_INVALID_HANDLE:
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    case CUDA_ERROR_DEINITIALIZED:
        return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
    default:
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
}
struct Conf {
    CUcontext ctx;
    int dev;
    umf_usm_memory_type_t type;
    unsigned flags;
    unsigned effFlags() const { return type == UMF_MEMORY_TYPE_SHARED && !flags ? (unsigned)CU_MEM_ATTACH_GLOBAL : flags; }
};
struct Prov {
    Conf c;
    umf_memory_provider_handle_t h = nullptr;
    std::map<uintptr_t, size_t> live;
    std::vector<uintptr_t> open;
    std::vector<std::pair<uintptr_t, std::unique_ptr<char[]>>> handles;
    size_t hs = 0;
};
CUcontext ctxOf(int i) { return (CUcontext)(contexts + i); }
void arm(Rng &r, unsigned num, unsigned den, unsigned span) {
    tlog.clear();
    injected = false;
    fail_in = -1;
    fail_fn = -1;
    if (r.chance(num, den)) {
        fail_in = (int64_t)r.below(span);
        fail_burst = r.chance(1, 4) ? 1 : 0;
        fail_code = CODES[r.below(sizeof CODES / sizeof *CODES)];
    }
}
void disarm() { fail_in = -1; }
CUcontext someCtx(Rng &r, bool null = true) {
    int k = (int)r.below(NCTX + (null ? 1 : 0));
    return k == NCTX ? nullptr : ctxOf(k);
}
// what the calls of one operation must obey; returns the calls that are not about contexts
std::vector<Call> look(const Conf &c, CUcontext before, const char *op) {
    std::vector<Call> w;
    bool ctxFault = false;
    for (auto &k : tlog) {
        cnt("driver_calls");
        if (k.res)
            cnt("driver_failures");
        if (k.fn == F_CTXGET || k.fn == F_CTXSET) {
            ctxFault |= k.res != CUDA_SUCCESS;
            continue;
        }
        CHECK(!k.bad, "C26:properties", "%s: wrong properties given to %s", op, FNAME[k.fn]);
        if (k.fn == F_ALLOC || k.fn == F_HOST || k.fn == F_MANAGED || k.fn == F_FREE || k.fn == F_FREEHOST || k.fn == F_OPENIPC) {
            CHECK(k.cur == c.ctx, "C26:context", "%s: %s is called while another context is current", op, FNAME[k.fn]);
            cnt("context_checked");
        }
        if (k.fn == F_GRAN)
            CHECK(k.dev == c.dev, "C26:device", "%s: device %d asked, the provider's is %d", op, k.dev, c.dev);
        w.push_back(k);
    }
    if (!ctxFault) {
        CHECK(current == before, "C26:restore", "%s: the thread's current context is changed", op);
        cnt(before == c.ctx ? "restored_same" : "restored_other");
    } else
        cnt("context_faults");
    current = before;
    return w;
}
// the result of an operation: of its own call if it was made, else of the failed change of the context
void judge(umf_memory_provider_handle_t h, umf_result_t q, const std::vector<Call> &w, const char *op) {
    CUresult want = CUDA_SUCCESS;
    bool own = !w.empty();
    if (own)
        want = w.back().res;
    else
        for (auto &k : tlog)
            if (k.res)
                want = k.res;
    CHECK(q == mapped(want), "C26:result", "%s: the driver said %d, the result is %d (expected %d)", op, want, q, mapped(want));
    if (q == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && mapped(want) == q) {
        const char *m = nullptr;
        int32_t e = -1;
        tlog.clear();
        umfMemoryProviderGetLastNativeError(h, &m, &e);
        CHECK(e == (int32_t)want, "C26:native", "%s: native error %d, the driver said %d", op, e, want);
        auto it = names().find(want);
        CHECK(m && strlen(m) > 0, "C26:native-text", "%s: no text of the native error", op);
        if (m && it != names().end())
            CHECK(strstr(m, it->second.first) && strstr(m, it->second.second), "C26:native-text", "%s: text '%.200s' of native error %d", op, m, want);
        cnt("native_checked");
    }
}
umf_cuda_memory_provider_params_handle_t mkParams(Rng &r, const Conf &c) {
    umf_cuda_memory_provider_params_handle_t p = nullptr;
    bool viaCurrent = r.chance(1, 3);
    CUcontext b = current;
    int bd = curdev;
    if (viaCurrent)
        current = c.ctx, curdev = c.dev;
    tlog.clear();
    umf_result_t q = umfCUDAMemoryProviderParamsCreate(&p);
    current = b, curdev = bd;
    if (q) {
        viol("C26:params", "ParamsCreate returned %d", q);
        return nullptr;
    }
    const int twice = r.chance(1, 3);
    for (int k = twice; k >= 0; k--) { // the last value counts
        Conf x = k ? Conf{someCtx(r), (int)r.below(8), (umf_usm_memory_type_t)r.below(5), (unsigned)r.below(8)} : c;
        if (!viaCurrent || k) {
            umfCUDAMemoryProviderParamsSetContext(p, x.ctx);
            umfCUDAMemoryProviderParamsSetDevice(p, x.dev);
            if (k)
                viaCurrent = false;
        }
        if (k || twice || x.type != UMF_MEMORY_TYPE_UNKNOWN) // unknown unless set
            umfCUDAMemoryProviderParamsSetMemoryType(p, x.type);
        if (x.flags || twice || r.chance(1, 2))
            umfCUDAMemoryProviderParamsSetAllocFlags(p, x.flags);
    }
    if (viaCurrent)
        cnt("default_context");
    return p;
}
void spoil(Rng &r, umf_cuda_memory_provider_params_handle_t p) {
    if (r.chance(1, 2)) {
        umfCUDAMemoryProviderParamsSetContext(p, someCtx(r));
        umfCUDAMemoryProviderParamsSetDevice(p, (int)r.below(8));
        umfCUDAMemoryProviderParamsSetMemoryType(p, (umf_usm_memory_type_t)r.below(4));
        umfCUDAMemoryProviderParamsSetAllocFlags(p, (unsigned)r.next());
    }
    umfCUDAMemoryProviderParamsDestroy(p);
}
Conf randConf(Rng &r, bool *valid) {
    static const umf_usm_memory_type_t T[] = {UMF_MEMORY_TYPE_HOST, UMF_MEMORY_TYPE_DEVICE, UMF_MEMORY_TYPE_SHARED};
    Conf c{someCtx(r, false), (int)r.below(8), T[r.below(3)], r.chance(1, 2) ? 0u : (unsigned)r.below(8)};
    *valid = true;
    if (r.chance(1, 12)) {
        *valid = false;
        switch (r.below(4)) {
        case 0: c.ctx = nullptr; break;
        case 1: c.dev = -1 - (int)r.below(3); break;
        case 2: c.type = UMF_MEMORY_TYPE_UNKNOWN; break;
        case 3: c.type = (umf_usm_memory_type_t)(UMF_MEMORY_TYPE_SHARED + 1 + r.below(3)); break;
        }
    }
    return c;
}
bool makeProv(Rng &r, Prov &P, bool faults) {
    bool valid;
    P.c = randConf(r, &valid);
    auto *p = mkParams(r, P.c);
    if (!p)
        return false;
    if (r.chance(1, 40)) {
        umf_memory_provider_handle_t none = nullptr;
        umf_cuda_memory_provider_params_handle_t np = nullptr;
        umf_result_t c[] = {umfCUDAMemoryProviderParamsCreate(nullptr),
                            umfCUDAMemoryProviderParamsSetContext(nullptr, current),
                            umfCUDAMemoryProviderParamsSetDevice(nullptr, 1),
                            umfCUDAMemoryProviderParamsSetMemoryType(nullptr, UMF_MEMORY_TYPE_HOST),
                            umfCUDAMemoryProviderParamsSetAllocFlags(nullptr, 1),
                            umfMemoryProviderCreate(umfCUDAMemoryProviderOps(), np, &none)};
        for (int k = 0; k < 6; k++)
            CHECK(c[k] == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C26:missing-argument", "missing argument %d: %d", k, c[k]);
        CHECK(umfCUDAMemoryProviderParamsDestroy(nullptr) == UMF_RESULT_SUCCESS, "C26:missing-argument", "destroying no parameters is an error");
        CHECK(!none, "C26:missing-argument", "a refused creation gave a provider");
        cnt("missing_arguments");
    }
#ifndef NO_BA
    if (r.chance(1, 20)) { // no memory for the provider
        umf_memory_provider_handle_t none = nullptr;
        uint64_t i0 = ba::st.injected;
        ba::fail_at = 1 + (int)r.below(2);
        ba::enabled_failing = true;
        umf_result_t q = umfMemoryProviderCreate(umfCUDAMemoryProviderOps(), p, &none);
        ba::enabled_failing = false;
        ba::fail_at = -1;
        if (ba::st.injected != i0) {
            CHECK(q == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || (!valid && q == UMF_RESULT_ERROR_INVALID_ARGUMENT), "C26:no-memory", "without memory: create returned %d", q);
            cnt("creates_without_memory");
        }
        if (!q)
            umfMemoryProviderDestroy(none);
        tlog.clear();
    }
#endif
    arm(r, faults ? 1 : 0, 6, 1);
    CUcontext b = current;
    umf_result_t q = umfMemoryProviderCreate(umfCUDAMemoryProviderOps(), p, &P.h);
    disarm();
    spoil(r, p);
    if (!valid) {
        CHECK(q == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C26:invalid-config", "context %p device %d type %d: create returned %d", (void *)P.c.ctx, P.c.dev, (int)P.c.type, q);
        cnt("invalid_configs");
        if (!q)
            umfMemoryProviderDestroy(P.h);
        return false;
    }
    auto w = look(P.c, b, "create");
    CUresult want = CUDA_SUCCESS;
    for (auto &k : tlog)
        if (k.res)
            want = k.res;
    CHECK(q == mapped(want), "C26:create", "the driver said %d, create returned %d", want, q);
    if (q) {
        cnt("failed_creates");
        return false;
    }
    umfMemoryProviderGetIPCHandleSize(P.h, &P.hs);
    CHECK(!strcmp(umfMemoryProviderGetName(P.h), "CUDA"), "C26:name", "the name is '%s'", umfMemoryProviderGetName(P.h));
    return true;
}
void history(Prov &P, Rng &r, bool faults, size_t n, bool shared = false) {
    Fn allocBy = P.c.type == UMF_MEMORY_TYPE_HOST ? F_HOST : P.c.type == UMF_MEMORY_TYPE_DEVICE ? F_ALLOC : F_MANAGED;
    Fn freeBy = P.c.type == UMF_MEMORY_TYPE_HOST ? F_FREEHOST : F_FREE;
    for (size_t i = 0; i < n; i++) {
        progress();
        if (r.chance(1, 4))
            current = r.chance(1, 3) ? P.c.ctx : someCtx(r);
        CUcontext b = current;
        switch (r.below(9)) {
        case 0: case 1: case 2: { // allocate
            size_t s = r.chance(1, 30) ? 0 : 1 + r.logsize(1 << 26), al = r.chance(1, 2) ? 0 : (size_t)1 << r.below(23);
            void *p = (void *)0x77;
            arm(r, faults, 4, 5);
            umf_result_t q = umfMemoryProviderAlloc(P.h, s, al, &p);
            disarm();
            auto w = look(P.c, b, "alloc");
            if (al > drv.gran[P.c.dev]) {
                CHECK(q == UMF_RESULT_ERROR_NOT_SUPPORTED && tlog.empty(), "C26:alignment", "alignment %zu above the granularity %zu: %d, %zu driver calls", al,
                      drv.gran[P.c.dev], q, tlog.size());
                cnt("alignment_refused");
                break;
            }
            if (!w.empty()) {
                CHECK(w[0].fn == allocBy && w[0].size == s, "C26:alloc-call", "allocation of %zu bytes of type %d: %s of %zu", s, (int)P.c.type, FNAME[w[0].fn], w[0].size);
                if (allocBy != F_ALLOC)
                    CHECK(w[0].flags == P.c.effFlags(), "C26:alloc-flags", "flags %#x given to %s, expected %#x", w[0].flags, FNAME[w[0].fn], P.c.effFlags());
            }
            if (!w.empty() && !w[0].res && al && w[0].ptr % al) { // the driver cannot be told: give it back
                CHECK(q == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "C26:misaligned", "memory at %#lx for alignment %zu: %d", w[0].ptr, al, q);
                bool ctxFault = false;
                for (auto &k : tlog)
                    ctxFault |= k.res != CUDA_SUCCESS;
                if (!ctxFault)
                    CHECK(w.size() == 2 && w[1].fn == freeBy && w[1].ptr == w[0].ptr, "C26:misaligned", "memory which is not aligned as asked is not given back");
                else { // the driver refused
                    std::lock_guard<std::mutex> g(drv.mu);
                    drv.live.erase(w[0].ptr);
                }
                cnt("misaligned");
                break;
            }
            CHECK(w.size() <= 1, "C26:alloc-call", "%zu driver calls for one allocation", w.size());
            if (!w.empty() || !q)
                CHECK(w.size() == 1, "C26:alloc-call", "an allocation without a driver call");
            judge(P.h, q, w, "alloc");
            if (!q) {
                CHECK((uintptr_t)p == w[0].ptr, "C26:alloc-pointer", "the driver gave %#lx, the caller got %p", w[0].ptr, p);
                CHECK(!P.live.count((uintptr_t)p), "C26:alloc-twice", "memory handed out twice");
                P.live[(uintptr_t)p] = s;
                cnt("allocs");
            } else
                cnt("failed_allocs");
            break;
        }
        case 3: case 4: { // free
            if (P.live.empty())
                break;
            auto it = P.live.begin();
            std::advance(it, r.below(P.live.size()));
            bool exp = false;
            for (auto &x : P.handles)
                exp |= x.first == it->first;
            if (exp)
                break;
            arm(r, faults, 5, 4);
            umf_result_t q = umfMemoryProviderFree(P.h, (void *)it->first, it->second);
            disarm();
            auto w = look(P.c, b, "free");
            CHECK(w.size() <= 1, "C26:free-call", "%zu driver calls for one free", w.size());
            if (!w.empty())
                CHECK(w[0].fn == freeBy && w[0].ptr == it->first, "C26:free-call", "memory of type %d at %#lx is freed by %s of %#lx", (int)P.c.type, it->first, FNAME[w[0].fn], w[0].ptr);
            if (!q)
                CHECK(w.size() == 1, "C26:free-call", "a free without a driver call");
            judge(P.h, q, w, "free");
            if (!w.empty() && !w[0].res) {
                P.live.erase(it);
                cnt("frees");
            }
            break;
        }
        case 5: { // page sizes
            size_t z = 0x5a5a;
            bool rec = r.chance(1, 2);
            arm(r, faults, 4, 1);
            umf_result_t q = rec ? umfMemoryProviderGetRecommendedPageSize(P.h, r.logsize(1 << 30), &z)
                                 : umfMemoryProviderGetMinPageSize(P.h, P.live.empty() || r.chance(1, 2) ? nullptr : (void *)P.live.begin()->first, &z);
            disarm();
            auto w = look(P.c, b, "page size");
            judge(P.h, q, w, "page size");
            if (!q)
                CHECK(z == (rec ? drv.rec : drv.gran)[P.c.dev], "C26:page-size", "%s page size %zu, the device's is %zu", rec ? "recommended" : "minimum", z,
                      (rec ? drv.rec : drv.gran)[P.c.dev]);
            cnt("page_sizes");
            break;
        }
        case 6: { // export
            if (P.live.empty() || P.handles.size() > 6)
                break;
            auto it = P.live.begin();
            std::advance(it, r.below(P.live.size()));
            std::unique_ptr<char[]> d(new char[P.hs]);
            arm(r, faults, 4, 1);
            umf_result_t q = umfMemoryProviderGetIPCHandle(P.h, (void *)it->first, it->second, d.get());
            disarm();
            auto w = look(P.c, b, "get_ipc_handle");
            CHECK(w.size() == 1 && w[0].fn == F_GETIPC && w[0].ptr == it->first, "C26:export-call", "exporting %#lx: %zu driver calls", it->first, w.size());
            judge(P.h, q, w, "get_ipc_handle");
            if (!q)
                P.handles.push_back({it->first, std::move(d)});
            break;
        }
        case 7: { // open or close
            if (!P.open.empty() && r.chance(1, 2)) {
                size_t k = r.below(P.open.size());
                arm(r, faults, 4, 1);
                umf_result_t q = umfMemoryProviderCloseIPCHandle(P.h, (void *)P.open[k], 65536);
                disarm();
                auto w = look(P.c, b, "close_ipc_handle");
                CHECK(w.size() == 1 && w[0].fn == F_CLOSEIPC && w[0].ptr == P.open[k], "C26:close-call", "closing a mapping: %zu driver calls", w.size());
                judge(P.h, q, w, "close_ipc_handle");
                if (!q)
                    P.open.erase(P.open.begin() + k);
                break;
            }
            if (P.handles.empty() || P.open.size() > 8)
                break;
            auto &x = P.handles[r.below(P.handles.size())];
            std::unique_ptr<char[]> d(new char[P.hs]);
            memcpy(d.get(), x.second.get(), P.hs);
            void *m = nullptr;
            arm(r, faults, 4, 4);
            umf_result_t q = umfMemoryProviderOpenIPCHandle(P.h, d.get(), &m);
            disarm();
            auto w = look(P.c, b, "open_ipc_handle");
            CHECK(w.size() <= 1, "C26:open-call", "%zu driver calls for one open", w.size());
            if (!w.empty())
                CHECK(w[0].fn == F_OPENIPC && w[0].flags == CU_IPC_MEM_LAZY_ENABLE_PEER_ACCESS, "C26:open-call", "opening a handle: %s, flags %#x", FNAME[w[0].fn], w[0].flags);
            if (!q)
                CHECK(w.size() == 1, "C26:open-call", "an open without a driver call");
            judge(P.h, q, w, "open_ipc_handle");
            CHECK(!memcmp(d.get(), x.second.get(), P.hs), "C26:open-data", "the caller's handle is changed");
            if (!q) {
                CHECK((uintptr_t)m == w[0].ptr, "C26:open-pointer", "the driver mapped at %#lx, the caller got %p", w[0].ptr, m);
                P.open.push_back((uintptr_t)m);
                cnt("ipc_opened");
            } else if (!w.empty() && !w[0].res)
                viol("C26:open-lost", "a mapping is made but the open fails with %d", q);
            break;
        }
        case 8: { // put
            if (P.handles.empty())
                break;
            size_t k = r.below(P.handles.size());
            arm(r, 0, 1, 1);
            umf_result_t q = umfMemoryProviderPutIPCHandle(P.h, P.handles[k].second.get());
            look(P.c, b, "put_ipc_handle");
            CHECK(q == UMF_RESULT_SUCCESS, "C26:put", "put returned %d", q);
            P.handles.erase(P.handles.begin() + k);
            break;
        }
        }
    }
}
void finish(Prov &P, Rng &r) {
    arm(r, 0, 1, 1);
    for (auto m : P.open)
        CHECK(umfMemoryProviderCloseIPCHandle(P.h, (void *)m, 65536) == UMF_RESULT_SUCCESS, "C26:finish", "close failed");
    for (auto &x : P.live)
        CHECK(umfMemoryProviderFree(P.h, (void *)x.first, x.second) == UMF_RESULT_SUCCESS, "C26:finish", "free failed");
    P.open.clear(), P.live.clear(), P.handles.clear();
    umfMemoryProviderDestroy(P.h);
}
void empty(const char *when) {
    std::lock_guard<std::mutex> g(drv.mu);
    CHECK(drv.live.empty(), "C26:leak", "%s the driver still holds %zu allocations or mappings", when, drv.live.size());
    drv.live.clear();
    drv.opened.clear();
    drv.exported.clear();
    cnt("empty_checks");
}
void newWorld(Rng &r) {
    for (int i = 0; i < 8; i++) {
        drv.gran[i] = (size_t)512 << r.below(13);
        drv.rec[i] = drv.gran[i] << r.below(4);
    }
    drv.step = (size_t)256 << r.below(14);
    current = someCtx(r);
    curdev = (int)r.below(9) - 1;
}
void poolCase(Rng &r, Prov &P) { // a pool over the provider: its memory comes and goes through the driver alone
    umf_memory_pool_handle_t pool = nullptr;
    umf_disjoint_pool_params_handle_t d = nullptr;
    bool disj = r.chance(1, 2);
    umf_result_t q;
    if (disj) {
        umfDisjointPoolParamsCreate(&d);
        umfDisjointPoolParamsSetSlabMinSize(d, 65536);
        umfDisjointPoolParamsSetMaxPoolableSize(d, 32768);
        umfDisjointPoolParamsSetCapacity(d, r.below(3));
        umfDisjointPoolParamsSetMinBucketSize(d, 64);
        q = umfPoolCreate(umfDisjointPoolOps(), P.h, d, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pool);
        umfDisjointPoolParamsDestroy(d);
    } else
        q = umfPoolCreate(umfProxyPoolOps(), P.h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pool);
    if (q) {
        viol("C26:pool", "umfPoolCreate: %d", q);
        umfMemoryProviderDestroy(P.h);
        return;
    }
    std::map<uintptr_t, size_t> live;
    std::vector<std::pair<umf_ipc_handle_t, uintptr_t>> ex;
    std::vector<void *> open;
    umf_ipc_handler_handle_t hh = nullptr;
    umfPoolGetIPCHandler(pool, &hh);
    for (size_t i = r.range(5, 50); i; i--) {
        if (r.chance(1, 3))
            current = someCtx(r);
        CUcontext b = current;
        arm(r, 1, 6, 3);
        switch (r.below(6)) {
        case 0: case 1: case 2: {
            size_t s = 1 + r.logsize(1 << 18);
            void *p = umfPoolMalloc(pool, s);
            disarm();
            if (!p) {
                CHECK(injected, "C26:pool-alloc", "an allocation of %zu from a pool fails with a healthy driver: %d", s, umfPoolGetLastAllocationError(pool));
                break;
            }
            bool in = false;
            {
                std::lock_guard<std::mutex> g(drv.mu);
                auto it = drv.live.upper_bound((uintptr_t)p);
                in = it != drv.live.begin() && (--it, (uintptr_t)p + s <= it->first + it->second.size) && it->second.by != F_N;
            }
            CHECK(in, "C26:pool-memory", "a pool hands out %zu bytes that are not memory of the driver", s);
            live[(uintptr_t)p] = s;
            cnt("pool_allocs");
            break;
        }
        case 3: {
            disarm(); // what a pool does about a refused free is C02's and C13's business
            if (live.empty())
                break;
            auto it = live.begin();
            std::advance(it, r.below(live.size()));
            bool exp = false;
            for (auto &x : ex)
                exp |= x.second == it->first;
            if (exp)
                break;
            CHECK(umfPoolFree(pool, (void *)it->first) == UMF_RESULT_SUCCESS, "C26:pool-free", "umfPoolFree fails with a healthy driver");
            live.erase(it);
            break;
        }
        case 4: {
            if (live.empty() || ex.size() > 4)
                break;
            umf_ipc_handle_t h = nullptr;
            size_t sz = 0;
            auto it = live.begin();
            std::advance(it, r.below(live.size()));
            umf_result_t g = umfGetIPCHandle((void *)it->first, &h, &sz);
            disarm();
            if (g)
                CHECK(injected, "C26:pool-export", "umfGetIPCHandle fails with a healthy driver: %d", g);
            else
                ex.push_back({h, it->first});
            break;
        }
        case 5: {
            if (ex.empty())
                break;
            void *m = nullptr;
            umf_result_t g = umfOpenIPCHandle(hh, ex[r.below(ex.size())].first, &m);
            disarm();
            if (g)
                CHECK(injected, "C26:pool-open", "umfOpenIPCHandle fails with a healthy driver: %d", g);
            else {
                open.push_back(m);
                cnt("pool_opens");
            }
            break;
        }
        }
        disarm();
        look(P.c, b, "pool operation");
    }
    arm(r, 0, 1, 1);
    for (auto *m : open)
        CHECK(umfCloseIPCHandle(m) == UMF_RESULT_SUCCESS, "C26:pool-close", "umfCloseIPCHandle fails with a healthy driver");
    for (auto &x : ex)
        umfPutIPCHandle(x.first);
    for (auto &x : live)
        CHECK(umfPoolFree(pool, (void *)x.first) == UMF_RESULT_SUCCESS, "C26:pool-free", "umfPoolFree fails with a healthy driver");
    umfPoolDestroy(pool);
    cnt("pools");
}
void provCase(Rng &r) {
    label("histories");
    newWorld(r);
#ifndef NO_BA
    static bool warm = false;
    if (!warm) { // the library's own objects
        warm = true;
        Prov W;
        umf_cuda_memory_provider_params_handle_t p = nullptr;
        umfCUDAMemoryProviderParamsCreate(&p);
        umfCUDAMemoryProviderParamsDestroy(p);
    }
    uint64_t s0 = ba::serial();
    int64_t l0 = ba::st.live_blocks;
#endif
    size_t np = r.range(1, 3);
    std::vector<Prov> P(np);
    for (auto &p : P) {
        if (!makeProv(r, p, true)) {
            p.h = nullptr;
            continue;
        }
    }
    bool pool = r.chance(1, 4);
    size_t rounds = r.range(1, 4);
    for (auto &p : P) {
        if (!p.h)
            continue;
        if (pool)
            poolCase(r, p);
    }
    if (!pool) {
        for (size_t k = 0; k < rounds; k++)
            for (auto &p : P)
                if (p.h)
                    history(p, r, true, r.range(5, 25));
        for (auto &p : P)
            if (p.h)
                finish(p, r);
    }
    empty("after everything was destroyed");
#ifndef NO_BA
    if (!pool) // pools and trackers keep free metadata
        CHECK(ba::st.live_blocks == l0, "C26:leak-metadata", "%ld metadata blocks are left: %s", (long)(ba::st.live_blocks - l0), ba::leaks(s0).c_str());
#endif
    sig(r.s);
}
void libCase(Rng &r) {
    label("driver library");
    newWorld(r);
    umfTearDown(); // the constructor's use
    for (size_t k = r.range(2, 5); k; k--) {
        progress();
        CHECK(lib.opens == 0, "C26:lib-leak", "the driver library is held open %d times after teardown", (int)lib.opens);
        lib.opens = 0;
        lib.missing.clear();
        lib.present = !r.chance(1, 4);
        bool ok = lib.present;
        if (lib.present && r.chance(1, 3)) {
            lib.missing.insert(FNAME[r.below(F_N)]);
            ok = false;
        }
        CHECK(umfInit() == 0, "C26:init", "umfInit failed");
        for (size_t t = r.below(4); t; t--) {
            arm(r, 0, 1, 1);
            if (!ok) {
                umf_cuda_memory_provider_params_handle_t p = nullptr;
#ifndef NO_BA
                int64_t l0 = ba::st.live_blocks;
#endif
                umf_result_t q = umfCUDAMemoryProviderParamsCreate(&p);
                CHECK(q == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, "C26:lib-missing", "driver library %s: ParamsCreate returned %d",
                      lib.present ? "incomplete" : "missing", q);
#ifndef NO_BA
                CHECK(q == UMF_RESULT_SUCCESS || ba::st.live_blocks == l0, "C26:params-leak", "a failed ParamsCreate leaves %ld blocks", (long)(ba::st.live_blocks - l0));
#endif
                CHECK(lib.opens == 0, "C26:lib-leak", "an unusable driver library is kept open");
                cnt("lib_unavailable");
                continue;
            }
            Prov P;
            if (!makeProv(r, P, false))
                continue;
            history(P, r, false, r.range(3, 15));
            finish(P, r);
            empty("after the provider is destroyed");
            cnt("lib_providers");
        }
        umfTearDown();
        cnt("lib_cycles");
    }
    CHECK(lib.opens == 0, "C26:lib-leak", "the driver library is held open %d times after teardown", (int)lib.opens);
    lib.present = true;
    lib.missing.clear();
    umfInit();
    sig(r.s);
}
void mtCase(Rng &r) {
    label("threads");
    newWorld(r);
    std::vector<Prov> shared(r.range(1, 2));
    for (auto &p : shared)
        while (!makeProv(r, p, false)) {
        }
    size_t nt = r.range(2, 4);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++) {
        uint64_t seed = r.next();
        ts.emplace_back([&, seed] {
            Rng q(seed);
            current = someCtx(q);
            curdev = (int)q.below(8);
            Prov own;
            bool mine = makeProv(q, own, true);
            Prov views[2];
            for (size_t k = 0; k < shared.size(); k++)
                views[k].c = shared[k].c, views[k].h = shared[k].h, views[k].hs = shared[k].hs;
            for (int k = 0; k < 4; k++) {
                Prov &v = views[q.below(shared.size())];
                history(v, q, true, q.range(3, 12), true);
                if (mine)
                    history(own, q, true, q.range(2, 8));
            }
            arm(q, 0, 1, 1);
            for (auto &v : views) {
                for (auto m : v.open)
                    CHECK(umfMemoryProviderCloseIPCHandle(v.h, (void *)m, 65536) == UMF_RESULT_SUCCESS, "C26:finish", "close failed");
                for (auto &x : v.live)
                    CHECK(umfMemoryProviderFree(v.h, (void *)x.first, x.second) == UMF_RESULT_SUCCESS, "C26:finish", "free failed");
            }
            if (mine)
                finish(own, q);
            cnt("mt_threads");
        });
    }
    for (auto &t : ts)
        t.join();
    for (auto &p : shared)
        umfMemoryProviderDestroy(p.h);
    empty("after the threads are done");
    CHECK(lib.opens <= 1, "C26:lib-opens", "the driver library is opened %d times", (int)lib.opens);
    sig(r.s);
}
} // namespace

void harness_begin() {
    arena = (uintptr_t)mmap(nullptr, 1ul << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_end = arena + (1ul << 36);
    arena_next = arena;
    contexts = new Context[NCTX + 1];
}
void run_case(uint64_t, Rng &r) {
    if (ctx().mode == "prov")
        provCase(r);
    else if (ctx().mode == "lib")
        libCase(r);
    else
        mtCase(r);
}
void harness_end() {}
