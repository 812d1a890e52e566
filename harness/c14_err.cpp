// C14: what the error queries say after a failure, in the thread that failed,
// while other threads fail in other ways.
#ifndef NO_BA
#include "ba.hpp"
#endif
#include "provs.hpp"
#include "sched.hpp"
#include <hwloc.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>

using namespace h;

// ------------------------------------------------- failing system calls
namespace {
thread_local int fail_mmap, fail_munmap, fail_madvise, fail_bind; // errno of the next calls
}
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
int __real_hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if (fail_mmap) {
        errno = fail_mmap;
        return MAP_FAILED;
    }
    return __real_mmap(a, n, p, f, fd, o);
}
int __wrap_munmap(void *a, size_t n) {
    if (fail_munmap) {
        errno = fail_munmap;
        return -1;
    }
    return __real_munmap(a, n);
}
int __wrap_madvise(void *a, size_t n, int ad) {
    if (fail_madvise) {
        errno = fail_madvise;
        return -1;
    }
    return __real_madvise(a, n, ad);
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t n, hwloc_const_bitmap_t b, hwloc_membind_policy_t p, int f) {
    if (fail_bind) {
        errno = fail_bind;
        return -1;
    }
    return __real_hwloc_set_area_membind(t, a, n, b, p, f);
}
}

namespace {
const int errnos[] = {ENOMEM, EINVAL, EAGAIN, EPERM, EIO, EFAULT, ENODEV, EACCES, EOVERFLOW};

// ------------------------------------------------- a provider failing per thread
struct Fail {
    umf_result_t code = UMF_RESULT_SUCCESS; // of the next operations of this thread
    int32_t native = 0;
    char msg[64] = "";
    uint64_t asked = 0, failed = 0;
};
thread_local Fail tf;
std::atomic<uint64_t> nfailed{0};
struct MP {
    umf_memory_provider_handle_t h = nullptr;
    int id = 0;
};
umf_result_t op() {
    tf.asked++;
    if (tf.code != UMF_RESULT_SUCCESS)
        tf.failed++;
    return tf.code;
}
umf_result_t mInit(void *p, void **priv) {
    *priv = p;
    return UMF_RESULT_SUCCESS;
}
void mFini(void *) {}
umf_result_t mAlloc(void *, size_t n, size_t a, void **out) {
    if (op() != UMF_RESULT_SUCCESS) {
        *out = nullptr;
        return tf.code;
    }
    if (n > (64u << 20)) {
        *out = nullptr;
        tf.failed++;
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    if (a < 4096)
        a = 4096;
    *out = aligned_alloc(a, pv::up(n, a));
    return *out ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
}
umf_result_t mFree(void *, void *p, size_t n) {
    if (op() != UMF_RESULT_SUCCESS)
        return tf.code;
    pv::Prov::unpoison(p, n); // the pool left it marked
    free(p);
    return UMF_RESULT_SUCCESS;
}
void mErr(void *, const char **m, int32_t *e) {
    *m = tf.msg;
    *e = tf.native;
}
umf_result_t mPage(void *, size_t, size_t *o) {
    *o = 4096;
    return op();
}
umf_result_t mPageMin(void *, void *, size_t *o) {
    *o = 4096;
    return op();
}
umf_result_t mPurge(void *, void *, size_t) { return op(); }
umf_result_t mSplit(void *, void *, size_t, size_t) { return op(); }
umf_result_t mMerge(void *, void *, void *, size_t) { return op(); }
const char *mName(void *) { return "failing"; }
umf_result_t mIS(void *, size_t *o) {
    *o = 8;
    return op();
}
umf_result_t mIG(void *, const void *, size_t, void *) { return op(); }
umf_result_t mIP(void *, void *) { return op(); }
umf_result_t mIO(void *, void *, void **o) {
    *o = nullptr;
    return op();
}
umf_result_t mIC(void *, void *, size_t) { return op(); }
umf_memory_provider_ops_t mOps() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = mInit;
    o.finalize = mFini;
    o.alloc = mAlloc;
    o.free = mFree;
    o.get_last_native_error = mErr;
    o.get_recommended_page_size = mPage;
    o.get_min_page_size = mPageMin;
    o.get_name = mName;
    o.ext = {mPurge, mPurge, mMerge, mSplit};
    o.ipc = {mIS, mIG, mIP, mIO, mIC};
    return o;
}
const umf_result_t codes[] = {UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_INVALID_ARGUMENT,
                              UMF_RESULT_ERROR_INVALID_ALIGNMENT, UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_USER_SPECIFIC,
                              UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, UMF_RESULT_ERROR_UNKNOWN};

MP mkProv() {
    MP p;
    umf_memory_provider_ops_t o = mOps();
    umf_result_t rc = umfMemoryProviderCreate(&o, nullptr, &p.h);
    if (rc != UMF_RESULT_SUCCESS)
        viol("C14:setup", "creating a provider = %d", rc);
    return p;
}

// run body(t, rng) in several threads
void threads(Rng &r, bool det, int maxt, const std::function<void(int, Rng &)> &body) {
    int nt = (int)r.range(2, (uint64_t)maxt);
    uint64_t seeds[8];
    for (auto &x : seeds)
        x = r.next();
    if (det) {
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < nt; t++)
            fs.push_back([&, t] {
                Rng q(seeds[t]);
                body(t, q);
            });
        auto res = sched::run(fs, r.next(), sched::random_params(r));
        sig(res.hash);
        return;
    }
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Rng q(seeds[t]);
            ready++;
            while (ready < nt)
                ;
            body(t, q);
        });
    for (auto &t : ts)
        t.join();
    sig(mix(r.next(), (uint64_t)nt));
}

// ------------------------------------------------- the last failed provider
umf_result_t anyOp(umf_memory_provider_handle_t p, Rng &q, std::vector<std::pair<void *, size_t>> &mem, const char **name) {
    char d[16];
    size_t s;
    void *o;
    switch (q.below(13)) {
    case 0:
    case 1: {
        *name = "alloc";
        size_t n = q.range(1, 100);
        umf_result_t rc = umfMemoryProviderAlloc(p, n, 0, &o);
        if (rc == UMF_RESULT_SUCCESS)
            mem.push_back({o, n});
        return rc;
    }
    case 2: {
        *name = "free";
        if (mem.empty())
            return umfMemoryProviderFree(p, nullptr, 0);
        auto m = mem.back();
        umf_result_t rc = umfMemoryProviderFree(p, m.first, m.second);
        if (rc == UMF_RESULT_SUCCESS)
            mem.pop_back();
        return rc;
    }
    case 3: *name = "recommended page size"; return umfMemoryProviderGetRecommendedPageSize(p, 1, &s);
    case 4: *name = "minimum page size"; return umfMemoryProviderGetMinPageSize(p, nullptr, &s);
    case 5: *name = "lazy purge"; return umfMemoryProviderPurgeLazy(p, d, 1);
    case 6: *name = "forced purge"; return umfMemoryProviderPurgeForce(p, d, 1);
    case 7: *name = "split"; return umfMemoryProviderAllocationSplit(p, d, 2, 1);
    case 8: *name = "merge"; return umfMemoryProviderAllocationMerge(p, d, d + 1, 2);
    case 9: *name = "IPC handle size"; return umfMemoryProviderGetIPCHandleSize(p, &s);
    case 10: *name = "get IPC handle"; return umfMemoryProviderGetIPCHandle(p, d, 1, d);
    case 11: *name = "open IPC handle"; return umfMemoryProviderOpenIPCHandle(p, d, &o);
    default: *name = "put or close IPC handle"; return q.chance(1, 2) ? umfMemoryProviderPutIPCHandle(p, d) : umfMemoryProviderCloseIPCHandle(p, d, 1);
    }
}

void last_case(Rng &r, bool det) {
    label("last failed provider");
    MP ps[3] = {mkProv(), mkProv(), mkProv()};
    int n = det ? 6 : (int)r.range(20, 200);
    threads(r, det, det ? 3 : 4, [&](int t, Rng &q) {
        tf = Fail();
        std::vector<std::pair<void *, size_t>> mem[3];
        CHECK(umfGetLastFailedMemoryProvider() == nullptr, "C14:fresh-thread", "a thread that had no failure sees a failed provider");
        umf_memory_provider_handle_t expect = nullptr;
        for (int i = 0; i < n; i++) {
            int k = (int)q.below(3);
            bool fails = q.chance(1, 2);
            tf.code = fails ? codes[q.below(8)] : UMF_RESULT_SUCCESS;
            tf.native = t * 1000 + i;
            snprintf(tf.msg, sizeof tf.msg, "thread %d step %d", t, i);
            uint64_t f0 = tf.failed;
            const char *nm = "";
            umf_result_t rc;
            bool ctlf = false;
            if (q.chance(1, 15)) { // refused before it reaches the provider
                rc = umfMemoryProviderAlloc(nullptr, 1, 0, nullptr);
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C14:refusal", "umfMemoryProviderAlloc(NULL) = %d", rc);
                ctlf = true;
            } else {
                rc = anyOp(ps[k].h, q, mem[k], &nm);
                CHECK(rc == tf.code || tf.failed == f0, "C14:code", "%s returns %d, the provider returned %d", nm, rc, tf.code);
                if (rc != UMF_RESULT_SUCCESS)
                    expect = ps[k].h;
            }
            umf_memory_provider_handle_t got = umfGetLastFailedMemoryProvider();
            if (ctlf) {
                // documented for providers that return a failure; a refused call may or may not count
                if (got == nullptr)
                    expect = nullptr;
            }
            CHECK(got == expect, "C14:last-failed", "after %s returned %d the last failed provider is %p instead of %p", nm, rc, (void *)got, (void *)expect);
            if (expect && rc == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                const char *m = nullptr;
                int32_t e = 0;
                umfMemoryProviderGetLastNativeError(got, &m, &e);
                CHECK(m && e == tf.native && !strcmp(m, tf.msg), "C14:native", "the native error of another operation is given: %d '%s'", e, m ? m : "");
            }
            if (rc != UMF_RESULT_SUCCESS)
                cnt("failures");
            if ((i & 15) == 0)
                progress();
        }
        tf.code = UMF_RESULT_SUCCESS;
        for (int k = 0; k < 3; k++)
            for (auto &m : mem[k])
                umfMemoryProviderFree(ps[k].h, m.first, m.second);
    });
    for (auto &p : ps)
        umfMemoryProviderDestroy(p.h);
}

// ------------------------------------------------- native errors of the built-in providers
struct Seen { // a message given out earlier in this thread
    const char *p = nullptr;
    std::string s;
};
void checkNative(umf_memory_provider_handle_t h, const char *what, int32_t code, int err, bool errRequired, Seen &seen) {
    const char *m = nullptr;
    int32_t e = 0;
    CHECK(umfGetLastFailedMemoryProvider() == h, "C14:last-failed", "%s: another provider is named as the last one that failed", what);
    umfMemoryProviderGetLastNativeError(h, &m, &e);
    CHECK(e == code, "C14:native-code", "%s: the native error is %d instead of %d", what, e, code);
    if (!m) {
        viol("C14:native-message", "%s: no message", what);
        return;
    }
    size_t n = strnlen(m, 2000);
    CHECK(n > 0 && n < 1024, "C14:native-message", "%s: a message of %zu characters", what, n);
    std::string s(m, n);
    for (char c : s)
        CHECK(c >= 32 && c < 127, "C14:native-message", "%s: the message contains the character %d", what, c);
    if (errRequired)
        CHECK(s.find(strerror(err)) != std::string::npos, "C14:native-message", "%s failed with '%s' but the message is '%s'", what, strerror(err), s.c_str());
    // no other system error is mentioned
    for (int x : errnos)
        if (x != err && s.find(strerror(x)) != std::string::npos && !strstr(strerror(err), strerror(x)))
            viol("C14:native-foreign", "%s failed with '%s' but the message is '%s'", what, strerror(err), s.c_str());
    seen.p = m;
    seen.s = s;
    cnt("native_checked");
}

struct Built {
    umf_memory_provider_handle_t os = nullptr, bound = nullptr, shared = nullptr, fixed = nullptr, file = nullptr, sfile = nullptr;
    void *fmem = nullptr;
    void *sfmem = nullptr;
    std::string path, spath;
} bt;

void buildAll() {
    umf_os_memory_provider_params_handle_t p = nullptr;
    umfOsMemoryProviderParamsCreate(&p);
    umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &bt.os);
    unsigned node = 0;
    umfOsMemoryProviderParamsSetNumaMode(p, UMF_NUMA_MODE_BIND);
    umfOsMemoryProviderParamsSetNumaList(p, &node, 1);
    umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &bt.bound);
    umfOsMemoryProviderParamsDestroy(p);
    umfOsMemoryProviderParamsCreate(&p);
    umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
    umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &bt.shared);
    umfOsMemoryProviderParamsDestroy(p);
    bt.fmem = aligned_alloc(4096, 1 << 20);
    umf_fixed_memory_provider_params_handle_t fp = nullptr;
    umfFixedMemoryProviderParamsCreate(&fp, bt.fmem, 1 << 20);
    umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &bt.fixed);
    umfFixedMemoryProviderParamsDestroy(fp);
    const char *s = getenv("VERIF_SCRATCH");
    bt.path = std::string(s ? s : "/tmp") + "/err_" + std::to_string(getpid());
    umf_file_memory_provider_params_handle_t f = nullptr;
    umfFileMemoryProviderParamsCreate(&f, bt.path.c_str());
    umfMemoryProviderCreate(umfFileMemoryProviderOps(), f, &bt.file);
    umfFileMemoryProviderParamsDestroy(f);
    bt.spath = bt.path + "_s";
    umfFileMemoryProviderParamsCreate(&f, bt.spath.c_str());
    umfFileMemoryProviderParamsSetVisibility(f, UMF_MEM_MAP_SHARED);
    umfMemoryProviderCreate(umfFileMemoryProviderOps(), f, &bt.sfile);
    umfFileMemoryProviderParamsDestroy(f);
    CHECK(bt.sfile && umfMemoryProviderAlloc(bt.sfile, 8192, 0, &bt.sfmem) == UMF_RESULT_SUCCESS, "C14:setup", "no shared file memory");
    CHECK(bt.os && bt.bound && bt.shared && bt.fixed && bt.file, "C14:setup", "a provider could not be created");
}

void native_case(Rng &r) {
    label("native errors");
    int n = (int)r.range(20, 120);
    threads(r, false, 4, [&](int, Rng &q) {
        Seen seen;
        if (q.chance(1, 4)) { // before any failure there is a readable message too
            const char *m = nullptr;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(q.chance(1, 2) ? bt.os : q.chance(1, 2) ? bt.fixed : bt.file, &m, &e);
            CHECK(m && strnlen(m, 2000) < 1024, "C14:native-message", "no message before the first failure");
        }
        for (int i = 0; i < n; i++) {
            int err = errnos[q.below(9)];
            void *p = nullptr;
            umf_result_t rc;
            const umf_result_t SP = UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
            umf_memory_provider_handle_t os = q.chance(1, 2) ? bt.os : q.chance(1, 2) ? bt.bound : bt.shared;
            // what was said earlier is still there
            if (seen.p)
                CHECK(!strcmp(seen.p, seen.s.c_str()), "C14:message-lost", "a message turned from '%s' into '%.200s'", seen.s.c_str(), seen.p);
            switch (q.below(11)) {
            case 0: {
                fail_mmap = err;
                rc = umfMemoryProviderAlloc(os, q.range(1, 100000), 0, &p);
                fail_mmap = 0;
                CHECK(rc == SP, "C14:code", "an OS allocation fails with %d", rc);
                if (rc == SP)
                    checkNative(os, "OS allocation", UMF_OS_RESULT_ERROR_ALLOC_FAILED, err, false, seen);
                break;
            }
            case 1: {
                rc = umfMemoryProviderAlloc(bt.os, (1ull << 52) + q.below(1000), 0, &p);
                CHECK(rc == SP, "C14:code", "a huge OS allocation gives %d", rc);
                if (rc == SP)
                    checkNative(bt.os, "huge OS allocation", UMF_OS_RESULT_ERROR_ALLOC_FAILED, ENOMEM, false, seen);
                break;
            }
            case 2: {
                size_t sz = q.range(1, 3) * 4096;
                rc = umfMemoryProviderAlloc(os, sz, 0, &p);
                CHECK(rc == UMF_RESULT_SUCCESS, "C14:setup", "an OS allocation gives %d", rc);
                if (rc != UMF_RESULT_SUCCESS)
                    break;
                if (q.chance(1, 2)) {
                    fail_munmap = err;
                    rc = umfMemoryProviderFree(os, p, sz);
                    fail_munmap = 0;
                    CHECK(rc == SP, "C14:code", "an OS free fails with %d", rc);
                    if (rc == SP)
                        checkNative(os, "OS free", UMF_OS_RESULT_ERROR_FREE_FAILED, err, true, seen);
                }
                if (q.chance(1, 2)) {
                    bool lazy = q.chance(1, 2);
                    fail_madvise = err;
                    rc = lazy ? umfMemoryProviderPurgeLazy(os, p, sz) : umfMemoryProviderPurgeForce(os, p, sz);
                    fail_madvise = 0;
                    CHECK(rc == SP, "C14:code", "an OS purge fails with %d", rc);
                    if (rc == SP)
                        checkNative(os, lazy ? "lazy OS purge" : "forced OS purge",
                                    lazy ? UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED : UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED, err, true, seen);
                }
                if (q.chance(1, 3)) { // successes in between change nothing
                    Seen before = seen;
                    void *p2 = nullptr;
                    umf_memory_provider_handle_t lf = umfGetLastFailedMemoryProvider();
                    if (umfMemoryProviderAlloc(bt.os, 4096, 0, &p2) == UMF_RESULT_SUCCESS)
                        umfMemoryProviderFree(bt.os, p2, 4096);
                    CHECK(umfGetLastFailedMemoryProvider() == lf, "C14:last-failed", "a success changed the last failed provider");
                }
                rc = umfMemoryProviderFree(os, p, sz);
                CHECK(rc == UMF_RESULT_SUCCESS, "C14:free", "an OS free gives %d", rc);
                break;
            }
            case 3: {
                fail_bind = err;
                rc = umfMemoryProviderAlloc(bt.bound, q.range(1, 3) * 4096, 0, &p);
                fail_bind = 0;
                CHECK(rc == SP, "C14:code", "an OS allocation that cannot be bound gives %d", rc);
                if (rc == SP)
                    checkNative(bt.bound, "binding", UMF_OS_RESULT_ERROR_BIND_FAILED, err, true, seen);
                break;
            }
            case 4: { // purging what cannot be purged, for real
                void *a = (char *)bt.fmem + 1 + q.below(4000);
                rc = umfMemoryProviderPurgeForce(bt.os, a, 4096);
                if (rc == SP)
                    checkNative(bt.os, "forced OS purge of unaligned memory", UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED, EINVAL, true, seen);
                break;
            }
            case 5: {
                fail_madvise = err;
                rc = umfMemoryProviderPurgeForce(bt.fixed, bt.fmem, 4096);
                fail_madvise = 0;
                CHECK(rc == SP, "C14:code", "a fixed provider's purge fails with %d", rc);
                if (rc == SP)
                    checkNative(bt.fixed, "forced purge of fixed memory", UMF_FIXED_RESULT_ERROR_PURGE_FORCE_FAILED, err, true, seen);
                break;
            }
            case 6: {
                fail_madvise = err;
                rc = umfMemoryProviderPurgeForce(bt.file, bt.fmem, 4096);
                fail_madvise = 0;
                CHECK(rc == SP, "C14:code", "a file provider's purge fails with %d", rc);
                if (rc == SP)
                    checkNative(bt.file, "forced purge of file memory", UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED, err, true, seen);
                break;
            }
            case 7: { // IPC
                size_t hs = 0;
                rc = umfMemoryProviderAlloc(bt.shared, 4096, 0, &p);
                if (rc != UMF_RESULT_SUCCESS)
                    break;
                umfMemoryProviderGetIPCHandleSize(bt.shared, &hs);
                std::vector<char> hd(hs);
                void *m = nullptr;
                rc = umfMemoryProviderGetIPCHandle(bt.shared, p, 4096, hd.data());
                CHECK(rc == UMF_RESULT_SUCCESS, "C14:setup", "an IPC handle: %d", rc);
                fail_mmap = err;
                rc = umfMemoryProviderOpenIPCHandle(bt.shared, hd.data(), &m);
                fail_mmap = 0;
                if (rc == SP) // duplicating the descriptor may not be allowed at all here
                    checkNative(bt.shared, "opening an IPC handle", UMF_OS_RESULT_ERROR_ALLOC_FAILED, err, true, seen);
                else
                    CHECK(rc != UMF_RESULT_SUCCESS && umfGetLastFailedMemoryProvider() == bt.shared, "C14:last-failed", "opening an IPC handle: %d", rc);
                fail_munmap = err;
                rc = umfMemoryProviderCloseIPCHandle(bt.shared, bt.fmem, 4096);
                fail_munmap = 0;
                CHECK(rc == SP, "C14:code", "closing an IPC mapping fails with %d", rc);
                if (rc == SP)
                    checkNative(bt.shared, "closing an IPC mapping", UMF_OS_RESULT_ERROR_FREE_FAILED, err, true, seen);
                umfMemoryProviderPutIPCHandle(bt.shared, hd.data());
                umfMemoryProviderFree(bt.shared, p, 4096);
                break;
            }
            case 8: { // a file that cannot be mapped
                umf_memory_provider_handle_t h = q.chance(1, 2) ? bt.file : bt.sfile;
                fail_mmap = err;
                rc = umfMemoryProviderAlloc(h, 65536, 0, &p);
                fail_mmap = 0;
                CHECK(rc != UMF_RESULT_SUCCESS, "C14:code", "a file allocation fails with %d", rc);
                if (rc == SP)
                    checkNative(h, "file allocation", UMF_FILE_RESULT_ERROR_ALLOC_FAILED, err, false, seen);
                break;
            }
            case 9: { // IPC with a file
                size_t hs = 0;
                umfMemoryProviderGetIPCHandleSize(bt.sfile, &hs);
                std::vector<char> hd(hs);
                void *m = nullptr;
                rc = umfMemoryProviderGetIPCHandle(bt.sfile, bt.sfmem, 8192, hd.data());
                CHECK(rc == UMF_RESULT_SUCCESS, "C14:setup", "a file IPC handle: %d", rc);
                if (rc != UMF_RESULT_SUCCESS)
                    break;
                fail_mmap = err;
                rc = umfMemoryProviderOpenIPCHandle(bt.sfile, hd.data(), &m);
                fail_mmap = 0;
                CHECK(rc == SP, "C14:code", "opening a file IPC handle fails with %d", rc);
                if (rc == SP)
                    checkNative(bt.sfile, "opening a file IPC handle", UMF_FILE_RESULT_ERROR_ALLOC_FAILED, err, true, seen);
                fail_munmap = err;
                rc = umfMemoryProviderCloseIPCHandle(bt.sfile, bt.fmem, 4096);
                fail_munmap = 0;
                CHECK(rc == SP, "C14:code", "closing a file IPC mapping fails with %d", rc);
                if (rc == SP)
                    checkNative(bt.sfile, "closing a file IPC mapping", UMF_FILE_RESULT_ERROR_FREE_FAILED, err, true, seen);
                umfMemoryProviderPutIPCHandle(bt.sfile, hd.data());
                break;
            }
            default: { // failures without a native error still name the provider
                rc = umfMemoryProviderAlloc(bt.fixed, 64u << 20, 0, &p);
                CHECK(rc != UMF_RESULT_SUCCESS && umfGetLastFailedMemoryProvider() == bt.fixed, "C14:last-failed", "an allocation beyond fixed memory gives %d", rc);
                rc = umfMemoryProviderPurgeLazy(bt.fixed, bt.fmem, 4096);
                CHECK(rc == UMF_RESULT_ERROR_NOT_SUPPORTED && umfGetLastFailedMemoryProvider() == bt.fixed, "C14:last-failed", "lazy purge of fixed memory gives %d", rc);
                rc = umfMemoryProviderAlloc(bt.os, 4096, 3 * 4096 + 1, &p);
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT || rc == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "C14:code", "a bad alignment gives %d", rc);
                CHECK(umfGetLastFailedMemoryProvider() == bt.os, "C14:last-failed", "a bad alignment: another provider is named");
            }
            }
            if ((i & 7) == 0)
                progress();
        }
    });
}

// ------------------------------------------------- pools
struct Pl {
    umf_memory_pool_handle_t h = nullptr;
    int kind = 0; // 0 disjoint 1 scalable 2 proxy
    MP up;
    size_t big = 0;
};
Pl mkPool(int kind, Rng &r) {
    Pl p;
    p.kind = kind;
    p.up = mkProv();
    umf_result_t rc = UMF_RESULT_SUCCESS;
    if (kind == 0) {
        umf_disjoint_pool_params_handle_t dp = nullptr;
        umfDisjointPoolParamsCreate(&dp);
        umfDisjointPoolParamsSetSlabMinSize(dp, 4096);
        umfDisjointPoolParamsSetMaxPoolableSize(dp, p.big = 8192);
        umfDisjointPoolParamsSetCapacity(dp, r.below(3));
        rc = umfPoolCreate(umfDisjointPoolOps(), p.up.h, dp, 0, &p.h);
        umfDisjointPoolParamsDestroy(dp);
    } else if (kind == 1) {
        rc = umfPoolCreate(umfScalablePoolOps(), p.up.h, nullptr, 0, &p.h);
        p.big = ~size_t(0);
    } else
        rc = umfPoolCreate(umfProxyPoolOps(), p.up.h, nullptr, 0, &p.h);
    CHECK(rc == UMF_RESULT_SUCCESS && p.h, "C14:setup", "creating pool %d = %d", kind, rc);
    return p;
}

void pool_case(Rng &r, bool det) {
    label("pool errors");
    tf = Fail();
    std::vector<Pl> ps;
    ps.push_back(mkPool(0, r));
#ifndef VARIANT_TSAN // the synchronization inside TBB is not visible
    if (!det)
        ps.push_back(mkPool(1, r));
#endif
    ps.push_back(mkPool(2, r));
    int n = det ? 5 : (int)r.range(20, 100);
    auto work = [&](int t, Rng &q) {
        tf = Fail();
        std::vector<std::pair<Pl *, void *>> live;
        for (int i = 0; i < n; i++) {
            Pl &p = ps[q.below(ps.size())];
            tf.code = q.chance(1, 2) ? codes[q.below(8)] : UMF_RESULT_SUCCESS;
            tf.native = t * 1000 + i;
            snprintf(tf.msg, sizeof tf.msg, "pool thread %d step %d", t, i);
            // an unrelated earlier error of this thread
            if (p.kind != 1 && q.chance(1, 3)) {
                void *x = umfPoolCalloc(p.h, 1, 8);
                umf_result_t e = umfPoolGetLastAllocationError(p.h);
                CHECK(!x && e == UMF_RESULT_ERROR_NOT_SUPPORTED, "C14:pool-error", "calloc of pool kind %d: %p error %d", p.kind, x, e);
                if (q.chance(1, 2)) {
                    x = umfPoolRealloc(p.h, nullptr, 8);
                    e = umfPoolGetLastAllocationError(p.h);
                    CHECK(!x && e == UMF_RESULT_ERROR_NOT_SUPPORTED, "C14:pool-error", "realloc of pool kind %d: %p error %d", p.kind, x, e);
                }
            }
            size_t sz = q.chance(1, 10) ? ~size_t(0) - q.below(5000) : q.chance(1, 8) ? q.range(65u << 20, 1u << 30) : q.logsize(det ? 30000 : 300000) + 1;
            size_t al = 0;
            uint64_t f0 = tf.failed, a0 = tf.asked;
            void *x;
            unsigned how = (unsigned)q.below(p.kind == 1 ? 4 : 2);
            if (how == 0)
                x = umfPoolMalloc(p.h, sz);
            else if (how == 1)
                x = umfPoolAlignedMalloc(p.h, sz, al = 1ull << q.below(13));
            else if (how == 2)
                x = umfPoolCalloc(p.h, 1 + q.below(4), sz);
            else
                x = umfPoolRealloc(p.h, nullptr, sz);
            bool asked = tf.asked != a0, failed = tf.failed != f0;
            if (!x) {
                umf_result_t e = umfPoolGetLastAllocationError(p.h);
                cnt("pool_failures");
                CHECK(e != UMF_RESULT_SUCCESS, "C14:pool-no-error", "pool kind %d: a failed allocation of %zu (alignment %zu) left no error", p.kind, sz, al);
                umf_result_t cause = tf.code != UMF_RESULT_SUCCESS ? tf.code : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
                bool ok;
                if (p.kind == 2 || (p.kind == 0 && sz > p.big)) // the provider's own answer
                    ok = failed ? e == cause : asked ? e != UMF_RESULT_ERROR_NOT_SUPPORTED : e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || e == UMF_RESULT_ERROR_INVALID_ARGUMENT || e == UMF_RESULT_ERROR_INVALID_ALIGNMENT;
                else if (p.kind == 0)
                    ok = e == cause || e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
                else
                    ok = e == cause || e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || e == UMF_RESULT_ERROR_UNKNOWN;
                CHECK(ok, "C14:pool-wrong-error", "pool kind %d: the provider failed with %d in an allocation of %zu (alignment %zu), the pool reports %d", p.kind, cause, sz, al, e);
                if (failed && tf.code != UMF_RESULT_SUCCESS) { // the failing provider, or the pool's view of it
                    umf_memory_provider_handle_t lf = umfGetLastFailedMemoryProvider();
                    const char *m = nullptr;
                    int32_t ne = 0;
                    if (lf)
                        umfMemoryProviderGetLastNativeError(lf, &m, &ne);
                    CHECK(lf && m && ne == tf.native && !strcmp(m, tf.msg), "C14:last-failed", "after a failed pool allocation the native error cannot be had: %d '%s'", ne, m ? m : "");
                }
            } else {
                memset(x, 1, std::min<size_t>(sz, 64));
                live.push_back({&p, x});
            }
            if (live.size() > 12 || (!live.empty() && q.chance(1, 3))) {
                size_t j = q.below(live.size());
                umf_result_t keep = tf.code;
                tf.code = UMF_RESULT_SUCCESS;
                umf_result_t rc = umfPoolFree(live[j].first->h, live[j].second);
                CHECK(rc == UMF_RESULT_SUCCESS, "C14:free", "umfPoolFree = %d", rc);
                tf.code = keep;
                live.erase(live.begin() + (long)j);
            }
            if ((i & 7) == 0)
                progress();
        }
        tf.code = UMF_RESULT_SUCCESS;
        for (auto &l : live)
            umfPoolFree(l.first->h, l.second);
    };
#ifndef NO_BA
    // one thread, and the metadata runs out too
    {
        Rng q(r.next());
        work(0, q);
        std::vector<std::pair<Pl *, void *>> live;
        for (int i = 0; i < 60; i++) {
            Pl &p = ps[q.below(ps.size())];
            if (p.kind != 1)
                umfPoolCalloc(p.h, 1, 8); // NOT_SUPPORTED stays behind
            ba::enabled_failing = true;
            ba::fail_at = 1 + (int64_t)q.below(5);
            uint64_t i0 = ba::st.injected;
            size_t sz = q.logsize(100000) + 1;
            void *x = q.chance(1, 2) ? umfPoolMalloc(p.h, sz) : umfPoolAlignedMalloc(p.h, sz, 1ull << q.below(13));
            ba::enabled_failing = false;
            ba::fail_at = 0;
            if (x)
                live.push_back({&p, x});
            else {
                umf_result_t e = umfPoolGetLastAllocationError(p.h);
                if (ba::st.injected != i0)
                    cnt("metadata_failures");
                CHECK(e != UMF_RESULT_SUCCESS && e != UMF_RESULT_ERROR_NOT_SUPPORTED, "C14:pool-no-error", "pool kind %d: without metadata an allocation of %zu fails with the error %d", p.kind, sz, e);
            }
            if (!live.empty() && q.chance(1, 2)) {
                umfPoolFree(live.back().first->h, live.back().second);
                live.pop_back();
            }
        }
        for (auto &l : live)
            umfPoolFree(l.first->h, l.second);
        sig(q.next());
    }
#else
    threads(r, det, det ? 3 : 4, work);
#endif
    tf = Fail();
    for (auto &p : ps) {
        umfPoolDestroy(p.h);
        umfMemoryProviderDestroy(p.up.h);
    }
}
} // namespace

void harness_begin() {
    if (ctx().mode == "native")
        buildAll();
}
void run_case(uint64_t idx, Rng &r) {
    if (ctx().mode == "native")
        native_case(r);
    else if (ctx().mode == "sched")
        idx % 2 ? last_case(r, true) : pool_case(r, true);
    else if (ctx().mode == "pool")
        pool_case(r, false);
    else
        idx % 2 ? last_case(r, false) : pool_case(r, false);
}
void harness_end() {
    if (ctx().mode == "native") {
        umfMemoryProviderFree(bt.sfile, bt.sfmem, 8192);
        for (auto p : {bt.os, bt.bound, bt.shared, bt.fixed, bt.file, bt.sfile})
            umfMemoryProviderDestroy(p);
        unlink(bt.path.c_str());
        unlink(bt.spath.c_str());
    }
}
