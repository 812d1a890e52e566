// OS memory provider: what it maps, unmaps, shares, binds, reports and counts.
// modes: main  - single-threaded histories with an exact mmap/munmap ledger
//        fault - the same with failing system calls and metadata allocations
//        mt    - concurrent histories (content, statistics, file offsets)
//        numa  - NUMA placement against a synthetic topology (C17)
#include "h.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include <cerrno>
#include <dirent.h>
#include <hwloc.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_provider.h>
#include <umf/providers/provider_os_memory.h>

#ifdef VARIANT_SCHED
#include "sched.hpp"
#endif

static const size_t PG = 4096;
static size_t rup(size_t v, size_t a = PG) { return (v + a - 1) / a * a; }

// ---------------------------------------------------------------- interposed system calls
struct Ledger { // address ranges the library has mapped and not yet unmapped
    std::map<uintptr_t, uintptr_t> r; // [first, second)
    void add(uintptr_t a, uintptr_t b) {
        sub(a, b);
        auto it = r.lower_bound(a);
        if (it != r.begin()) {
            auto p = std::prev(it);
            if (p->second == a) {
                a = p->first;
                r.erase(p);
            }
        }
        it = r.find(b);
        if (it != r.end()) {
            b = it->second;
            r.erase(it);
        }
        r[a] = b;
    }
    // returns the bytes that were really there
    size_t sub(uintptr_t a, uintptr_t b) {
        size_t n = 0;
        auto it = r.upper_bound(a);
        if (it != r.begin())
            --it;
        while (it != r.end() && it->first < b) {
            uintptr_t s = it->first, e = it->second;
            if (e <= a) {
                ++it;
                continue;
            }
            r.erase(it);
            uintptr_t cs = std::max(s, a), ce = std::min(e, b);
            n += ce - cs;
            if (s < cs)
                r[s] = cs;
            if (ce < e)
                r[ce] = e;
            it = r.upper_bound(ce > a ? ce - 1 : a);
            if (it != r.begin() && std::prev(it)->second > ce)
                --it;
        }
        return n;
    }
    size_t bytes() const {
        size_t n = 0;
        for (auto &x : r)
            n += x.second - x.first;
        return n;
    }
    bool covers(uintptr_t a, uintptr_t b) const {
        auto it = r.upper_bound(a);
        if (it == r.begin())
            return false;
        --it;
        return it->first <= a && it->second >= b;
    }
};
static Ledger led;
static thread_local bool tracking = false;
static int fail_mmap = -1, fail_munmap = -1, fail_bind = -1, fail_bind_errno = ENOMEM, fail_madvise = -1, fail_trunc = -1,
           fail_shm = -1, fail_load = -1, fail_bitmap = -1;
static uint64_t n_mmap, n_munmap, n_bad_munmap, n_injected;
static const char *synth = nullptr;
static long live_bitmaps = 0;
struct Bind {
    uintptr_t addr;
    size_t len;
    std::set<unsigned> nodes;
    int policy, flags;
};
static std::vector<Bind> binds;

static bool hit(int &c) {
    if (c < 0)
        return false;
    if (c-- == 0) {
        n_injected++;
        return true;
    }
    return false;
}

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if (!tracking)
        return __real_mmap(a, n, p, f, fd, o);
    n_mmap++;
    if (hit(fail_mmap)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = __real_mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED)
        led.add((uintptr_t)r, (uintptr_t)r + rup(n));
    return r;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n) {
    if (!tracking)
        return __real_munmap(a, n);
    n_munmap++;
    if (hit(fail_munmap)) {
        errno = ENOMEM;
        return -1;
    }
    if (n && !led.covers((uintptr_t)a, (uintptr_t)a + rup(n))) {
        n_bad_munmap++;
        h::viol("C06:munmap-foreign", "munmap(%p, %zu): that range is not mapped by the provider", a, n);
        return 0; // do not damage the process
    }
    int r = __real_munmap(a, n);
    if (r == 0)
        led.sub((uintptr_t)a, (uintptr_t)a + rup(n));
    return r;
}
int __real_hwloc_topology_load(hwloc_topology_t);
int __wrap_hwloc_topology_load(hwloc_topology_t t) {
    if (hit(fail_load)) {
        errno = ENOMEM;
        return -1;
    }
    if (synth)
        hwloc_topology_set_synthetic(t, synth);
    return __real_hwloc_topology_load(t);
}
int __real_hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *a, size_t n, hwloc_const_bitmap_t s, hwloc_membind_policy_t p,
                                  int f) {
    Bind b{(uintptr_t)a, n, {}, (int)p, f};
    unsigned i;
    hwloc_bitmap_foreach_begin(i, s) if (i > 64) break;
    b.nodes.insert(i);
    hwloc_bitmap_foreach_end();
    binds.push_back(b);
    if (hit(fail_bind)) {
        errno = fail_bind_errno;
        return -1;
    }
    return 0;
}
hwloc_bitmap_t __real_hwloc_bitmap_alloc(void);
hwloc_bitmap_t __wrap_hwloc_bitmap_alloc(void) {
    if (hit(fail_bitmap))
        return nullptr;
    live_bitmaps++;
    return __real_hwloc_bitmap_alloc();
}
hwloc_bitmap_t __real_hwloc_bitmap_dup(hwloc_const_bitmap_t);
hwloc_bitmap_t __wrap_hwloc_bitmap_dup(hwloc_const_bitmap_t b) {
    if (hit(fail_bitmap))
        return nullptr;
    live_bitmaps++;
    return __real_hwloc_bitmap_dup(b);
}
void __real_hwloc_bitmap_free(hwloc_bitmap_t);
void __wrap_hwloc_bitmap_free(hwloc_bitmap_t b) {
    if (b)
        live_bitmaps--;
    __real_hwloc_bitmap_free(b);
}
int __real_madvise(void *, size_t, int);
int __wrap_madvise(void *a, size_t n, int adv) {
    if (hit(fail_madvise)) {
        errno = EAGAIN;
        return -1;
    }
    return __real_madvise(a, n, adv);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n) {
    if (hit(fail_trunc)) {
        errno = ENOSPC;
        return -1;
    }
    return __real_ftruncate(fd, n);
}
int __real_shm_open(const char *, int, mode_t);
int __wrap_shm_open(const char *n, int f, mode_t m) {
    if (hit(fail_shm)) {
        errno = EACCES;
        return -1;
    }
    return __real_shm_open(n, f, m);
}
}
static void clearFaults() {
    fail_mmap = fail_munmap = fail_bind = fail_madvise = fail_trunc = fail_shm = fail_load = fail_bitmap = -1;
#ifndef NO_BA
    ba::fail_at = -1;
    ba::enabled_failing = false;
#endif
}
struct Track { // the library's own system calls are recorded while one is alive
    Track() { tracking = true; }
    ~Track() { tracking = false; }
};

static int countFds() { return h::openFds(); }
// protection and sharing of the mapping at p, e.g. "rw-p"
static std::string permsAt(void *p) {
    FILE *f = fopen("/proc/self/maps", "r");
    char line[600];
    std::string r = "none";
    while (fgets(line, sizeof line, f)) {
        unsigned long a, b;
        char pr[8];
        if (sscanf(line, "%lx-%lx %7s", &a, &b, pr) == 3 && (unsigned long)p >= a && (unsigned long)p < b) {
            r = pr;
            break;
        }
    }
    fclose(f);
    return r;
}

struct Al {
    size_t size;
    uint64_t tag;
    size_t purged_lo = 0, purged_hi = 0; // bytes whose content is undefined (lazy purge)
    bool dirty = true;                   // pattern written
};

enum Vis { PRIV, SHFD, SHM };

struct W {
    umf_memory_provider_handle_t prov = nullptr;
    Vis vis = PRIV;
    unsigned prot = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
    bool rw = true;
    std::map<uintptr_t, Al> live;
    size_t sum = 0, peak = 0, mapped = 0;
    uint64_t tag = 1;
    std::string desc;
    size_t maplen(const Al &a) { return rup(a.size); }
};

static size_t ctlget(W &w, const char *n) {
    size_t v = ~size_t(0);
    umf_result_t r = umfCtlGet(n, w.prov, &v);
    CHECK(r == UMF_RESULT_SUCCESS, "C06:ctl", "umfCtlGet(%s) = %d", n, r);
    return v;
}

static void stats(W &w, const char *when) {
    size_t a = ctlget(w, "umf.provider.by_handle.stats.allocated_memory"), p = ctlget(w, "umf.provider.by_handle.stats.peak_memory");
    CHECK(a == w.sum, "C06:stats-allocated", "after %s: allocated_memory is %zu, live allocations total %zu (%s)", when, a, w.sum,
          w.desc.c_str());
    CHECK(p == w.peak, "C06:stats-peak", "after %s: peak_memory is %zu, the peak was %zu (%s)", when, p, w.peak, w.desc.c_str());
    h::cnt("stat_checks");
}

static void ledger(W &w, const char *when) {
    size_t m = 0;
    for (auto &x : w.live) {
        m += rup(x.second.size + x.first % PG); // halves need not be page-sized
        CHECK(led.covers(x.first, x.first + x.second.size), "C06:not-mapped",
              "after %s: live allocation %lx+%zu is not completely mapped (%s)", when, x.first, x.second.size, w.desc.c_str());
    }
    size_t got = led.bytes();
    CHECK(got == m, got > m ? "C06:mapping-left" : "C06:mapping-lost",
          "after %s: %zu bytes are mapped for %zu bytes of live allocations (%s)", when, got, m, w.desc.c_str());
    h::cnt("ledger_checks");
}

static void checkContent(W &w, uintptr_t p, Al &a, const char *when) {
    if (!w.rw)
        return;
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < a.size; i++) {
        if (i >= a.purged_lo && i < a.purged_hi) {
            if (c[i] != 0 && c[i] != h::pat(a.tag, i)) {
                h::viol("C06:purge-content", "after %s: byte %zu of a lazily purged range is neither old nor zero", when, i);
                return;
            }
            continue;
        }
        if (c[i] != h::pat(a.tag, i)) {
            h::viol("C06:content", "after %s: byte %zu of allocation %lx+%zu changed: %02x (%s)", when, i, p, a.size, c[i],
                    w.desc.c_str());
            return;
        }
    }
    h::cnt("content_checks");
}

static void nativeErr(W &w, umf_result_t r, const char *when, std::initializer_list<int> allowed) {
    if (r != UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        return;
    const char *msg = nullptr;
    int32_t code = -1;
    umfMemoryProviderGetLastNativeError(w.prov, &msg, &code);
    bool ok = false;
    for (int a : allowed)
        ok |= a == code;
    CHECK(ok, "C14:native-code", "%s failed with MEMORY_PROVIDER_SPECIFIC, but the native error is %d (%s)", when, code, msg ? msg : "-");
    CHECK(msg && strlen(msg) > 3, "C14:native-message", "%s: no native error message", when);
    h::cnt("native_errors");
}

struct Ipc {
    uintptr_t p;
    size_t size;
    std::vector<char> data;
    uint64_t tag;
};

static umf_memory_provider_handle_t mkprov(umf_os_memory_provider_params_handle_t op, umf_result_t *res) {
    umf_memory_provider_handle_t p = nullptr;
    *res = umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &p);
    return *res == UMF_RESULT_SUCCESS ? p : nullptr;
}

static const char *const visn[] = {"private", "shared-fd", "shared-shm"};

static void shmname(char *b, uint64_t i) { snprintf(b, 64, "verif_c06_%d_%lu", getpid(), i); }

static bool faults, splitty;

static bool sameorigin(std::map<uintptr_t, uint64_t> &org, uintptr_t a, uintptr_t b) { return org[a] == org[b]; }

static void st_case(uint64_t idx, h::Rng &r) {
    W w;
    std::vector<Ipc> handles;
    std::map<uintptr_t, uint64_t> origin; // only blocks split from one mapping may be merged
    uint64_t norg = 0;
    w.vis = (Vis)r.below(3);
    int fd0 = countFds();
    char shm[64];
    shmname(shm, idx);
    umf_os_memory_provider_params_handle_t op = nullptr;
    umfOsMemoryProviderParamsCreate(&op);
    if (r.chance(1, 6)) {
        static const unsigned pr[] = {UMF_PROTECTION_NONE, UMF_PROTECTION_READ, UMF_PROTECTION_READ | UMF_PROTECTION_EXEC,
                                      UMF_PROTECTION_WRITE | UMF_PROTECTION_READ | UMF_PROTECTION_EXEC};
        w.prot = pr[r.below(4)];
        w.rw = w.prot & UMF_PROTECTION_WRITE;
        umfOsMemoryProviderParamsSetProtection(op, w.prot);
    }
    if (w.vis != PRIV)
        umfOsMemoryProviderParamsSetVisibility(op, UMF_MEM_MAP_SHARED);
    if (w.vis == SHM)
        umfOsMemoryProviderParamsSetShmName(op, shm);
    unsigned dummy0 = 0;
    if (w.vis == PRIV && r.chance(1, 4)) { // bind to node 0 in some mode
        static const umf_numa_mode_t md[] = {UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_PREFERRED,
                                             UMF_NUMA_MODE_SPLIT};
        umfOsMemoryProviderParamsSetNumaList(op, &dummy0, 1);
        umfOsMemoryProviderParamsSetNumaMode(op, md[r.below(4)]);
    }
    // memfd_secret refuses executable mappings
    setenv("UMF_MEM_FD_FUNC", r.chance(3, 4) || (w.prot & UMF_PROTECTION_EXEC) ? "memfd_create" : "any", 1);
    char d[200];
    snprintf(d, sizeof d, "%s prot %u", visn[w.vis], w.prot);
    w.desc = d;
    h::label("%s", faults ? "os fault" : "os");
#ifndef NO_BA
    uint64_t ser = ba::serial();
    static bool warm = false;
#endif
    long bm0 = live_bitmaps;
    umf_result_t rc;
    if (faults && r.chance(1, 2)) { // creation under faults
        switch (r.below(5)) {
        case 0:
            fail_trunc = 0;
            break;
        case 1:
            fail_shm = 0;
            break;
        case 2:
            fail_load = 0;
            break;
        case 3:
            fail_bitmap = (int)r.below(2);
            break;
#ifndef NO_BA
        case 4:
            ba::enabled_failing = true;
            ba::fail_at = 1 + (int64_t)r.below(9);
            break;
#endif
        }
        uint64_t inj = n_injected;
        {
            Track t;
            w.prov = mkprov(op, &rc);
        }
        clearFaults();
        (void)inj;
        if (!w.prov) {
            h::cnt("create_failed");
            CHECK(rc != UMF_RESULT_SUCCESS && (int)rc > 0 && rc <= UMF_RESULT_ERROR_UNKNOWN, "C13:create-code",
                  "creating an OS provider failed with code %d, not one of the documented ones", rc);
            CHECK(countFds() == fd0, "C13:create-fd", "a failed creation left %d file descriptors open (%s)", countFds() - fd0,
                  w.desc.c_str());
            CHECK(live_bitmaps == bm0, "C13:create-bitmap", "a failed creation left %ld bitmaps (%s)", live_bitmaps - bm0, w.desc.c_str());
            CHECK(led.bytes() == 0, "C13:create-map", "a failed creation left %zu bytes mapped", led.bytes());
            if (w.vis == SHM) {
                CHECK(access((std::string("/dev/shm/") + shm).c_str(), F_OK), "C13:create-shm", "a failed creation left the file /dev/shm/%s", shm);
                shm_unlink(shm);
            }
        }
    }
    if (!w.prov) {
        Track t;
        w.prov = mkprov(op, &rc);
    }
    if (!w.prov) {
        h::viol("C06:create", "creating a valid OS provider failed: %d (%s)", rc, w.desc.c_str());
        umfOsMemoryProviderParamsDestroy(op);
        led.r.clear();
        return;
    }
    umfOsMemoryProviderParamsDestroy(op);
    { // a fresh provider can be asked for its last native error
        const char *msg = (const char *)1;
        int32_t code = -7;
        umfMemoryProviderGetLastNativeError(w.prov, &msg, &code);
        CHECK(msg != (const char *)1 && code != -7, "C14:native-fresh", "no native error reported for a fresh provider");
    }
    int ipc_on = -1;
    umfCtlGet("umf.provider.by_handle.params.ipc_enabled", w.prov, &ipc_on);
    CHECK(ipc_on == (w.vis != PRIV), "C06:ipc-enabled", "ipc_enabled is %d for %s", ipc_on, visn[w.vis]);
    size_t minp = 0, recp = 0;
    umfMemoryProviderGetMinPageSize(w.prov, nullptr, &minp);
    umfMemoryProviderGetRecommendedPageSize(w.prov, 0, &recp);
    CHECK(minp == PG && recp >= minp && recp % minp == 0, "C06:page-size", "min page %zu, recommended %zu", minp, recp);

    h::Sig sg;
    sg.add(w.vis).add(w.prot);
    int nops = (int)r.range(10, 80);
    for (int op_ = 0; op_ < nops; op_++) {
        unsigned k = (unsigned)r.below(100);
        if (splitty && k > 20 && r.chance(1, 2)) // many splits and merges, and sharing of the parts
            k = (unsigned)(r.chance(2, 3) ? 60 + r.below(15) : 82 + r.below(14));
        sg.add(k);
        if (k < 35 && w.live.size() < 24) { // allocate
            size_t size, align = 0;
            if (r.chance(1, 12)) { // impossible requests
                static const size_t big[] = {~size_t(0), ~size_t(0) - 1, ~size_t(0) - 4094, ~size_t(0) - 4096, ~size_t(0) / 2 + 1,
                                             size_t(1) << 60};
                size = big[r.below(6)];
                align = r.chance(1, 2) ? 0 : size_t(1) << r.below(40);
                h::cnt("impossible");
            } else {
                size = r.chance(1, 3) ? r.range(1, 3 * PG) : r.logsize(r.chance(1, 10) ? (4u << 20) : 20 * PG);
                if (!size)
                    size = 1;
                if (r.chance(1, 2))
                    align = size_t(1) << r.below(r.chance(1, 4) ? 23 : 15);
                else if (r.chance(1, 8))
                    align = r.chance(1, 2) ? 3 * PG : PG / 4 * 3; // a multiple of the page that is no power of two / invalid
            }
            bool valid_align = align == 0 || ((align & (align - 1)) == 0);
            bool odd = align && !valid_align;
            if (faults) {
                switch (r.below(6)) {
                case 0:
                    fail_mmap = 0;
                    break;
                case 1:
                    fail_bind = 0;
                    fail_bind_errno = r.chance(1, 2) ? ENOMEM : EXDEV;
                    break;
                case 2:
                    fail_bitmap = 0;
                    break;
#ifndef NO_BA
                case 3:
                    ba::enabled_failing = true;
                    ba::fail_at = 1 + (int64_t)r.below(2);
                    break;
#endif
                }
            }
            uint64_t inj0 = n_injected;
#ifndef NO_BA
            uint64_t binj0 = ba::st.injected;
#endif
            void *p = (void *)0x10;
            {
                Track t;
                rc = umfMemoryProviderAlloc(w.prov, size, align, &p);
            }
            bool injected = n_injected != inj0;
#ifndef NO_BA
            injected |= ba::st.injected != binj0;
#endif
            clearFaults();
            bool possible = size <= (size_t(1) << 40);
            if (rc == UMF_RESULT_SUCCESS) {
                CHECK(possible || rup(size) >= size, "C06:impossible-alloc", "alloc(%zu, %zu) succeeded (%s)", size, align, w.desc.c_str());
                CHECK(p && p != (void *)0x10 && (uintptr_t)p % PG == 0, "C06:page-align", "alloc(%zu, %zu) gave %p", size, align, p);
                if (!p || p == (void *)0x10)
                    continue;
                CHECK(!align || (uintptr_t)p % align == 0, "C06:align", "alloc(%zu, %zu) gave %p (%s)", size, align, p, w.desc.c_str());
                for (auto &x : w.live)
                    CHECK((uintptr_t)p >= x.first + x.second.size || (uintptr_t)p + size <= x.first, "C06:overlap",
                          "alloc(%zu) = %p overlaps live %lx+%zu", size, p, x.first, x.second.size);
                Al a{size, ++w.tag};
                std::string perms = permsAt(p), last = permsAt((char *)p + size - 1);
                std::string want = std::string(w.prot & UMF_PROTECTION_READ ? "r" : "-") + (w.prot & UMF_PROTECTION_WRITE ? "w" : "-") +
                                   (w.prot & UMF_PROTECTION_EXEC ? "x" : "-") + (w.vis == PRIV ? "p" : "s");
                CHECK(perms == want && last == want, "C06:protection", "memory is mapped %s/%s, asked for %s (%s)", perms.c_str(),
                      last.c_str(), want.c_str(), w.desc.c_str());
                if (size <= (16u << 20)) {
                    if (w.prot & UMF_PROTECTION_READ)
                        for (size_t i = 0; i < size; i++)
                            if (((char *)p)[i]) {
                                h::viol("C06:not-zero", "byte %zu of fresh memory is %02x (%s)", i, ((unsigned char *)p)[i], w.desc.c_str());
                                break;
                            }
                    if (w.rw)
                        h::fill(p, size, a.tag);
                } else
                    w.rw = false;
                w.live[(uintptr_t)p] = a;
                origin[(uintptr_t)p] = ++norg;
                w.sum += size;
                w.peak = std::max(w.peak, w.sum);
                h::cnt("allocs");
            } else {
                CHECK(injected || !possible || odd || (align > PG && align % PG), "C06:alloc-failed", "alloc(%zu, %zu) = %d (%s)", size, align, rc,
                      w.desc.c_str());
                CHECK(rc > 0 && rc <= UMF_RESULT_ERROR_UNKNOWN, "C14:code", "alloc(%zu, %zu) = %d", size, align, rc);
                nativeErr(w, rc, "alloc",
                          {UMF_OS_RESULT_ERROR_ALLOC_FAILED, UMF_OS_RESULT_ERROR_BIND_FAILED, UMF_OS_RESULT_ERROR_ADDRESS_NOT_ALIGNED});
                h::cnt("alloc_refused");
                if (injected)
                    h::cnt("injected_allocs");
            }
            ledger(w, "alloc");
            stats(w, "alloc");
        } else if (k < 60 && !w.live.empty()) { // free
            auto it = w.live.begin();
            std::advance(it, r.below(w.live.size()));
            uintptr_t p = it->first;
            Al a = it->second;
            checkContent(w, p, a, "a while");
            bool inj = false;
            if (faults && r.chance(1, 5)) {
                fail_munmap = 0;
                inj = true;
            }
            {
                Track t;
                rc = umfMemoryProviderFree(w.prov, (void *)p, a.size);
            }
            clearFaults();
            if (inj) {
                CHECK(rc != UMF_RESULT_SUCCESS, "C06:free-unnoticed", "munmap failed but free returned success");
                nativeErr(w, rc, "free", {UMF_OS_RESULT_ERROR_FREE_FAILED});
                ledger(w, "failed free");
                stats(w, "failed free");
                h::cnt("failed_frees");
                // the allocation is still live: it can be shared as before
                if (w.vis != PRIV) {
                    size_t n = 0;
                    umfMemoryProviderGetIPCHandleSize(w.prov, &n);
                    std::vector<char> b(n + 64);
                    umf_result_t q = umfMemoryProviderGetIPCHandle(w.prov, (void *)p, a.size, b.data());
                    CHECK(q == UMF_RESULT_SUCCESS, "C13:failed-free-ipc", "after a failed free the live allocation has no IPC handle: %d", q);
                }
                continue;
            }
            CHECK(rc == UMF_RESULT_SUCCESS, "C06:free-failed", "free(%lx, %zu) = %d (%s)", p, a.size, rc, w.desc.c_str());
            w.live.erase(p);
            w.sum -= a.size;
            h::cnt("frees");
            ledger(w, "free");
            stats(w, "free");
        } else if (k < 75) {
            // only blocks cut from one allocation are merged
            if (r.chance(1, 2) && !w.live.empty()) {
                std::vector<uintptr_t> c;
                for (auto it = w.live.begin(); it != w.live.end(); ++it) {
                    auto nx = std::next(it);
                    if (nx != w.live.end() && it->first + it->second.size == nx->first && sameorigin(origin, it->first, nx->first))
                        c.push_back(it->first);
                }
                if (!c.empty()) {
                    uintptr_t p = r.pick(c);
                    auto it = w.live.find(p), nx = std::next(it);
                    size_t total = it->second.size + nx->second.size;
                    uintptr_t hp = nx->first;
                    {
                        Track t;
                        rc = umfMemoryProviderAllocationMerge(w.prov, (void *)p, (void *)hp, total);
                    }
                    CHECK(rc == UMF_RESULT_SUCCESS, "C05:os-merge-refused", "merge(%lx, %lx, %zu) = %d (%s)", p, hp, total, rc,
                          w.desc.c_str());
                    if (rc == UMF_RESULT_SUCCESS) {
                        checkContent(w, p, it->second, "merge");
                        checkContent(w, hp, nx->second, "merge");
                        w.live.erase(hp);
                        Al &m = w.live[p];
                        m.size = total;
                        m.tag = ++w.tag;
                        m.purged_lo = m.purged_hi = 0;
                        if (w.rw)
                            h::fill((void *)p, total, m.tag);
                        h::cnt("merges");
                        ledger(w, "merge");
                        stats(w, "merge");
                    }
                }
            } else if (!w.live.empty()) {
                auto it = w.live.begin();
                std::advance(it, r.below(w.live.size()));
                uintptr_t p = it->first;
                Al a = it->second;
                if (a.size > PG) {
                    size_t first = r.range(1, (a.size - 1) / PG) * PG;
                    bool inj = false;
#ifndef NO_BA
                    uint64_t b0 = ba::st.injected;
                    if (faults && r.chance(1, 3)) {
                        ba::enabled_failing = true;
                        ba::fail_at = 1 + (int64_t)r.below(2);
                    }
#endif
                    {
                        Track t;
                        rc = umfMemoryProviderAllocationSplit(w.prov, (void *)p, a.size, first);
                    }
                    clearFaults();
#ifndef NO_BA
                    inj = ba::st.injected != b0;
#endif
                    CHECK(rc == UMF_RESULT_SUCCESS || inj, "C05:os-split-refused", "split(%lx, %zu, %zu) = %d (%s)", p, a.size, first, rc,
                          w.desc.c_str());
                    checkContent(w, p, a, "split");
                    if (rc == UMF_RESULT_SUCCESS) {
                        w.live[p].size = first;
                        w.live[p].purged_lo = w.live[p].purged_hi = 0;
                        Al hi{a.size - first, ++w.tag};
                        if (w.rw) {
                            h::fill((void *)(p + first), hi.size, hi.tag);
                            h::fill((void *)p, first, a.tag);
                        }
                        w.live[p + first] = hi;
                        origin[p + first] = origin[p];
                        h::cnt("splits");
                    }
                    ledger(w, "split");
                    stats(w, "split");
                }
            }
        } else if (k < 82 && !w.live.empty()) { // purge
            auto it = w.live.begin();
            std::advance(it, r.below(w.live.size()));
            uintptr_t p = it->first;
            Al &a = it->second;
            size_t pages = a.size / PG;
            if (pages && w.rw) {
                size_t lo = r.below(pages), n = r.range(1, pages - lo);
                bool lazy = r.chance(1, 2);
                bool inj = faults && r.chance(1, 2);
                if (inj)
                    fail_madvise = 0;
                rc = lazy ? umfMemoryProviderPurgeLazy(w.prov, (void *)(p + lo * PG), n * PG)
                          : umfMemoryProviderPurgeForce(w.prov, (void *)(p + lo * PG), n * PG);
                clearFaults();
                if (inj) {
                    CHECK(rc == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "C06:purge-unnoticed", "madvise failed but purge returned %d", rc);
                    nativeErr(w, rc, "purge", {lazy ? UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED : UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED});
                } else if (w.vis == PRIV) {
                    CHECK(rc == UMF_RESULT_SUCCESS, "C06:purge-failed", "purge_%s(%zu pages) = %d", lazy ? "lazy" : "force", n, rc);
                    if (!lazy) {
                        for (size_t i = lo * PG; i < (lo + n) * PG; i++)
                            if (((char *)p)[i]) {
                                h::viol("C06:purge-force", "byte %zu is not zero after purge_force of [%zu,%zu)", i, lo * PG, (lo + n) * PG);
                                break;
                            }
                        // everything else is as before; refill the purged part
                        for (size_t i = lo * PG; i < (lo + n) * PG; i++)
                            ((unsigned char *)p)[i] = h::pat(a.tag, i);
                    } else {
                        for (size_t i = lo * PG; i < (lo + n) * PG; i++) {
                            unsigned char c = ((unsigned char *)p)[i];
                            if (c && c != h::pat(a.tag, i)) {
                                h::viol("C06:purge-lazy", "byte %zu is %02x after purge_lazy", i, c);
                                break;
                            }
                        }
                        for (size_t i = lo * PG; i < (lo + n) * PG; i++)
                            ((unsigned char *)p)[i] = h::pat(a.tag, i);
                    }
                } else if (rc != UMF_RESULT_SUCCESS)
                    nativeErr(w, rc, "purge", {lazy ? UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED : UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED});
                checkContent(w, p, a, "purge");
                ledger(w, "purge");
                h::cnt("purges");
            }
        } else if (k < 96 && w.rw) { // share
            size_t n = 0;
            rc = umfMemoryProviderGetIPCHandleSize(w.prov, &n);
            if (w.vis == PRIV) {
                CHECK(rc != UMF_RESULT_SUCCESS, "C06:private-ipc", "private memory offers IPC handles");
                continue;
            }
            CHECK(rc == UMF_RESULT_SUCCESS && n > 0 && n < 4096, "C08:os-size", "IPC handle size = %d, %zu", rc, n);
            if (w.live.empty())
                continue;
            auto it = w.live.begin();
            std::advance(it, r.below(w.live.size()));
            uintptr_t p = it->first;
            Al &a = it->second;
            std::vector<unsigned char> b(n + 64, 0x5e);
            rc = umfMemoryProviderGetIPCHandle(w.prov, (void *)p, a.size, b.data());
            CHECK(rc == UMF_RESULT_SUCCESS, "C08:os-get", "get_ipc_handle(%lx, %zu) = %d (%s)", p, a.size, rc, w.desc.c_str());
            for (int i = 0; i < 64; i++)
                if (b[n + i] != 0x5e) {
                    h::viol("C08:os-handle-overrun", "get_ipc_handle wrote past the %zu bytes it asked for", n);
                    break;
                }
            if (rc != UMF_RESULT_SUCCESS)
                continue;
            if (w.vis == SHM) { // keep the name: the provider removes it when a handle is opened
                std::string f = std::string("/dev/shm/") + shm;
                if (access(f.c_str(), F_OK))
                    continue;
                link(f.c_str(), (f + "_keep").c_str());
            }
            std::vector<unsigned char> c(b.begin(), b.begin() + n); // the handle travels by value
            void *q = nullptr;
            int f0 = countFds();
            if (faults && r.chance(1, 4)) {
                fail_mmap = 0;
                {
                    Track t;
                    rc = umfMemoryProviderOpenIPCHandle(w.prov, c.data(), &q);
                }
                clearFaults();
                CHECK(rc != UMF_RESULT_SUCCESS, "C13:open-unnoticed", "open_ipc_handle succeeded although mmap failed");
                CHECK(countFds() == f0, "C13:open-fd", "a failed open_ipc_handle left a file descriptor");
                ledger(w, "failed open");
            } else {
                rc = umfMemoryProviderOpenIPCHandle(w.prov, c.data(), &q);
                CHECK(rc == UMF_RESULT_SUCCESS && q, "C08:os-open", "open_ipc_handle = %d (%s)", rc, w.desc.c_str());
                CHECK(countFds() == f0, "C08:os-open-fd", "open_ipc_handle left a file descriptor");
                if (rc == UMF_RESULT_SUCCESS && q) {
                    CHECK(q != (void *)p, "C08:os-alias", "opened at the same address");
                    size_t m = h::checkfill(q, a.size, a.tag);
                    CHECK(m == a.size, "C08:os-bytes", "opened memory differs from the allocation at byte %zu of %zu (%s)", m, a.size,
                          w.desc.c_str());
                    uint64_t nt = ++w.tag;
                    h::fill(q, a.size, nt);
                    m = h::checkfill((void *)p, a.size, nt);
                    CHECK(m == a.size, "C08:os-bytes-back", "bytes written through the opened memory do not appear at byte %zu (%s)", m,
                          w.desc.c_str());
                    h::fill((void *)p, a.size, a.tag);
                    m = h::checkfill(q, a.size, a.tag);
                    CHECK(m == a.size, "C08:os-bytes", "opened memory is stale at byte %zu", m);
                    rc = umfMemoryProviderCloseIPCHandle(w.prov, q, a.size);
                    CHECK(rc == UMF_RESULT_SUCCESS, "C08:os-close", "close_ipc_handle = %d", rc);
                    CHECK(permsAt(q) == "none" || led.covers((uintptr_t)q, (uintptr_t)q + 1), "C08:os-close-map",
                          "memory is still mapped after close_ipc_handle");
                    h::cnt("ipc_opened");
                }
            }
            if (w.vis == SHM) {
                std::string f = std::string("/dev/shm/") + shm;
                if (access(f.c_str(), F_OK))
                    link((f + "_keep").c_str(), f.c_str());
                unlink((f + "_keep").c_str());
            }
            rc = umfMemoryProviderPutIPCHandle(w.prov, b.data());
            CHECK(rc == UMF_RESULT_SUCCESS, "C08:os-put", "put_ipc_handle = %d", rc);
            // others are not affected
            for (auto &x : w.live)
                checkContent(w, x.first, x.second, "ipc");
            h::cnt("ipc_roundtrips");
        } else {
            if (r.chance(1, 2)) {
                int dummy = 0;
                rc = umfCtlExec("umf.provider.by_handle.stats.reset", w.prov, &dummy);
                CHECK(rc == UMF_RESULT_SUCCESS, "C06:ctl-reset", "resetting the statistics = %d", rc);
                w.peak = w.sum;
            }
            stats(w, "reset");
            rc = umfMemoryProviderFree(w.prov, nullptr, 0);
            CHECK(rc == UMF_RESULT_SUCCESS, "C06:free-null", "free(NULL) = %d", rc);
        }
    }
    for (auto &x : w.live)
        checkContent(w, x.first, x.second, "the history");
    while (!w.live.empty()) {
        auto it = w.live.begin();
        std::advance(it, r.below(w.live.size()));
        {
            Track t;
            rc = umfMemoryProviderFree(w.prov, (void *)it->first, it->second.size);
        }
        CHECK(rc == UMF_RESULT_SUCCESS, "C06:free-failed", "free(%lx, %zu) = %d (%s)", it->first, it->second.size, rc, w.desc.c_str());
        w.sum -= it->second.size;
        w.live.erase(it);
    }
    ledger(w, "the end");
    stats(w, "the end");
    {
        Track t;
        umfMemoryProviderDestroy(w.prov);
    }
    if (w.vis == SHM)
        shm_unlink(shm);
    CHECK(led.bytes() == 0, "C06:destroy-mapped", "%zu bytes are still mapped after the provider is gone", led.bytes());
    led.r.clear();
    CHECK(countFds() == fd0, "C06:fd-leak", "%d file descriptors are open, %d before (%s)", countFds(), fd0, w.desc.c_str());
    CHECK(live_bitmaps == bm0, "C06:bitmap-leak", "%ld NUMA bitmaps left (%s)", live_bitmaps - bm0, w.desc.c_str());
#ifndef NO_BA
    if (warm) {
        std::string l = ba::leaks(ser);
        CHECK(l.empty(), "C06:metadata-leak", "metadata left after the provider is gone: %s (%s)", l.c_str(), w.desc.c_str());
    }
    warm = true;
#endif
    h::cnt("worlds");
    h::sig(sg.v);
}

// ---------------------------------------------------------------- concurrent
static void mt_case(uint64_t idx, h::Rng &r) {
    Vis vis = (Vis)r.below(3);
    char shm[64];
    shmname(shm, idx);
    setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
    umf_os_memory_provider_params_handle_t op = nullptr;
    umfOsMemoryProviderParamsCreate(&op);
    if (vis != PRIV)
        umfOsMemoryProviderParamsSetVisibility(op, UMF_MEM_MAP_SHARED);
    if (vis == SHM)
        umfOsMemoryProviderParamsSetShmName(op, shm);
    umf_result_t rc;
    umf_memory_provider_handle_t prov = mkprov(op, &rc);
    umfOsMemoryProviderParamsDestroy(op);
    if (!prov) {
        h::viol("C06:create", "creating an OS provider failed: %d", rc);
        return;
    }
    int nt = (int)r.range(2, 4);
    std::atomic<uint64_t> seen_max{0};
    std::atomic<int64_t> exp{0};
    std::vector<std::pair<uintptr_t, size_t>> left[8];
    uint64_t seeds[8];
    for (int i = 0; i < nt; i++)
        seeds[i] = r.next();
    int nops = 
#ifdef VARIANT_SCHED
        6;
#else
        (int)r.range(30, 200);
#endif
    std::atomic<bool> bad{false};
    std::atomic<uint64_t> ulim{0};
    h::label("os concurrent %s", visn[vis]);
    auto body = [&](int t) {
        h::Rng q(seeds[t]);
        struct B {
            void *p;
            size_t n;
            uint64_t tag;
        };
        std::vector<B> mine;
        uint64_t tag = (uint64_t)t << 32;
        uint64_t total = 0, mymax = 0;
        for (int i = 0; i < nops; i++) {
            unsigned k = (unsigned)q.below(10);
            if (k < 5 || mine.empty()) {
                size_t n = q.range(1, 5 * PG), al = q.chance(1, 3) ? size_t(PG) << q.below(5) : 0;
                void *p = nullptr;
                umf_result_t rc = umfMemoryProviderAlloc(prov, n, al, &p);
                if (rc != UMF_RESULT_SUCCESS) {
                    h::viol("C06:mt-alloc", "alloc(%zu, %zu) = %d", n, al, rc);
                    continue;
                }
                total += n;
                mymax = std::max(mymax, total);
                CHECK(!al || (uintptr_t)p % al == 0, "C06:align", "misaligned");
                for (size_t j = 0; j < n; j++)
                    if (((char *)p)[j]) {
                        h::viol("C06:mt-not-zero", "byte %zu of fresh memory is not zero (%s)", j, visn[vis]);
                        break;
                    }
                h::fill(p, n, ++tag);
                mine.push_back({p, n, tag});
                h::cnt("mt_allocs");
            } else if (k < 8) {
                size_t j = q.below(mine.size());
                B b = mine[j];
                size_t m = h::checkfill(b.p, b.n, b.tag);
                CHECK(m == b.n, "C06:mt-content", "byte %zu of a live allocation changed (%s)", m, visn[vis]);
                mine[j] = mine.back();
                mine.pop_back();
                umf_result_t rc = umfMemoryProviderFree(prov, b.p, b.n);
                CHECK(rc == UMF_RESULT_SUCCESS, "C06:mt-free", "free = %d", rc);
                total -= b.n;
            } else if (vis == SHFD && k == 8) {
                size_t n = 0;
                umfMemoryProviderGetIPCHandleSize(prov, &n);
                std::vector<char> hd(n);
                B b = mine[q.below(mine.size())];
                umf_result_t rc = umfMemoryProviderGetIPCHandle(prov, b.p, b.n, hd.data());
                CHECK(rc == UMF_RESULT_SUCCESS, "C08:mt-get", "get_ipc_handle = %d", rc);
                void *o = nullptr;
                if (rc == UMF_RESULT_SUCCESS && (rc = umfMemoryProviderOpenIPCHandle(prov, hd.data(), &o)) == UMF_RESULT_SUCCESS) {
                    size_t m = h::checkfill(o, b.n, b.tag);
                    CHECK(m == b.n, "C08:mt-bytes", "opened memory differs at byte %zu", m);
                    umfMemoryProviderCloseIPCHandle(prov, o, b.n);
                    h::cnt("mt_ipc");
                } else
                    h::viol("C08:mt-open", "open_ipc_handle = %d", rc);
            } else {
                size_t a = 0;
                umfCtlGet("umf.provider.by_handle.stats.allocated_memory", prov, &a);
                uint64_t o = seen_max.load();
                while (a > o && !seen_max.compare_exchange_weak(o, a))
                    ;
            }
        }
        for (auto &b : mine) {
            size_t m = h::checkfill(b.p, b.n, b.tag);
            CHECK(m == b.n, "C06:mt-content", "byte %zu of a live allocation changed (%s)", m, visn[vis]);
            left[t].push_back({(uintptr_t)b.p, b.n});
            exp += (int64_t)b.n;
        }
        uint64_t o = seen_max.load();
        while (mymax > o && !seen_max.compare_exchange_weak(o, mymax))
            ;
        ulim += mymax;
    };
#ifdef VARIANT_SCHED
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nt; i++)
        fs.push_back([&, i] { body(i); });
    auto sres = sched::run(fs, r.next(), sched::random_params(r));
    h::sig(sres.hash);
#else
    std::vector<std::thread> ths;
    for (int i = 0; i < nt; i++)
        ths.emplace_back(body, i);
    for (auto &t : ths)
        t.join();
#endif
    size_t a = 0, p = 0;
    umfCtlGet("umf.provider.by_handle.stats.allocated_memory", prov, &a);
    umfCtlGet("umf.provider.by_handle.stats.peak_memory", prov, &p);
    CHECK(a == (uint64_t)exp.load(), "C06:mt-stats-allocated", "allocated_memory is %zu, live allocations total %ld", a, (long)exp.load());
    CHECK(p >= a && p >= seen_max.load(), "C06:mt-stats-peak", "peak_memory is %zu although %lu bytes were allocated at once", p,
          seen_max.load());
    CHECK(p <= ulim.load(), "C06:mt-stats-peak-high", "peak_memory is %zu, the threads never had more than %lu", p, ulim.load());
    for (int i = 0; i < nt; i++)
        for (auto &x : left[i])
            umfMemoryProviderFree(prov, (void *)x.first, x.second);
    umfCtlGet("umf.provider.by_handle.stats.allocated_memory", prov, &a);
    CHECK(a == 0, "C06:mt-stats-allocated", "allocated_memory is %zu after everything was freed", a);
    umfMemoryProviderDestroy(prov);
    if (vis == SHM)
        shm_unlink(shm);
    h::cnt("mt_worlds");
#ifndef VARIANT_SCHED
    h::sig(h::Sig().add(idx).add(r.next()).v);
#endif
}

// ---------------------------------------------------------------- NUMA placement
static std::string nodestr(const std::set<unsigned> &s) {
    std::string o = "{";
    for (auto n : s)
        o += std::to_string(n) + ",";
    return o + "}";
}

static void numa_case(uint64_t, h::Rng &r) {
    static const char *const topos[] = {"numa:2 core:1 pu:1", "numa:3 core:1 pu:1", "numa:4 core:1 pu:1", "numa:7 core:1 pu:1",
                                        "numa:1 core:2 pu:1"};
    static const unsigned cnts[] = {2, 3, 4, 7, 1};
    unsigned ti = (unsigned)r.below(5), nn = cnts[ti];
    synth = topos[ti];
    static const umf_numa_mode_t modes[] = {UMF_NUMA_MODE_DEFAULT, UMF_NUMA_MODE_BIND,      UMF_NUMA_MODE_INTERLEAVE,
                                            UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_LOCAL,
                                            UMF_NUMA_MODE_SPLIT,   UMF_NUMA_MODE_SPLIT,     UMF_NUMA_MODE_SPLIT};
    umf_numa_mode_t mode = modes[r.below(9)];
    std::vector<unsigned> list;
    {
        std::vector<unsigned> all;
        for (unsigned i = 0; i < nn; i++)
            all.push_back(i);
        for (unsigned i = 0; i < nn; i++)
            std::swap(all[i], all[r.below(nn)]);
        list.assign(all.begin(), all.begin() + r.range(1, nn));
    }
    size_t part = 0;
    std::vector<umf_numa_split_partition_t> parts;
    if (mode == UMF_NUMA_MODE_DEFAULT || mode == UMF_NUMA_MODE_LOCAL || (mode == UMF_NUMA_MODE_PREFERRED && r.chance(1, 3)))
        list.clear();
    if (mode == UMF_NUMA_MODE_INTERLEAVE && r.chance(3, 4))
        part = r.chance(1, 2) ? PG * r.range(1, 5) : r.range(1, 5 * PG);
    if (mode == UMF_NUMA_MODE_SPLIT && r.chance(3, 4)) {
        size_t np = r.range(1, 6);
        for (size_t i = 0; i < np; i++)
            parts.push_back({(unsigned)(r.chance(1, 6) ? r.range(1, 1000) : r.range(1, 5)), list[r.below(list.size())]});
    }
    umf_os_memory_provider_params_handle_t op = nullptr;
    umfOsMemoryProviderParamsCreate(&op);
    umfOsMemoryProviderParamsSetNumaMode(op, mode);
    // bogus: empty list for a mode that needs one, list for one that has none, unknown partition target, zero weight
    int bogus = r.chance(1, 10) ? (int)r.range(1, 5) : 0;
    bool expectfail = false;
    std::vector<unsigned> l2 = list;
    std::vector<umf_numa_split_partition_t> p2 = parts;
    if (bogus == 1 && !l2.empty() && mode != UMF_NUMA_MODE_PREFERRED) {
        l2.clear();
        expectfail = true;
    }
    if (bogus == 2 && (mode == UMF_NUMA_MODE_DEFAULT || mode == UMF_NUMA_MODE_LOCAL)) {
        l2 = {0};
        expectfail = true;
    }
    if (bogus == 3 && !p2.empty()) {
        p2[r.below(p2.size())].target = 77;
        expectfail = true;
    }
    if (bogus == 4 && !p2.empty()) {
        p2[r.below(p2.size())].weight = 0;
        expectfail = true;
    }
    if (bogus == 5 && mode != UMF_NUMA_MODE_DEFAULT) {
        umfOsMemoryProviderParamsSetVisibility(op, UMF_MEM_MAP_SHARED);
        expectfail = true;
    }
    umfOsMemoryProviderParamsSetNumaList(op, l2.empty() ? nullptr : l2.data(), (unsigned)l2.size());
    if (part)
        umfOsMemoryProviderParamsSetPartSize(op, part);
    if (!p2.empty())
        umfOsMemoryProviderParamsSetPartitions(op, p2.data(), (unsigned)p2.size());
    std::string d = std::string(synth) + " mode " + std::to_string(mode) + " list";
    for (auto x : list)
        d += " " + std::to_string(x);
    d += " part " + std::to_string(part) + " parts";
    for (auto &x : parts)
        d += " " + std::to_string(x.weight) + ":" + std::to_string(x.target);
    h::label("numa mode %d", (int)mode);
    h::Sig sg;
    for (char c : d)
        sg.add(c);
    long bm0 = live_bitmaps;
    // the caller's arrays are copied
    l2.assign(l2.size(), 99);
    for (auto &x : p2)
        x = {12345, 66};
    umf_result_t rc;
    W w;
    w.desc = d;
    {
        Track t;
        w.prov = mkprov(op, &rc);
    }
    umfOsMemoryProviderParamsDestroy(op);
    if (expectfail) {
        CHECK(!w.prov, "C17:bogus-accepted", "configuration error %d accepted (%s)", bogus, d.c_str());
        CHECK(live_bitmaps == bm0, "C17:bitmap-leak", "a refused configuration left %ld bitmaps (%s)", live_bitmaps - bm0, d.c_str());
        h::cnt("bogus_refused");
        if (w.prov)
            umfMemoryProviderDestroy(w.prov);
        synth = nullptr;
        return;
    }
    if (!w.prov) {
        h::viol("C17:create", "valid NUMA configuration refused: %d (%s)", rc, d.c_str());
        synth = nullptr;
        return;
    }
    std::set<unsigned> lset(list.begin(), list.end()), all;
    for (unsigned i = 0; i < nn; i++)
        all.insert(i);
    uint64_t sum = 0; // page-rounded bytes allocated so far
    bool exact_rr = part && part % PG == 0;
    int na = (int)r.range(1, 8);
    std::vector<std::pair<void *, size_t>> got;
    for (int i = 0; i < na; i++) {
        size_t size = r.chance(1, 3) ? r.range(1, 3 * PG) : r.chance(1, 6) ? r.range(1, 400) * PG : r.range(1, 20 * PG);
        size_t align = r.chance(1, 4) ? size_t(1) << r.range(0, 20) : 0;
        bool inj = r.chance(1, 8);
        bool enosys = inj && r.chance(1, 3);
        int at = 0;
        if (inj) {
            at = (int)r.below(4);
            fail_bind = at;
            fail_bind_errno = enosys ? ENOSYS : ENOMEM;
        }
        binds.clear();
        void *p = nullptr;
        size_t mapped0 = led.bytes();
        uint64_t inj0 = n_injected;
        {
            Track t;
            rc = umfMemoryProviderAlloc(w.prov, size, align, &p);
        }
        bool hitf = n_injected != inj0;
        clearFaults();
        size_t len = rup(size);
        if (rc != UMF_RESULT_SUCCESS) {
            CHECK(hitf && !enosys, "C17:alloc", "alloc(%zu, %zu) = %d (%s)", size, align, rc, d.c_str());
            CHECK(led.bytes() == mapped0, "C17:failed-bind-mapping", "an allocation that could not be bound left %zu bytes mapped",
                  led.bytes() - mapped0);
            nativeErr(w, rc, "alloc", {UMF_OS_RESULT_ERROR_BIND_FAILED});
            sum += len;
            exact_rr = false;
            h::cnt("bind_failures");
            continue;
        }
        CHECK(!hitf || enosys, "C17:bind-failure-ignored", "binding failed with ENOMEM but the allocation succeeded (%s)", d.c_str());
        got.push_back({p, size});
        h::cnt("numa_allocs");
        uintptr_t a = (uintptr_t)p;
        if (mode == UMF_NUMA_MODE_DEFAULT) {
            CHECK(binds.empty(), "C17:default-binds", "default mode bound memory (%s)", d.c_str());
            continue;
        }
        // the calls tile exactly the pages of the allocation, in order
        uintptr_t pos = a;
        bool tile = true;
        for (auto &b : binds) {
            if (b.addr != pos || b.len == 0 || b.len % PG)
                tile = false;
            pos = b.addr + b.len;
            CHECK(!b.nodes.empty(), "C17:empty-nodeset", "bound to no node (%s)", d.c_str());
            CHECK(b.flags & HWLOC_MEMBIND_BYNODESET, "C17:flags", "nodeset passed without BYNODESET");
        }
        if (!tile || pos != a + len || binds.empty()) {
            std::string s;
            for (auto &b : binds)
                s += " [" + std::to_string((long)(b.addr - a)) + "+" + std::to_string(b.len) + nodestr(b.nodes) + "]";
            h::viol("C17:tiling", "alloc(%zu): the bound ranges do not tile the %zu bytes:%s (%s)", size, len, s.c_str(), d.c_str());
            continue;
        }
        h::cnt("binds", binds.size());
        auto single = [&](int pol, bool strict, const std::set<unsigned> &want) {
            CHECK(binds.size() == 1, "C17:calls", "%zu binding calls where one is enough (%s)", binds.size(), d.c_str());
            for (auto &b : binds) {
                CHECK(b.nodes == want, "C17:nodes", "bound to %s, expected %s (%s)", nodestr(b.nodes).c_str(), nodestr(want).c_str(), d.c_str());
                CHECK(b.policy == pol, "C17:policy", "policy %d, expected %d (%s)", b.policy, pol, d.c_str());
                CHECK(!!(b.flags & HWLOC_MEMBIND_STRICT) == strict, "C17:strict", "strict flag %d (%s)", b.flags, d.c_str());
            }
        };
        if (mode == UMF_NUMA_MODE_BIND)
            single(HWLOC_MEMBIND_BIND, true, lset);
        else if (mode == UMF_NUMA_MODE_PREFERRED)
            single(HWLOC_MEMBIND_BIND, false, list.empty() ? all : lset);
        else if (mode == UMF_NUMA_MODE_LOCAL)
            single(HWLOC_MEMBIND_BIND, false, all);
        else if (mode == UMF_NUMA_MODE_INTERLEAVE && part == 0)
            single(HWLOC_MEMBIND_INTERLEAVE, false, lset);
        else if (mode == UMF_NUMA_MODE_INTERLEAVE) {
            size_t unit = rup(part);
            if (list.size() == 1) {
                for (auto &b : binds)
                    CHECK(b.nodes == lset, "C17:nodes", "bound to %s, expected %s (%s)", nodestr(b.nodes).c_str(), nodestr(lset).c_str(),
                          d.c_str());
            } else {
                long prev = -1;
                for (size_t j = 0; j < binds.size(); j++) {
                    auto &b = binds[j];
                    size_t want = std::min(unit, len - (size_t)(b.addr - a));
                    CHECK(b.len == want, "C17:part-size", "chunk %zu has %zu bytes, expected %zu (%s)", j, b.len, want, d.c_str());
                    CHECK(b.nodes.size() == 1, "C17:interleave-single", "an interleaved part went to %s", nodestr(b.nodes).c_str());
                    CHECK(b.policy == HWLOC_MEMBIND_BIND && (b.flags & HWLOC_MEMBIND_STRICT), "C17:policy", "interleaved part not strict");
                    long at = -1;
                    for (size_t x = 0; x < list.size(); x++)
                        if (b.nodes.count(list[x]))
                            at = (long)x;
                    CHECK(at >= 0, "C17:nodes", "interleaved part bound to %s outside the list (%s)", nodestr(b.nodes).c_str(), d.c_str());
                    if (prev >= 0)
                        CHECK(at == (prev + 1) % (long)list.size(), "C17:round-robin", "part %zu went to list entry %ld after %ld (%s)", j,
                              at, prev, d.c_str());
                    else if (exact_rr || sum == 0)
                        CHECK(at == (long)(sum / part % list.size()), "C17:round-robin-start",
                              "allocation %d starts at list entry %ld, expected %lu (%s)", i, at, (unsigned long)(sum / part % list.size()),
                              d.c_str());
                    prev = at;
                }
            }
            sum += len;
        } else { // SPLIT: every page goes to the nodes whose share it overlaps
            std::vector<std::pair<uint64_t, unsigned>> ps;
            uint64_t W_ = 0;
            if (parts.empty())
                for (auto x : list)
                    ps.push_back({1, x});
            else
                for (auto &x : parts)
                    ps.push_back({x.weight, x.target});
            for (auto &x : ps)
                W_ += x.first;
            uint64_t pages = len / PG;
            std::vector<std::set<unsigned>> want(pages), have(pages);
            uint64_t acc = 0;
            for (auto &x : ps) {
                // share [acc, acc+w) * pages / W
                uint64_t lo = acc * pages, hi = (acc + x.first) * pages;
                for (uint64_t g = lo / W_; g * W_ < hi; g++)
                    want[g].insert(x.second);
                acc += x.first;
            }
            for (auto &b : binds) {
                CHECK(b.policy == HWLOC_MEMBIND_BIND && (b.flags & HWLOC_MEMBIND_STRICT), "C17:policy", "split part not bound strictly");
                for (uint64_t g = (b.addr - a) / PG; g < (b.addr + b.len - a) / PG; g++)
                    have[g] = b.nodes;
            }
            for (uint64_t g = 0; g < pages; g++)
                if (want[g] != have[g]) {
                    h::viol("C17:split", "page %lu of %lu is bound to %s, its share belongs to %s (%s)", g, pages, nodestr(have[g]).c_str(),
                            nodestr(want[g]).c_str(), d.c_str());
                    break;
                }
            h::cnt("split_pages", pages);
            h::cnt("split_allocs");
        }
    }
    for (auto &x : got) {
        Track t;
        rc = umfMemoryProviderFree(w.prov, x.first, x.second);
        CHECK(rc == UMF_RESULT_SUCCESS, "C17:free", "free = %d", rc);
    }
    CHECK(led.bytes() == 0, "C17:mapping-left", "%zu bytes still mapped (%s)", led.bytes(), d.c_str());
    {
        Track t;
        umfMemoryProviderDestroy(w.prov);
    }
    led.r.clear();
    CHECK(live_bitmaps == bm0, "C17:bitmap-leak", "%ld NUMA bitmaps left (%s)", live_bitmaps - bm0, d.c_str());
    synth = nullptr;
    h::cnt("numa_worlds");
    h::sig(sg.v);
}

void harness_begin() {
    faults = h::ctx().mode == "fault";
    splitty = h::ctx().mode == "split";
    umf_memory_provider_handle_t p = nullptr; // initialize the library's lazies
    umf_os_memory_provider_params_handle_t op = nullptr;
    umfOsMemoryProviderParamsCreate(&op);
    umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &p);
    umfOsMemoryProviderParamsDestroy(op);
    size_t v;
    umfCtlGet("umf.provider.by_handle.stats.peak_memory", p, &v);
    umfMemoryProviderDestroy(p);
}
void run_case(uint64_t i, h::Rng &r) {
    if (h::ctx().mode == "mt" || h::ctx().mode == "sched")
        mt_case(i, r);
    else if (h::ctx().mode == "numa")
        numa_case(i, r);
    else {
        h::NoStdin z(i % 8 == 3);
        st_case(i, r);
    }
}
void harness_end() {}
