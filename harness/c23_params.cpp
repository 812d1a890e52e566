// Parameter objects (C23). One mode per kind: os, file, devdax, fixed, disjoint, scalable.
// An object that went through a history of set calls (any order, repeated, refused, without memory, from
// buffers that are overwritten at once) must make exactly what a fresh object makes on which each value was
// set once; what was made keeps behaving so when the object is changed and destroyed. Behaviour is what
// reaches the system or the memory provider.
#include "h.hpp"
#include "ba.hpp"
#include <cerrno>
#include <hwloc.h>
#include <optional>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <tuple>
#include <unistd.h>
#include <umf.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
using namespace h;
namespace {
using Trace = std::vector<std::string>;
Trace *rec = nullptr; // where system calls are recorded
void note(const char *fmt, ...) {
    if (!rec)
        return;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rec->push_back(b);
}
std::string dir;
std::string rel(const char *p) { return strncmp(p, dir.c_str(), dir.size()) ? p : p + dir.size(); }
struct MapRec {
    size_t len;
    int prot, flags, fd;
};
std::vector<MapRec> maps;
struct BindRec {
    std::set<unsigned> nodes;
    int pol;
    size_t len;
};
std::vector<BindRec> binds;
std::vector<std::string> shms, opens;
unsigned NODES = 5;
bool hooks = false;
} // namespace
extern "C" {
int __real_munmap(void *, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (!hooks)
        return __real_mmap(a, l, p, f, fd, o);
    int f2 = f;
#ifndef MAP_SYNC
#define MAP_SYNC 0x80000
#endif
    if (fd >= 0 && (f & MAP_SYNC)) { // no such file system here: a device would grant it
        note("mmap sync %zu prot %d", l, p);
        char link[64], path[512];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, path, sizeof path - 1);
        if (n > 0) {
            path[n] = 0;
            if (strstr(path, "fakedax")) {
                char *z = (char *)__real_mmap(nullptr, l + (2 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                char *al = (char *)(((uintptr_t)z + (2 << 20) - 1) & ~(uintptr_t)((2 << 20) - 1)); // devices are mapped in 2 MB pages
                if (al > z)
                    __real_munmap(z, al - z);
                __real_munmap(al + l, z + (2 << 20) - al);
                a = al;
                f2 = MAP_FIXED | (f & ~(MAP_SYNC | MAP_SHARED_VALIDATE)) | MAP_SHARED;
            }
        }
    }
    void *r = __real_mmap(a, l, p, f2, fd, o);
    note("mmap %zu prot %d flags %#x %s off %ld %s", l, p, f, fd >= 0 ? "fd" : "anon", (long)o, r == MAP_FAILED ? "failed" : "ok");
    if (r != MAP_FAILED)
        maps.push_back({l, p, f, fd});
    return r;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t l) {
    if (hooks)
        note("munmap %zu", l);
    return __real_munmap(a, l);
}
int __real_madvise(void *, size_t, int);
int __wrap_madvise(void *a, size_t l, int v) {
    if (hooks)
        note("madvise %zu %d", l, v);
    return __real_madvise(a, l, v);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n) {
    if (hooks)
        note("ftruncate %ld", (long)n);
    return __real_ftruncate(fd, n);
}
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
    if (hooks)
        note("fallocate %ld %ld", (long)o, (long)n);
    return __real_posix_fallocate(fd, o, n);
}
int __real_shm_open(const char *, int, mode_t);
int __wrap_shm_open(const char *n, int f, mode_t m) {
    if (hooks) {
        note("shm_open %s %#x %o", n, f, m);
        shms.push_back(n);
    }
    return __real_shm_open(n, f, m);
}
int __real_hwloc_topology_load(hwloc_topology_t);
int __wrap_hwloc_topology_load(hwloc_topology_t t) {
    char s[64];
    snprintf(s, sizeof s, "node:%u core:1 pu:1", NODES);
    hwloc_topology_set_synthetic(t, s);
    return __real_hwloc_topology_load(t);
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *, size_t n, hwloc_const_bitmap_t s, hwloc_membind_policy_t p, int f) {
    BindRec b{{}, (int)p, n};
    unsigned i;
    hwloc_bitmap_foreach_begin(i, s) if (i > 64) break;
    b.nodes.insert(i);
    hwloc_bitmap_foreach_end();
    if (hooks) {
        std::string l;
        for (unsigned x : b.nodes)
            l += std::to_string(x) + ",";
        note("bind %zu policy %d flags %#x nodes %s", n, p, f, l.c_str());
        binds.push_back(b);
    }
    return 0;
}
int __real_utils_devdax_open(const char *);
int __wrap_utils_devdax_open(const char *path) {
    if (hooks) {
        note("devdax %s", rel(path).c_str());
        opens.push_back(path);
    }
    if (strstr(path, "fakedax"))
        return open(path, O_RDWR | O_CLOEXEC);
    return __real_utils_devdax_open(path);
}
}
namespace {
// ------------------------------------------------------------------ set calls without memory
struct NoMem {
    bool on;
    uint64_t i0;
    NoMem(Rng &r, unsigned den) : on(r.chance(1, den)), i0(ba::st.injected) {
        if (on) {
            ba::fail_at = 1;
            ba::enabled_failing = true;
        }
    }
    bool stop() { // true when a request was refused
        ba::enabled_failing = false;
        ba::fail_at = 0;
        return ba::st.injected != i0;
    }
};
// the result of a valid set call; true when the object took the value
bool took(NoMem &nm, umf_result_t q, const char *what) {
    if (nm.stop()) {
        CHECK(q == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "C23:set-oom", "%s without memory returned %d", what, q);
        cnt("sets_without_memory");
        return false;
    }
    CHECK(q == UMF_RESULT_SUCCESS, "C23:set", "%s returned %d", what, q);
    cnt("sets");
    return true;
}
void refused(umf_result_t q, const char *what) {
    CHECK(q == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C23:invalid", "%s returned %d", what, q);
    cnt("sets_refused");
}
// hands out a buffer of its own for each call and destroys it afterwards
template <class T> struct Buf {
    T *p;
    size_t n;
    Buf(const T *v, size_t k) : p(k ? new T[k] : nullptr), n(k) {
        if (k)
            memcpy((void *)p, v, k * sizeof(T));
    }
    ~Buf() {
        if (p) {
            memset((void *)p, 0x5a, n * sizeof(T));
            delete[] p;
        }
    }
};
std::vector<int> order(Rng &r, int n, int extra) {
    std::vector<int> o;
    for (int i = 0; i < n; i++)
        o.push_back(i);
    for (int i = 0; i < extra; i++)
        o.push_back((int)r.below(n));
    for (size_t i = 0; i < o.size(); i++)
        std::swap(o[i], o[i + r.below(o.size() - i)]);
    return o;
}
void checkSame(const Trace &a, const Trace &b, const char *what) {
    cnt("traces_compared");
    cnt("trace_events", b.size());
    if (a == b)
        return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    viol("C23:differs", "%s: event %zu of %zu/%zu is \"%s\" and with a fresh parameter object \"%s\"", what, i, a.size(), b.size(),
         i < a.size() ? a[i].c_str() : "(none)", i < b.size() ? b[i].c_str() : "(none)");
}
template <class F> Trace record(F f) {
    Trace t;
    rec = &t;
    hooks = true;
    maps.clear(), binds.clear(), shms.clear(), opens.clear();
    f();
    hooks = false;
    rec = nullptr;
    return t;
}
// ------------------------------------------------------------------ a provider of any kind used for a while
void useProvider(umf_memory_provider_handle_t p, uint64_t script) {
    Rng r(script);
    std::vector<std::pair<void *, size_t>> b;
    size_t n = r.range(3, 12);
    for (size_t i = 0; i < n; i++) {
        if (b.size() && r.chance(1, 3)) {
            size_t k = r.below(b.size());
            note("free %d", umfMemoryProviderFree(p, b[k].first, b[k].second));
            b.erase(b.begin() + k);
        } else if (b.size() && r.chance(1, 6)) {
            auto &x = b[r.below(b.size())];
            note("purge %d", r.chance(1, 2) ? umfMemoryProviderPurgeLazy(p, x.first, x.second) : umfMemoryProviderPurgeForce(p, x.first, x.second));
        } else {
            size_t s = r.chance(1, 2) ? 4096 * r.range(1, 40) : r.logsize(200000) + 1;
            void *q = nullptr;
            umf_result_t e = umfMemoryProviderAlloc(p, s, 0, &q);
            note("alloc %zu %d", s, e);
            if (e == UMF_RESULT_SUCCESS)
                b.push_back({q, s});
        }
    }
    for (auto &x : b)
        note("free %d", umfMemoryProviderFree(p, x.first, x.second));
}
// ------------------------------------------------------------------ the kinds
struct Kind {
    virtual ~Kind() {}
    virtual void roll(Rng &) = 0;                   // new wanted values (some left unset)
    virtual bool create(Rng &, bool messy) = 0;     // an object for the wanted values
    virtual void change(Rng &, bool messy) = 0;     // set everything rolled
    virtual void destroy() = 0;                     // the object
    virtual void *make(umf_result_t *q) = 0;        // a provider or pool from the object
    virtual void use(void *x, uint64_t script) = 0; // and destroy it
    virtual void absolute(const Trace &) {}
    virtual std::string text() = 0;
};
// every set call wanted by the model, in some order, with refused calls and calls that find no memory in between
struct Setter {
    std::function<bool(bool messy, Rng &)> set; // sets the wanted value, if any
    std::function<void(Rng &)> other;           // sets some other value: the wanted one is set again after it
    std::function<void(Rng &)> invalid;         // refused
    std::function<bool()> wanted;
};
void runSetters(Rng &r, std::vector<Setter> &ss, bool messy) {
    if (!messy) {
        for (auto &s : ss)
            if (s.wanted())
                s.set(false, r);
        return;
    }
    for (int i : order(r, (int)ss.size(), (int)r.below(4))) {
        Setter &s = ss[i];
        if (s.invalid && r.chance(1, 3))
            s.invalid(r);
        if (!s.wanted())
            continue;
        if (s.other && r.chance(1, 3))
            s.other(r);
        while (!s.set(true, r))
            ;
        if (s.invalid && r.chance(1, 3))
            s.invalid(r);
    }
}
void randomName(Rng &r, std::string &s, size_t max) {
    size_t n = r.range(1, max);
    s.clear();
    for (size_t i = 0; i < n; i++)
        s += (char)('a' + r.below(26));
}
struct OsKind : Kind {
    std::optional<unsigned> prot;
    std::optional<umf_memory_visibility_t> vis;
    std::optional<std::string> shm;
    std::optional<std::vector<unsigned>> list;
    std::optional<umf_numa_mode_t> mode;
    std::optional<size_t> part;
    std::optional<std::vector<umf_numa_split_partition_t>> parts;
    umf_os_memory_provider_params_handle_t p = nullptr;
    auto vals() { return std::tie(prot, vis, shm, list, mode, part, parts); }
    void roll(Rng &r) override {
        prot.reset(), vis.reset(), shm.reset(), list.reset(), mode.reset(), part.reset(), parts.reset();
        if (r.chance(2, 3))
            prot = r.chance(1, 4) ? (unsigned)r.below(40) : (unsigned)r.pick(std::vector<int>{1, 2, 4, 6, 8 | 2, 4 | 2});
        if (r.chance(1, 2))
            vis = r.chance(1, 2) ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE;
        if (r.chance(1, 4)) {
            std::string s;
            randomName(r, s, 40);
            shm = "verif_c23_" + std::to_string(getpid()) + "_" + s;
        }
        if (r.chance(2, 3)) {
            mode = (umf_numa_mode_t)r.below(5);
            if (*mode != UMF_NUMA_MODE_DEFAULT && *mode != UMF_NUMA_MODE_LOCAL)
                vis.reset();
        }
        bool nl = mode && (*mode == UMF_NUMA_MODE_BIND || *mode == UMF_NUMA_MODE_INTERLEAVE || *mode == UMF_NUMA_MODE_SPLIT || *mode == UMF_NUMA_MODE_PREFERRED);
        if (r.chance(1, 12))
            nl = !nl;
        if (nl) {
            std::vector<unsigned> v;
            for (unsigned i = 0; i < NODES; i++)
                if (r.chance(1, 2))
                    v.push_back(i);
            if (v.empty())
                v.push_back((unsigned)r.below(NODES));
            for (size_t i = 0; i < v.size(); i++)
                std::swap(v[i], v[i + r.below(v.size() - i)]);
            list = v;
        }
        if (mode && *mode == UMF_NUMA_MODE_INTERLEAVE && r.chance(2, 3))
            part = 4096 * r.range(0, 8);
        if (mode && *mode == UMF_NUMA_MODE_SPLIT && list && r.chance(2, 3)) {
            std::vector<umf_numa_split_partition_t> v;
            size_t n = r.range(1, 5);
            for (size_t i = 0; i < n; i++)
                v.push_back({(unsigned)r.range(1, 9), r.chance(1, 20) ? 63 : (*list)[r.below(list->size())]});
            parts = v;
        }
    }
    std::vector<Setter> setters() {
        std::vector<Setter> v;
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfOsMemoryProviderParamsSetProtection(p, *prot), "SetProtection");
                     },
                     [this](Rng &r) { umfOsMemoryProviderParamsSetProtection(p, (unsigned)r.below(16)); },
                     [](Rng &) { refused(umfOsMemoryProviderParamsSetProtection(nullptr, 2), "SetProtection(NULL)"); }, [this] { return (bool)prot; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfOsMemoryProviderParamsSetVisibility(p, *vis), "SetVisibility");
                     },
                     [this](Rng &) { umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED); },
                     [](Rng &) { refused(umfOsMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_SHARED), "SetVisibility(NULL)"); },
                     [this] { return (bool)vis; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 4 : 1000000000);
                         Buf<char> b(shm->c_str(), shm->size() + 1);
                         return took(nm, umfOsMemoryProviderParamsSetShmName(p, b.p), "SetShmName");
                     },
                     [this](Rng &r) {
                         if (r.chance(1, 2))
                             umfOsMemoryProviderParamsSetShmName(p, nullptr);
                         else
                             umfOsMemoryProviderParamsSetShmName(p, "some_other_and_somewhat_longer_name_of_shared_memory");
                     },
                     [](Rng &) { refused(umfOsMemoryProviderParamsSetShmName(nullptr, "x"), "SetShmName(NULL)"); }, [this] { return (bool)shm; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 4 : 1000000000);
                         Buf<unsigned> b(list->data(), list->size());
                         return took(nm, umfOsMemoryProviderParamsSetNumaList(p, b.p, (unsigned)b.n), "SetNumaList");
                     },
                     [this](Rng &r) {
                         unsigned x[3] = {0, 1, 2};
                         umfOsMemoryProviderParamsSetNumaList(p, x, (unsigned)r.below(4));
                     },
                     [this](Rng &r) {
                         unsigned x = 0;
                         if (r.chance(1, 2))
                             refused(umfOsMemoryProviderParamsSetNumaList(p, nullptr, 2), "SetNumaList(NULL, 2)");
                         else
                             refused(umfOsMemoryProviderParamsSetNumaList(nullptr, &x, 1), "SetNumaList of NULL");
                     },
                     [this] { return (bool)list; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfOsMemoryProviderParamsSetNumaMode(p, *mode), "SetNumaMode");
                     },
                     [this](Rng &r) { umfOsMemoryProviderParamsSetNumaMode(p, (umf_numa_mode_t)r.below(5)); },
                     [](Rng &) { refused(umfOsMemoryProviderParamsSetNumaMode(nullptr, UMF_NUMA_MODE_BIND), "SetNumaMode(NULL)"); },
                     [this] { return (bool)mode; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfOsMemoryProviderParamsSetPartSize(p, *part), "SetPartSize");
                     },
                     [this](Rng &r) { umfOsMemoryProviderParamsSetPartSize(p, r.below(100000)); },
                     [](Rng &) { refused(umfOsMemoryProviderParamsSetPartSize(nullptr, 4096), "SetPartSize(NULL)"); }, [this] { return (bool)part; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 4 : 1000000000);
                         Buf<umf_numa_split_partition_t> b(parts->data(), parts->size());
                         return took(nm, umfOsMemoryProviderParamsSetPartitions(p, b.p, (unsigned)b.n), "SetPartitions");
                     },
                     [this](Rng &r) {
                         umf_numa_split_partition_t x[2] = {{1, 0}, {2, 1}};
                         umfOsMemoryProviderParamsSetPartitions(p, x, (unsigned)r.below(3));
                     },
                     [this](Rng &r) {
                         umf_numa_split_partition_t x{1, 0};
                         if (r.chance(1, 2))
                             refused(umfOsMemoryProviderParamsSetPartitions(p, nullptr, 1), "SetPartitions(NULL, 1)");
                         else
                             refused(umfOsMemoryProviderParamsSetPartitions(nullptr, &x, 1), "SetPartitions of NULL");
                     },
                     [this] { return (bool)parts; }});
        return v;
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 10))
            refused(umfOsMemoryProviderParamsCreate(nullptr), "ParamsCreate(NULL)");
        for (;;) {
            NoMem nm(r, messy ? 10 : 1000000000);
            p = nullptr;
            if (took(nm, umfOsMemoryProviderParamsCreate(&p), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        auto v = setters();
        // what an earlier roll set and this one leaves unset goes back to its default
        if (!prot)
            umfOsMemoryProviderParamsSetProtection(p, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        if (!vis && messy && r.chance(1, 2))
            umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_PRIVATE);
        runSetters(r, v, messy);
    }
    void reset() { // the documented defaults
        umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_PRIVATE);
        umfOsMemoryProviderParamsSetShmName(p, nullptr);
        umfOsMemoryProviderParamsSetNumaList(p, nullptr, 0);
        umfOsMemoryProviderParamsSetNumaMode(p, UMF_NUMA_MODE_DEFAULT);
        umfOsMemoryProviderParamsSetPartSize(p, 0);
        umfOsMemoryProviderParamsSetPartitions(p, nullptr, 0);
        umfOsMemoryProviderParamsSetProtection(p, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
    }
    void destroy() override {
        CHECK(umfOsMemoryProviderParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    void *make(umf_result_t *q) override {
        umf_memory_provider_handle_t h = nullptr;
        *q = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &h);
        note("create %d", *q);
        return *q ? nullptr : h;
    }
    void use(void *x, uint64_t script) override {
        useProvider((umf_memory_provider_handle_t)x, script);
        umfMemoryProviderDestroy((umf_memory_provider_handle_t)x);
    }
    void absolute(const Trace &) override {
        unsigned pr = prot.value_or(UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        int want = (pr & UMF_PROTECTION_READ ? PROT_READ : 0) | (pr & UMF_PROTECTION_WRITE ? PROT_WRITE : 0) | (pr & UMF_PROTECTION_EXEC ? PROT_EXEC : 0);
        bool shared = vis.value_or(UMF_MEM_MAP_PRIVATE) == UMF_MEM_MAP_SHARED;
        for (auto &m : maps) {
            CHECK(m.prot == want, "C23:os-protection", "mapped with %d, set %#x", m.prot, pr);
            CHECK(((m.flags & 0x0f) == MAP_SHARED || (m.flags & 0x0f) == MAP_SHARED_VALIDATE) == shared, "C23:os-visibility", "mapped with flags %#x", m.flags);
        }
        for (auto &s : shms) {
            CHECK(shm && s == *shm, "C23:os-shm", "shared memory named '%s', set '%s'", s.c_str(), shm ? shm->c_str() : "(unset)");
            cnt("shm_names");
        }
        if (list)
            for (auto &b : binds)
                for (unsigned n : b.nodes)
                    CHECK(std::count(list->begin(), list->end(), n), "C23:os-nodes", "memory bound to node %u, which is not in the list set", n);
    }
    std::string text() override {
        char b[300];
        snprintf(b, sizeof b, "prot %d vis %d shm %d nodes %zu mode %d part %ld parts %zu", prot ? (int)*prot : -1, vis ? (int)*vis : -1, (int)(bool)shm,
                 list ? list->size() : 0, mode ? (int)*mode : -1, part ? (long)*part : -1, parts ? parts->size() : 0);
        return b;
    }
};
// a path too long to be opened makes no provider
template <class H> void longPath(Rng &r, umf_memory_provider_ops_t *ops, umf_result_t (*mk)(H *, const char *), umf_result_t (*del)(H)) {
    std::string s = dir;
    size_t n = r.range(4080, 5000);
    while (s.size() < n)
        s += "/" + std::string(std::min<size_t>(n - s.size(), r.range(1, 254)), 'a');
    H x = nullptr;
    CHECK(mk(&x, s.c_str()) == UMF_RESULT_SUCCESS, "C23:create", "ParamsCreate with a long path failed");
    umf_memory_provider_handle_t h = nullptr;
    bool was = hooks;
    hooks = false;
    umf_result_t q = umfMemoryProviderCreate(ops, x, &h);
    hooks = was;
    CHECK(q != UMF_RESULT_SUCCESS, "C23:long-path", "a provider is made for a path of %zu bytes in a directory that is not there", s.size());
    CHECK(del(x) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
    cnt("long_paths");
}
struct FileKind : Kind {
    std::string path;
    std::optional<unsigned> prot;
    std::optional<umf_memory_visibility_t> vis;
    umf_file_memory_provider_params_handle_t p = nullptr;
    auto vals() { return std::tie(path, prot, vis); }
    void roll(Rng &r) override {
        std::string s;
        randomName(r, s, 60);
        path = dir + "/" + s;
        prot.reset(), vis.reset();
        if (r.chance(1, 2))
            prot = (unsigned)r.pick(std::vector<int>{2, 6, 4 | 2, 2 | 8, 6 | 8, (int)r.below(40)});
        if (r.chance(1, 2))
            vis = r.chance(1, 2) ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE;
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 5)) {
            if (r.chance(1, 4))
                longPath<umf_file_memory_provider_params_handle_t>(r, umfFileMemoryProviderOps(), umfFileMemoryProviderParamsCreate, umfFileMemoryProviderParamsDestroy);
            umf_file_memory_provider_params_handle_t x = nullptr;
            switch (r.below(3)) {
            case 0:
                refused(umfFileMemoryProviderParamsCreate(nullptr, "x"), "ParamsCreate(NULL)");
                break;
            case 1:
                refused(umfFileMemoryProviderParamsCreate(&x, nullptr), "ParamsCreate without a path");
                break;
            case 2:
                refused(umfFileMemoryProviderParamsCreate(&x, ""), "ParamsCreate with an empty path");
                break;
            }
        }
        bool first = r.chance(1, 2);
        for (;;) {
            NoMem nm(r, messy ? 6 : 1000000000);
            if (nm.on)
                ba::fail_at = r.range(1, 2);
            p = nullptr;
            std::string o = dir + "/other";
            Buf<char> b(first || !messy ? path.c_str() : o.c_str(), (first || !messy ? path : o).size() + 1);
            if (took(nm, umfFileMemoryProviderParamsCreate(&p, b.p), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        std::vector<Setter> v;
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 4 : 1000000000);
                         Buf<char> b(path.c_str(), path.size() + 1);
                         return took(nm, umfFileMemoryProviderParamsSetPath(p, b.p), "SetPath");
                     },
                     [this](Rng &) { umfFileMemoryProviderParamsSetPath(p, (dir + "/yet_another_path").c_str()); },
                     [this](Rng &r) {
                         switch (r.below(3)) {
                         case 0:
                             refused(umfFileMemoryProviderParamsSetPath(p, nullptr), "SetPath(NULL)");
                             break;
                         case 1:
                             refused(umfFileMemoryProviderParamsSetPath(p, ""), "SetPath(empty)");
                             break;
                         default:
                             refused(umfFileMemoryProviderParamsSetPath(nullptr, "x"), "SetPath of NULL");
                         }
                     },
                     [] { return true; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfFileMemoryProviderParamsSetProtection(p, *prot), "SetProtection");
                     },
                     [this](Rng &r) { umfFileMemoryProviderParamsSetProtection(p, (unsigned)r.below(16)); },
                     [](Rng &) { refused(umfFileMemoryProviderParamsSetProtection(nullptr, 2), "SetProtection(NULL)"); }, [this] { return (bool)prot; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfFileMemoryProviderParamsSetVisibility(p, *vis), "SetVisibility");
                     },
                     [this](Rng &) { umfFileMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED); },
                     [](Rng &) { refused(umfFileMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_SHARED), "SetVisibility(NULL)"); },
                     [this] { return (bool)vis; }});
        runSetters(r, v, messy);
    }
    void reset() {
        umfFileMemoryProviderParamsSetProtection(p, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        umfFileMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_PRIVATE);
    }
    void destroy() override {
        CHECK(umfFileMemoryProviderParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    void *make(umf_result_t *q) override {
        unlink(path.c_str());
        umf_memory_provider_handle_t h = nullptr;
        *q = umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &h);
        note("create %d", *q);
        note("exists %d", access(path.c_str(), F_OK) == 0);
        if (*q == UMF_RESULT_SUCCESS) {
            CHECK(access(path.c_str(), F_OK) == 0, "C23:file-path", "the provider is made but the file set is not there");
            cnt("files");
        }
        return *q ? nullptr : h;
    }
    void use(void *x, uint64_t script) override {
        useProvider((umf_memory_provider_handle_t)x, script);
        umfMemoryProviderDestroy((umf_memory_provider_handle_t)x);
        struct stat sb;
        note("size %ld", stat(path.c_str(), &sb) ? -1l : (long)sb.st_size);
        unlink(path.c_str());
    }
    void absolute(const Trace &) override {
        unsigned pr = prot.value_or(UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        int want = (pr & UMF_PROTECTION_READ ? PROT_READ : 0) | (pr & UMF_PROTECTION_WRITE ? PROT_WRITE : 0) | (pr & UMF_PROTECTION_EXEC ? PROT_EXEC : 0);
        bool shared = vis.value_or(UMF_MEM_MAP_PRIVATE) == UMF_MEM_MAP_SHARED;
        for (auto &m : maps) {
            CHECK(m.prot == want, "C23:file-protection", "mapped with %d, set %#x", m.prot, pr);
            CHECK(((m.flags & 0x0f) == MAP_SHARED || (m.flags & 0x0f) == MAP_SHARED_VALIDATE) == shared, "C23:file-visibility", "mapped with flags %#x", m.flags);
        }
        DIR *d = opendir(dir.c_str());
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.' && strncmp(e->d_name, "fakedax", 7) && strcmp(e->d_name, "log")) {
                viol("C23:file-other", "a file '%s' is made that was not the path when the provider was created", e->d_name);
                unlinkat(dirfd(d), e->d_name, 0);
            }
        closedir(d);
    }
    std::string text() override { return "file " + rel(path.c_str()); }
};
struct DaxKind : Kind {
    int file = 0;
    size_t size = 0;
    std::optional<unsigned> prot;
    umf_devdax_memory_provider_params_handle_t p = nullptr;
    auto vals() { return std::tie(file, size, prot); }
    std::string pathOf(int f) { return dir + "/fakedax" + std::string(f + 1, 'x') + std::to_string(f); }
    DaxKind() {
        for (int i = 0; i < 3; i++) {
            int fd = open(pathOf(i).c_str(), O_RDWR | O_CREAT, 0600);
            if (ftruncate(fd, 64 << 20))
                abort();
            close(fd);
        }
    }
    void roll(Rng &r) override {
        file = (int)r.below(3);
        size = ((size_t)2 << 20) * r.range(1, 16);
        prot.reset();
        if (r.chance(1, 2))
            prot = (unsigned)r.pick(std::vector<int>{2, 6, 4, 14, 1});
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 5)) {
            if (r.chance(1, 4))
                longPath<umf_devdax_memory_provider_params_handle_t>(
                    r, umfDevDaxMemoryProviderOps(), [](umf_devdax_memory_provider_params_handle_t *p, const char *s) { return umfDevDaxMemoryProviderParamsCreate(p, s, 2 << 20); },
                    umfDevDaxMemoryProviderParamsDestroy);
            umf_devdax_memory_provider_params_handle_t x = nullptr;
            switch (r.below(3)) {
            case 0:
                refused(umfDevDaxMemoryProviderParamsCreate(nullptr, "x", 4096), "ParamsCreate(NULL)");
                break;
            case 1:
                refused(umfDevDaxMemoryProviderParamsCreate(&x, nullptr, 4096), "ParamsCreate without a path");
                break;
            case 2:
                refused(umfDevDaxMemoryProviderParamsCreate(&x, "", 4096), "ParamsCreate with an empty path");
                break;
            }
        }
        for (;;) {
            NoMem nm(r, messy ? 6 : 1000000000);
            if (nm.on)
                ba::fail_at = r.range(1, 2);
            p = nullptr;
            std::string s = pathOf(messy ? (int)r.below(3) : file);
            Buf<char> b(s.c_str(), s.size() + 1);
            if (took(nm, umfDevDaxMemoryProviderParamsCreate(&p, b.p, messy ? 2 << 20 : size), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        std::vector<Setter> v;
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 4 : 1000000000);
                         std::string s = pathOf(file);
                         Buf<char> b(s.c_str(), s.size() + 1);
                         return took(nm, umfDevDaxMemoryProviderParamsSetDeviceDax(p, b.p, size), "SetDeviceDax");
                     },
                     [this](Rng &r) { umfDevDaxMemoryProviderParamsSetDeviceDax(p, pathOf((int)r.below(3)).c_str(), 4096 * r.range(1, 100)); },
                     [this](Rng &r) {
                         switch (r.below(3)) {
                         case 0:
                             refused(umfDevDaxMemoryProviderParamsSetDeviceDax(p, nullptr, 4096), "SetDeviceDax(NULL)");
                             break;
                         case 1:
                             refused(umfDevDaxMemoryProviderParamsSetDeviceDax(p, "", 4096), "SetDeviceDax(empty)");
                             break;
                         default:
                             refused(umfDevDaxMemoryProviderParamsSetDeviceDax(nullptr, "x", 4096), "SetDeviceDax of NULL");
                         }
                     },
                     [] { return true; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfDevDaxMemoryProviderParamsSetProtection(p, *prot), "SetProtection");
                     },
                     [this](Rng &r) { umfDevDaxMemoryProviderParamsSetProtection(p, (unsigned)r.range(1, 15)); },
                     [this](Rng &r) {
                         switch (r.below(3)) {
                         case 0:
                             refused(umfDevDaxMemoryProviderParamsSetProtection(nullptr, 2), "SetProtection(NULL)");
                             break;
                         case 1:
                             refused(umfDevDaxMemoryProviderParamsSetProtection(p, 0), "SetProtection(0)");
                             break;
                         default:
                             refused(umfDevDaxMemoryProviderParamsSetProtection(p, (unsigned)(16 << r.below(20)) | (unsigned)r.below(16)), "SetProtection(garbage)");
                         }
                     },
                     [this] { return (bool)prot; }});
        runSetters(r, v, messy);
    }
    void reset() { umfDevDaxMemoryProviderParamsSetProtection(p, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE); }
    void destroy() override {
        CHECK(umfDevDaxMemoryProviderParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    void *make(umf_result_t *q) override {
        umf_memory_provider_handle_t h = nullptr;
        *q = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), p, &h);
        note("create %d", *q);
        return *q ? nullptr : h;
    }
    void use(void *x, uint64_t script) override {
        auto h = (umf_memory_provider_handle_t)x;
        void *a = nullptr;
        // all of it, and nothing more
        umf_result_t q = umfMemoryProviderAlloc(h, size, 0, &a);
        note("all %d", q);
        if (!q)
            umfMemoryProviderFree(h, a, size);
        CHECK(q == UMF_RESULT_SUCCESS, "C23:dax-size", "the size set cannot be allocated: %d", q);
        q = umfMemoryProviderAlloc(h, size + (2 << 20), 0, &a);
        CHECK(q != UMF_RESULT_SUCCESS, "C23:dax-size", "more than the size set can be allocated");
        useProvider(h, script);
        umfMemoryProviderDestroy(h);
    }
    void absolute(const Trace &) override {
        unsigned pr = prot.value_or(UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        int want = (pr & UMF_PROTECTION_READ ? PROT_READ : 0) | (pr & UMF_PROTECTION_WRITE ? PROT_WRITE : 0) | (pr & UMF_PROTECTION_EXEC ? PROT_EXEC : 0);
        for (auto &m : maps)
            CHECK(m.prot == want, "C23:dax-protection", "mapped with %d, set %#x", m.prot, pr);
        for (auto &o : opens)
            CHECK(o == pathOf(file), "C23:dax-path", "device '%s' opened", o.c_str());
    }
    std::string text() override { return "devdax " + std::to_string(file) + " " + std::to_string(size); }
};
struct FixedKind : Kind {
    static constexpr size_t N = 1 << 21;
    char *mem;
    size_t off = 0, size = 0;
    umf_fixed_memory_provider_params_handle_t p = nullptr;
    auto vals() { return std::tie(off, size); }
    FixedKind() { mem = (char *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    ~FixedKind() override { munmap(mem, N); }
    void roll(Rng &r) override {
        off = 4096 * r.below(200);
        size = 4096 * r.range(8, 300);
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 5)) {
            umf_fixed_memory_provider_params_handle_t x = nullptr;
            switch (r.below(3)) {
            case 0:
                refused(umfFixedMemoryProviderParamsCreate(nullptr, mem, 4096), "ParamsCreate(NULL)");
                break;
            case 1:
                refused(umfFixedMemoryProviderParamsCreate(&x, nullptr, 4096), "ParamsCreate without memory");
                break;
            case 2:
                refused(umfFixedMemoryProviderParamsCreate(&x, mem, 0), "ParamsCreate with size 0");
                break;
            }
        }
        for (;;) {
            NoMem nm(r, messy ? 6 : 1000000000);
            p = nullptr;
            if (took(nm, umfFixedMemoryProviderParamsCreate(&p, messy ? mem : mem + off, messy ? 8192 : size), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        std::vector<Setter> v;
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfFixedMemoryProviderParamsSetMemory(p, mem + off, size), "SetMemory");
                     },
                     [this](Rng &r) { umfFixedMemoryProviderParamsSetMemory(p, mem, 4096 * r.range(1, 100)); },
                     [this](Rng &r) {
                         switch (r.below(3)) {
                         case 0:
                             refused(umfFixedMemoryProviderParamsSetMemory(p, nullptr, 4096), "SetMemory(NULL)");
                             break;
                         case 1:
                             refused(umfFixedMemoryProviderParamsSetMemory(p, mem, 0), "SetMemory(0)");
                             break;
                         default:
                             refused(umfFixedMemoryProviderParamsSetMemory(nullptr, mem, 4096), "SetMemory of NULL");
                         }
                     },
                     [] { return true; }});
        runSetters(r, v, messy);
    }
    void reset() {}
    void destroy() override {
        CHECK(umfFixedMemoryProviderParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    void *make(umf_result_t *q) override {
        umf_memory_provider_handle_t h = nullptr;
        *q = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &h);
        note("create %d", *q);
        CHECK(*q == UMF_RESULT_SUCCESS, "C23:fixed-create", "create = %d", *q);
        return *q ? nullptr : h;
    }
    void use(void *x, uint64_t script) override {
        auto h = (umf_memory_provider_handle_t)x;
        void *a = nullptr;
        umf_result_t q = umfMemoryProviderAlloc(h, size, 0, &a);
        CHECK(q == UMF_RESULT_SUCCESS && a == mem + off, "C23:fixed-memory", "the whole memory set: result %d, at offset %zd, set %zu", q, (char *)a - mem, off);
        if (!q)
            umfMemoryProviderFree(h, a, size);
        q = umfMemoryProviderAlloc(h, size + 1, 0, &a);
        CHECK(q != UMF_RESULT_SUCCESS, "C23:fixed-memory", "more than the memory set can be allocated");
        useProvider(h, script);
        umfMemoryProviderDestroy(h);
    }
    std::string text() override { return "fixed " + std::to_string(off) + "+" + std::to_string(size); }
};
// ------------------------------------------------------------------ pools: what they ask of a provider
struct Up {
    umf_memory_provider_handle_t h = nullptr;
    std::map<void *, size_t> live;
    std::vector<size_t> asked;
    uint64_t frees = 0;
    static umf_result_t init(void *q, void **o) {
        *o = q;
        return UMF_RESULT_SUCCESS;
    }
    static void fini(void *) {}
    static umf_result_t alloc(void *s, size_t n, size_t al, void **o) {
        Up *u = (Up *)s;
        note("provider alloc %zu/%zu", n, al);
        u->asked.push_back(n);
        // the same places every time, so that two runs differ only by what is asked
        *o = u->take(n, al);
        u->live[*o] = n;
        return UMF_RESULT_SUCCESS;
    }
    static umf_result_t free_(void *s, void *p, size_t n) {
        Up *u = (Up *)s;
        note("provider free %zu", n);
        u->frees++;
        u->live.erase(p);
        return UMF_RESULT_SUCCESS;
    }
    static void err(void *, const char **m, int32_t *e) {
        *m = "";
        *e = 0;
    }
    static umf_result_t rps(void *, size_t, size_t *o) {
        *o = 4096;
        return UMF_RESULT_SUCCESS;
    }
    static umf_result_t mps(void *, void *, size_t *o) {
        *o = 4096;
        return UMF_RESULT_SUCCESS;
    }
    static const char *name(void *) { return "up"; }
    static char *arena;
    static constexpr size_t ASZ = 1ul << 31;
    size_t next = 0;
    void *take(size_t n, size_t al) {
        if (al < 65536)
            al = 65536;
        next = (next + al - 1) / al * al;
        void *p = arena + next;
        next += (n + 4095) / 4096 * 4096;
        if (next > ASZ)
            abort();
        return p;
    }
    Up() {
        if (!arena)
            arena = (char *)__real_mmap(nullptr, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        umf_memory_provider_ops_t o{};
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = init;
        o.finalize = fini;
        o.alloc = alloc;
        o.free = free_;
        o.get_last_native_error = err;
        o.get_recommended_page_size = rps;
        o.get_min_page_size = mps;
        o.get_name = name;
        if (umfMemoryProviderCreate(&o, this, &h))
            abort();
    }
    ~Up() {
        umfMemoryProviderDestroy(h);
        __real_madvise(arena, next, MADV_DONTNEED);
        ASAN_unpoison();
    }
    void ASAN_unpoison();
};
char *Up::arena;
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
void Up::ASAN_unpoison() {
    if (__asan_unpoison_memory_region)
        __asan_unpoison_memory_region(arena, next);
}
struct PoolObj {
    Up up;
    umf_memory_pool_handle_t pool = nullptr;
};
std::string logpath;
size_t logpos() {
    struct stat sb;
    return stat(logpath.c_str(), &sb) ? 0 : (size_t)sb.st_size;
}
std::string logfrom(size_t pos) {
    std::string s;
    FILE *f = fopen(logpath.c_str(), "r");
    if (!f)
        return s;
    fseek(f, (long)pos, SEEK_SET);
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)))
        s.append(b, n);
    fclose(f);
    return s;
}
struct DisjKind : Kind {
    std::optional<size_t> slab, maxp, cap, minb;
    std::optional<int> trace;
    std::optional<std::string> name;
    std::optional<int> lim;
    umf_disjoint_pool_shared_limits_handle_t limits[2] = {};
    size_t limit[2] = {0, 200000};
    umf_disjoint_pool_params_handle_t p = nullptr;
    auto vals() { return std::tie(slab, maxp, cap, minb, trace, name, lim); }
    bool logged;
    explicit DisjKind(bool l) : logged(l) {
        for (int i = 0; i < 2; i++)
            limits[i] = umfDisjointPoolSharedLimitsCreate(limit[i]);
    }
    ~DisjKind() override {
        for (auto *l : limits)
            umfDisjointPoolSharedLimitsDestroy(l);
    }
    void roll(Rng &r) override {
        slab.reset(), maxp.reset(), cap.reset(), minb.reset(), trace.reset(), name.reset(), lim.reset();
        if (r.chance(3, 4))
            slab = r.chance(1, 3) ? r.range(1, 300000) : (size_t)4096 << r.below(7);
        if (r.chance(3, 4))
            maxp = r.chance(1, 2) ? r.logsize(200000) : (size_t)1 << r.range(5, 18);
        if (r.chance(2, 3))
            cap = r.below(8);
        if (r.chance(2, 3))
            minb = (size_t)1 << r.below(15);
        if (logged || r.chance(1, 2))
            trace = logged ? 3 : (int)r.below(5) - 1;
        if (logged ? r.chance(3, 4) : r.chance(1, 2)) {
            std::string s;
            randomName(r, s, 100);
            name = s;
        }
        if (r.chance(1, 3))
            lim = (int)r.below(2);
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 10))
            refused(umfDisjointPoolParamsCreate(nullptr), "ParamsCreate(NULL)");
        for (;;) {
            NoMem nm(r, messy ? 6 : 1000000000);
            p = nullptr;
            if (took(nm, umfDisjointPoolParamsCreate(&p), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        std::vector<Setter> v;
#define SIMPLE(FN, FIELD, OTHER, BAD)                                                                                                                      \
    v.push_back({[this](bool m, Rng &r) {                                                                                                                  \
                     NoMem nm(r, m ? 8 : 1000000000);                                                                                                      \
                     return took(nm, FN(p, *FIELD), #FN);                                                                                                  \
                 },                                                                                                                                        \
                 [this](Rng &r) { FN(p, OTHER); }, [this](Rng &r) { BAD; }, [this] { return (bool)FIELD; }})
        SIMPLE(umfDisjointPoolParamsSetSlabMinSize, slab, r.below(100000), (void)r; refused(umfDisjointPoolParamsSetSlabMinSize(nullptr, 4096), "SetSlabMinSize(NULL)"));
        SIMPLE(umfDisjointPoolParamsSetMaxPoolableSize, maxp, r.below(100000), (void)r; refused(umfDisjointPoolParamsSetMaxPoolableSize(nullptr, 4096), "SetMaxPoolableSize(NULL)"));
        SIMPLE(umfDisjointPoolParamsSetCapacity, cap, r.below(10), (void)r; refused(umfDisjointPoolParamsSetCapacity(nullptr, 4), "SetCapacity(NULL)"));
        SIMPLE(umfDisjointPoolParamsSetMinBucketSize, minb, (size_t)1 << r.below(12), if (r.chance(1, 4)) refused(umfDisjointPoolParamsSetMinBucketSize(nullptr, 4), "SetMinBucketSize(NULL)");
               else refused(umfDisjointPoolParamsSetMinBucketSize(p, r.chance(1, 3) ? 0 : ((size_t)3 << r.below(60)) | (r.next() & 1)), "SetMinBucketSize(not a power of 2)"));
        SIMPLE(umfDisjointPoolParamsSetTrace, trace, (int)r.below(4), (void)r; refused(umfDisjointPoolParamsSetTrace(nullptr, 4), "SetTrace(NULL)"));
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 8 : 1000000000);
                         return took(nm, umfDisjointPoolParamsSetSharedLimits(p, limits[*lim]), "SetSharedLimits");
                     },
                     [this](Rng &r) { umfDisjointPoolParamsSetSharedLimits(p, limits[r.below(2)]); },
                     [this](Rng &) { refused(umfDisjointPoolParamsSetSharedLimits(nullptr, limits[0]), "SetSharedLimits(NULL)"); }, [this] { return (bool)lim; }});
        v.push_back({[this](bool m, Rng &r) {
                         NoMem nm(r, m ? 6 : 1000000000);
                         Buf<char> b(name->c_str(), name->size() + 1);
                         return took(nm, umfDisjointPoolParamsSetName(p, b.p), "SetName");
                     },
                     [this](Rng &r) {
                         std::string s;
                         randomName(r, s, 90);
                         umfDisjointPoolParamsSetName(p, s.c_str());
                     },
                     [this](Rng &r) {
                         if (r.chance(1, 2))
                             refused(umfDisjointPoolParamsSetName(nullptr, "x"), "SetName of NULL");
                         else
                             refused(umfDisjointPoolParamsSetName(p, nullptr), "SetName(NULL)");
                     },
                     [this] { return (bool)name; }});
        runSetters(r, v, messy);
    }
    void reset() {
        umfDisjointPoolParamsSetSlabMinSize(p, 0);
        umfDisjointPoolParamsSetMaxPoolableSize(p, 0);
        umfDisjointPoolParamsSetCapacity(p, 0);
        umfDisjointPoolParamsSetMinBucketSize(p, 8);
        umfDisjointPoolParamsSetTrace(p, 0);
        umfDisjointPoolParamsSetSharedLimits(p, nullptr);
        umfDisjointPoolParamsSetName(p, "disjoint_pool");
    }
    void destroy() override {
        CHECK(umfDisjointPoolParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    size_t lpos = 0;
    void *make(umf_result_t *q) override {
        if (logged)
            lpos = logpos();
        auto *o = new PoolObj;
        *q = umfPoolCreate(umfDisjointPoolOps(), o->up.h, p, 0, &o->pool);
        note("create %d", *q);
        if (*q) {
            delete o;
            return nullptr;
        }
        return o;
    }
    void use(void *x, uint64_t script) override {
        auto *o = (PoolObj *)x;
        Rng r(script);
        std::vector<void *> b;
        size_t n = r.range(10, 80);
        size_t top = r.chance(1, 2) ? 4096 : 300000;
        size_t big = std::min<size_t>(maxp.value_or(0), (size_t)1 << 31);
        if (big > slab.value_or(0) && !lim) { // slabs of one chunk each: exactly the capacity is kept
            size_t c = cap.value_or(0), k = c + r.below(4);
            for (size_t i = 0; i < k; i++)
                b.push_back(umfPoolMalloc(o->pool, big));
            for (void *q : b)
                umfPoolFree(o->pool, q);
            b.clear();
            CHECK(o->up.live.size() == std::min(c, k), "C23:disjoint-capacity", "%zu of %zu slabs kept, the capacity is %zu", o->up.live.size(), k, c);
            note("kept %zu", o->up.live.size());
            cnt("capacities");
        }
        for (size_t i = 0; i < n; i++) {
            if (b.size() && r.chance(2, 5)) {
                size_t k = r.below(b.size());
                umfPoolFree(o->pool, b[k]);
                b.erase(b.begin() + k);
                note("free");
            } else {
                size_t s = r.logsize(top) + 1;
                size_t before = o->up.asked.size();
                void *q = umfPoolMalloc(o->pool, s);
                CHECK(q, "C23:disjoint-alloc", "umfPoolMalloc(%zu) failed", s);
                note("malloc %zu", s);
                if (q)
                    b.push_back(q);
                size_t cut = std::min<size_t>(maxp.value_or(0), (size_t)1 << 31);
                if (s > cut)
                    CHECK(o->up.asked.size() == before + 1 && o->up.asked.back() == s, "C23:disjoint-poolable", "%zu bytes are pooled, %zu is the most to be", s, cut);
                else if (o->up.asked.size() > before)
                    CHECK(o->up.asked.back() >= slab.value_or(0), "C23:disjoint-slab", "%zu bytes asked of the provider, the least set is %zu", o->up.asked.back(),
                          slab.value_or(0));
            }
        }
        for (void *q : b)
            umfPoolFree(o->pool, q);
        if (lim && *lim == 0)
            CHECK(o->up.live.empty(), "C23:disjoint-limits", "%zu slabs kept with a shared limit of 0", o->up.live.size());
        umfPoolDestroy(o->pool);
        delete o;
        if (logged) {
            std::string t = logfrom(lpos);
            std::string want = name.value_or("disjoint_pool").substr(0, 63);
            // the name as the traces show it: a word of its own
            bool seen = false;
            for (size_t at = t.find(want); at != std::string::npos && !seen; at = t.find(want, at + 1)) {
                auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
                size_t e = at + want.size();
                bool longer = name && name->size() > 63;
                seen = (at == 0 || !word(t[at - 1])) && (e >= t.size() || !word(t[e]) || (longer && e + 1 < t.size() && t[e] == (*name)[63] && !word(t[e + 1])));
            }
            CHECK(seen, "C23:disjoint-name", "the pool's name '%s' is not in its traces", want.c_str());
            cnt("names_seen");
        }
    }
    std::string text() override {
        char b[300];
        snprintf(b, sizeof b, "disjoint slab %ld max %ld cap %ld minb %ld trace %d lim %d", slab ? (long)*slab : -1, maxp ? (long)*maxp : -1, cap ? (long)*cap : -1,
                 minb ? (long)*minb : -1, trace ? *trace : -9, lim ? *lim : -1);
        return b;
    }
};
struct ScalKind : Kind {
    std::optional<size_t> gran;
    std::optional<bool> keep;
    umf_scalable_pool_params_handle_t p = nullptr;
    auto vals() { return std::tie(gran, keep); }
    void roll(Rng &r) override {
        gran.reset(), keep.reset();
        if (r.chance(3, 4))
            gran = (size_t)65536 << r.below(6);
        if (r.chance(2, 3))
            keep = r.chance(1, 2);
    }
    bool create(Rng &r, bool messy) override {
        if (messy && r.chance(1, 10))
            refused(umfScalablePoolParamsCreate(nullptr), "ParamsCreate(NULL)");
        for (;;) {
            NoMem nm(r, messy ? 6 : 1000000000);
            p = nullptr;
            if (took(nm, umfScalablePoolParamsCreate(&p), "ParamsCreate"))
                break;
        }
        change(r, messy);
        return true;
    }
    void change(Rng &r, bool messy) override {
        std::vector<Setter> v;
        SIMPLE(umfScalablePoolParamsSetGranularity, gran, r.range(1, 1000000), if (r.chance(1, 2)) refused(umfScalablePoolParamsSetGranularity(nullptr, 4), "SetGranularity(NULL)");
               else refused(umfScalablePoolParamsSetGranularity(p, 0), "SetGranularity(0)"));
        SIMPLE(umfScalablePoolParamsSetKeepAllMemory, keep, r.chance(1, 2), (void)r; refused(umfScalablePoolParamsSetKeepAllMemory(nullptr, true), "SetKeepAllMemory(NULL)"));
        runSetters(r, v, messy);
    }
    void reset() {
        umfScalablePoolParamsSetGranularity(p, 2 * 1024 * 1024);
        umfScalablePoolParamsSetKeepAllMemory(p, false);
    }
    void destroy() override {
        CHECK(umfScalablePoolParamsDestroy(p) == UMF_RESULT_SUCCESS, "C23:destroy", "ParamsDestroy failed");
        p = nullptr;
    }
    void *make(umf_result_t *q) override {
        auto *o = new PoolObj;
        *q = umfPoolCreate(umfScalablePoolOps(), o->up.h, p, 0, &o->pool);
        note("create %d", *q);
        if (*q) {
            delete o;
            return nullptr;
        }
        return o;
    }
    void use(void *x, uint64_t script) override {
        auto *o = (PoolObj *)x;
        Rng r(script);
        std::vector<void *> b;
        size_t n = r.range(5, 40);
        for (size_t i = 0; i < n; i++) {
            if (b.size() && r.chance(2, 5)) {
                size_t k = r.below(b.size());
                umfPoolFree(o->pool, b[k]);
                b.erase(b.begin() + k);
            } else {
                size_t s = r.logsize(3000000) + 1;
                void *q = umfPoolMalloc(o->pool, s);
                CHECK(q, "C23:scalable-alloc", "umfPoolMalloc(%zu) failed", s);
                if (q)
                    b.push_back(q);
            }
        }
        for (void *q : b)
            umfPoolFree(o->pool, q);
        for (size_t a : o->up.asked) {
            CHECK(a % gran.value_or(2 * 1024 * 1024) == 0, "C23:scalable-granularity", "%zu bytes asked of the provider, granularity %zu", a,
                  gran.value_or(2 * 1024 * 1024));
            cnt("granules");
        }
        if (keep && *keep)
            CHECK(o->up.frees == 0, "C23:scalable-keep", "memory given back although all is to be kept");
        else
            cnt(o->up.frees ? "gave_back" : "gave_nothing_back");
        umfPoolDestroy(o->pool);
        CHECK(o->up.live.empty(), "C23:scalable-destroy", "memory kept after the pool");
        delete o;
    }
    std::string text() override { return "scalable " + std::to_string(gran.value_or(0)) + " " + std::to_string(keep.value_or(false)); }
};

template <class... T> std::tuple<T...> valuesOf(std::tuple<T &...> t) { return t; }
template <class K> void kindCase(K &k, Rng &r) {
    label("%s parameters", ctx().mode.c_str());
    uint64_t ser = ba::serial();
    int64_t live = ba::st.live_blocks, pools = ba::st.live_pools;
    int fds = openFds();
    k.roll(r);
    uint64_t script = r.next();
    auto clean = [&](bool explicitDefaults) {
        return record([&] {
            Rng q(1);
            Trace *t = rec;
            rec = nullptr; // only what the object makes is compared
            k.create(q, false);
            if (explicitDefaults) { // the documented defaults said aloud
                k.reset();
                k.change(q, false);
            }
            rec = t;
            umf_result_t e;
            void *x = k.make(&e);
            if (x)
                k.use(x, script);
            rec = nullptr;
            k.destroy();
        });
    };
    Trace ref = clean(false);
    if (r.chance(1, 2))
        checkSame(clean(true), ref, ("defaults set explicitly: " + k.text()).c_str());
    sig(mix(ref.size(), std::hash<std::string>()(k.text())));
    // the same through a history
    k.create(r, true);
    bool changeBefore = r.chance(2, 3), destroyBefore = r.chance(1, 2);
    auto saved = valuesOf(k.vals());
    Trace got;
    bool made = false;
    got = record([&] {
        umf_result_t e;
        void *x = k.make(&e);
        if (!x)
            return;
        made = true;
        Trace *t = rec;
        rec = nullptr;
        hooks = false;
        if (changeBefore) {
            k.roll(r);
            k.change(r, true);
            // and something else altogether
            if (r.chance(1, 2))
                k.reset();
        }
        if (destroyBefore)
            k.destroy();
        k.vals() = saved;
        hooks = true;
        rec = t;
        k.use(x, script);
    });
    checkSame(got, ref, k.text().c_str());
    k.absolute(got);
    cnt(made ? "made" : "creation_refused");
    if (changeBefore && made)
        cnt("changed_after_creation");
    if (destroyBefore && made)
        cnt("destroyed_after_creation");
    if (!(made && destroyBefore)) {
        // a changed object makes what it says now
        if (r.chance(1, 2)) {
            k.reset();
            k.roll(r);
            k.change(r, true);
            Trace g2 = record([&] {
                umf_result_t e;
                void *x = k.make(&e);
                if (x)
                    k.use(x, script);
            });
            k.absolute(g2);
            auto *obj = k.p;
            Trace r2 = clean(false);
            k.p = obj;
            checkSame(g2, r2, ("object used again: " + k.text()).c_str());
            cnt("objects_used_again");
        }
        k.destroy();
    }
    if (std::is_same_v<K, DisjKind> || std::is_same_v<K, ScalKind>) { // the tracker keeps free nodes until then
        umfTearDown();
        umfInit();
    }
    CHECK(ba::st.live_blocks == live && ba::st.live_pools == pools, "C23:leak", "%ld metadata blocks left: %s", (long)(ba::st.live_blocks - live),
          ba::leaks(ser).c_str());
    CHECK(openFds() == fds, "C23:fds", "%d descriptors left", openFds() - fds);
    sample("%s: %zu events", k.text().c_str(), ref.size());
}
} // namespace
void harness_begin() {
    const char *s = getenv("VERIF_SCRATCH");
    dir = std::string(s ? s : "/tmp") + "/c23." + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    if (ctx().mode == "disjlog") {
        logpath = dir + "/log";
        setenv("UMF_LOG", ("level:debug;flush:debug;output:file," + logpath).c_str(), 1);
    }
    umfTearDown();
    umfInit();
}
void run_case(uint64_t, Rng &r) {
    static OsKind os;
    const std::string &m = ctx().mode;
    if (m == "os")
        kindCase(os, r);
    else if (m == "file") {
        static FileKind k;
        kindCase(k, r);
    } else if (m == "devdax") {
        static DaxKind k;
        kindCase(k, r);
    } else if (m == "fixed") {
        static FixedKind k;
        kindCase(k, r);
    } else if (m == "disjoint" || m == "disjlog") {
        static DisjKind k(m == "disjlog");
        kindCase(k, r);
    } else if (m == "scalable") {
        static ScalKind k;
        kindCase(k, r);
    }
}
void harness_end() {
    if (DIR *d = opendir(dir.c_str())) {
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.')
                unlinkat(dirfd(d), e->d_name, 0);
        closedir(d);
    }
    rmdir(dir.c_str());
}
