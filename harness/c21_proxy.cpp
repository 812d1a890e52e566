// The proxy library (C21). mod: the library is opened as a module whose entry points are renamed, so that this
// instrumented process can use them from before its constructor to after its destructor and be its system
// allocator; preload: a program of our own runs under LD_PRELOAD; progs: programs of the system do.
#include "h.hpp"
#include "c21_api.h"
#include <cerrno>
#include <dlfcn.h>
#include <sys/wait.h>
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
using namespace h;
namespace {
enum Where { LEAK, POOL, SYS };
const char *whereName[] = {"early allocator", "pool", "system allocator"};
// ------------------------------------------------------------------ the system allocator
struct Call {
    char fn;
    size_t a, b;
    void *r;
};
thread_local std::vector<Call> calls;
const size_t HUGE_ = (size_t)1 << 40;
void *sMalloc(size_t n) {
    void *p = n > HUGE_ ? nullptr : malloc(n);
    calls.push_back({'m', n, 0, p});
    return p;
}
void *sCalloc(size_t k, size_t n) {
    size_t t;
    void *p = __builtin_mul_overflow(k, n, &t) || t > HUGE_ ? nullptr : calloc(k, n);
    calls.push_back({'c', k, n, p});
    return p;
}
void *sRealloc(void *q, size_t n) {
    void *p = n > HUGE_ ? nullptr : realloc(q, n);
    calls.push_back({'r', (size_t)q, n, p});
    return p;
}
void sFree(void *q) {
    calls.push_back({'f', (size_t)q, 0, nullptr});
    free(q);
}
extern "C" void *aligned_alloc(size_t, size_t);
void *sAligned(size_t al, size_t n) {
    void *p = nullptr;
    if (n <= HUGE_ && posix_memalign(&p, al < 8 ? 8 : al, n))
        p = nullptr;
    calls.push_back({'a', al, n, p});
    return p;
}
size_t sUsable(void *q);
std::string missing; // a symbol the system does not have
} // namespace
extern "C" size_t malloc_usable_size(void *);
namespace {
size_t sUsable(void *q) {
    size_t n = malloc_usable_size(q);
    calls.push_back({'u', (size_t)q, n, nullptr});
    return n;
}
} // namespace
extern "C" __attribute__((visibility("default"))) void *__wrap_dlsym(void *h, const char *name) {
    if (h == RTLD_NEXT) {
        if (missing == name)
            return nullptr;
        static const std::pair<const char *, void *> t[] = {{"malloc", (void *)sMalloc},   {"calloc", (void *)sCalloc},        {"realloc", (void *)sRealloc},
                                                            {"free", (void *)sFree},       {"aligned_alloc", (void *)sAligned}, {"malloc_usable_size", (void *)sUsable}};
        for (auto &x : t)
            if (!strcmp(x.first, name))
                return x.second;
    }
    return dlsym(h, name);
}
namespace {
// ------------------------------------------------------------------ the model
struct Blk {
    char *p;
    size_t n, al;
    Where w;
    uint64_t seed;
};
struct Mod;
Mod *mod = nullptr;
std::string exeDir() {
    char b[600];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    *strrchr(b, '/') = 0;
    return b;
}
// how the memory around p is mapped: "p" or "s" and the file
std::string mapping(void *p) {
    FILE *f = fopen("/proc/self/maps", "r");
    char l[700];
    std::string out = "(none)";
    while (fgets(l, sizeof l, f)) {
        unsigned long a, b;
        char perm[8], path[600] = "";
        sscanf(l, "%lx-%lx %7s %*s %*s %*s %599s", &a, &b, perm, path);
        if ((unsigned long)p >= a && (unsigned long)p < b) {
            out = std::string(1, perm[3]) + path;
            break;
        }
    }
    fclose(f);
    return out;
}
struct Mod {
    const px_api *api = nullptr;
    size_t thr = 0;      // sizes below it go to the system allocator
    int disp = 0;        // 0 private, 1 shared-fd, 2 shared-shm
    bool pool = false;   // the pool is there
    bool sys = false;    // and the system allocator
    std::mutex m;
    std::map<char *, size_t> live;
    std::vector<Blk> blocks; // of the main thread and handed over by others
    uint64_t hash = 1;
    bool ipcDone = false;

    Where want(size_t n) { return sys && n < thr ? SYS : pool ? POOL : LEAK; }
    void add(char *p, size_t n) {
        std::lock_guard<std::mutex> g(m);
        auto it = live.upper_bound(p);
        if (it != live.end())
            CHECK(p + n <= it->first, "C21:overlap", "[%p, +%zu) overlaps a live block at %p", (void *)p, n, (void *)it->first);
        if (it != live.begin()) {
            --it;
            CHECK(it->first + it->second <= p, "C21:overlap", "[%p, +%zu) overlaps a live block [%p, +%zu)", (void *)p, n, (void *)it->first, it->second);
        }
        live[p] = n;
    }
    void del(char *p) {
        std::lock_guard<std::mutex> g(m);
        live.erase(p);
    }
    void expectNone(const char *what) {
        CHECK(calls.empty(), "C21:system-call", "%s reached the system allocator ('%c' %zu %zu)", what, calls.empty() ? '-' : calls[0].fn, calls.empty() ? 0 : calls[0].a,
              calls.empty() ? 0 : calls[0].b);
    }
    void expectOne(const char *what, char fn, size_t a, size_t b) {
        CHECK(calls.size() == 1 && calls[0].fn == fn && calls[0].a == a && (fn == 'f' || fn == 'u' || fn == 'm' || calls[0].b == b), "C21:system-call",
              "%s: %zu calls of the system allocator, the first '%c' %zu %zu; expected '%c' %zu %zu", what, calls.size(), calls.empty() ? '-' : calls[0].fn,
              calls.empty() ? 0 : calls[0].a, calls.empty() ? 0 : calls[0].b, fn, a, b);
    }
    // a fresh block of the right kind
    void fresh(const char *what, char *p, size_t n, size_t al, Where w) {
        size_t mina = al ? al : n >= 16 && w != LEAK ? 16 : 8;
        CHECK(((uintptr_t)p & (mina - 1)) == 0, "C21:alignment", "%s(%zu): %p, alignment %zu", what, n, (void *)p, mina);
        bool inPool = umfPoolByPtr(p) != nullptr;
        CHECK(inPool == (w == POOL), "C21:routing", "%s(%zu): the block belongs %sto the pool, expected the %s (threshold %zu)", what, n, inPool ? "" : "not ", whereName[w],
              sys ? thr : 0);
        cnt(w == POOL ? "from_pool" : w == SYS ? "from_system" : "from_early");
        add(p, n);
    }
    void one(Rng &r, std::vector<Blk> &v) {
        calls.clear();
        unsigned op = (unsigned)r.below(20);
        size_t max = r.chance(1, 20) ? 3000000 : r.chance(1, 3) ? 100000 : 2000;
        size_t n = r.logsize(max);
        if (thr && thr < 4000000 && r.chance(1, 3))
            n = thr - 1 + r.below(3);
        if (!n)
            n = 1;
        hash = mix(hash, op * 1000003 + n);
        if (op < 5 || v.empty()) { // malloc
            Where w = want(n);
            char *p = (char *)api->malloc(n);
            if (w == SYS)
                expectOne("malloc", 'm', n, 0);
            else
                expectNone("malloc");
            if (!p) {
                viol("C21:malloc", "malloc(%zu) failed in the %s", n, whereName[w]);
                return;
            }
            fresh("malloc", p, n, 0, w);
            v.push_back({p, n, 0, w, r.next()});
            fill(p, n, v.back().seed);
        } else if (op < 7) { // calloc
            size_t k = r.chance(1, 2) ? 1 : 1 + r.below(64);
            size_t e = n / k ? n / k : 1;
            n = e * k;
            Where w = want(n);
            char *p = (char *)api->calloc(k, e);
            if (w == SYS)
                expectOne("calloc", 'c', k, e);
            else
                expectNone("calloc");
            if (!p) {
                viol("C21:calloc", "calloc(%zu, %zu) failed in the %s", k, e, whereName[w]);
                return;
            }
            fresh("calloc", p, n, 0, w);
            for (size_t i = 0; i < n; i++)
                if (p[i]) {
                    viol("C21:calloc-zero", "byte %zu of calloc(%zu, %zu) is %d", i, k, e, p[i]);
                    break;
                }
            v.push_back({p, n, 0, w, r.next()});
            fill(p, n, v.back().seed);
        } else if (op < 9) { // aligned_alloc
            size_t al = (size_t)8 << r.below(r.chance(1, 5) ? 15 : 10);
            Where w = want(n);
            char *p = (char *)api->aligned_alloc(al, n);
            if (w == SYS)
                expectOne("aligned_alloc", 'a', al, n);
            else
                expectNone("aligned_alloc");
            if (!p) {
                viol("C21:aligned", "aligned_alloc(%zu, %zu) failed in the %s", al, n, whereName[w]);
                return;
            }
            fresh("aligned_alloc", p, n, al, w);
            v.push_back({p, n, al, w, r.next()});
            fill(p, n, v.back().seed);
        } else if (op < 13) { // realloc
            size_t k = r.below(v.size());
            Blk &b = v[k];
            if (r.chance(1, 3))
                n = b.n / 2 + r.below(b.n + 2);
            if (!n)
                n = 1;
            del(b.p);
            char *p = (char *)api->realloc(b.p, n);
            if (b.w == SYS)
                expectOne("realloc", 'r', (size_t)b.p, n);
            else
                expectNone("realloc");
            if (!p) {
                viol("C21:realloc", "realloc(%zu -> %zu) failed in the %s", b.n, n, whereName[b.w]);
                v.erase(v.begin() + k);
                return;
            }
            if (checkfill(p, std::min(n, b.n), b.seed) != std::min(n, b.n))
                viol("C21:realloc-contents", "realloc(%zu -> %zu) in the %s changed the contents", b.n, n, whereName[b.w]);
            b.p = p;
            b.n = n;
            b.al = 0;
            fresh("realloc", p, n, 0, b.w); // where it was
            fill(p, n, b.seed);
            cnt("reallocs");
        } else if (op < 18) { // free
            size_t k = r.below(v.size());
            freeOne(v[k]);
            v.erase(v.begin() + k);
        } else if (op == 18) { // usable size
            Blk &b = v[r.below(v.size())];
            size_t u = api->malloc_usable_size(b.p);
            CHECK(u == 0 || u >= b.n, "C21:usable-size", "usable size %zu of a block of %zu bytes in the %s", u, b.n, whereName[b.w]);
            if (b.w == SYS)
                expectOne("malloc_usable_size", 'u', (size_t)b.p, 0);
            else
                expectNone("malloc_usable_size");
            if (b.w == POOL && u > b.n) { // all of it can be used
                std::lock_guard<std::mutex> g(m);
                auto it = live.upper_bound(b.p);
                CHECK(it == live.end() || it->first >= b.p + u, "C21:usable-size", "the usable size of a block reaches into another");
            }
            cnt("usable_sizes");
        } else { // what cannot be, and what does nothing
            switch (r.below(8)) {
            case 0:
                api->free(nullptr);
                break;
            case 1: {
                Blk &b = v[r.below(v.size())];
                size_t big = r.chance(1, 2) ? ((size_t)1 << 50) + r.below(1000) : SIZE_MAX - r.below(70000);
                CHECK(!api->realloc(b.p, big), "C21:huge", "realloc to %zu bytes succeeded in the %s", big, whereName[b.w]);
                check(b); // still there
                break;
            }
            case 2:
                CHECK(!api->malloc(SIZE_MAX - r.below(70000)), "C21:huge", "malloc of nearly SIZE_MAX succeeded");
                break;
            case 3: { // the product does not fit
                size_t k = ((size_t)1 << (33 + r.below(20))) + r.below(1000), e = ((size_t)1 << (33 + r.below(20))) + r.below(3);
                size_t t;
                if (!__builtin_mul_overflow(k, e, &t))
                    break;
                CHECK(!api->calloc(k, e), "C21:calloc-overflow", "calloc(%#zx, %#zx) succeeded (%s)", k, e, whereName[pool ? POOL : LEAK]);
                cnt("overflows");
                break;
            }
            case 4: {
                Blk b = v.back();
                v.pop_back();
                del(b.p);
                check(b);
                CHECK(!api->realloc(b.p, 0), "C21:realloc-0", "realloc(p, 0) returned a block");
                if (b.w == SYS)
                    expectOne("realloc(p, 0)", 'f', (size_t)b.p, 0);
                else
                    expectNone("realloc(p, 0)");
                break;
            }
            case 5: {
                Where w = want(n);
                char *p = (char *)api->realloc(nullptr, n);
                if (!p) {
                    viol("C21:malloc", "realloc(NULL, %zu) failed", n);
                    break;
                }
                fresh("realloc(NULL)", p, n, 0, w);
                v.push_back({p, n, 0, w, r.next()});
                fill(p, n, v.back().seed);
                break;
            }
            case 6: // a block of no bytes: none, or one of its own
                if (char *p = (char *)api->malloc(0)) {
                    add(p, 0);
                    del(p);
                    api->free(p);
                }
                break;
            case 7:
                CHECK(!api->aligned_alloc(64, SIZE_MAX - r.below(100)), "C21:huge", "aligned_alloc of nearly SIZE_MAX succeeded");
                break;
            }
            cnt("edges");
        }
        cnt("ops");
    }
    void check(Blk &b) {
        if (checkfill(b.p, b.n, b.seed) != b.n)
            viol("C21:contents", "the contents of a block of %zu bytes in the %s changed", b.n, whereName[b.w]);
    }
    void freeOne(Blk &b) {
        calls.clear();
        check(b);
        del(b.p);
        api->free(b.p);
        if (b.w == SYS)
            expectOne("free", 'f', (size_t)b.p, 0);
        else
            expectNone("free");
        if (b.w == POOL && b.n > 200000)
            cnt("big_frees");
        cnt("frees");
    }
    void run(Rng &r, size_t ops) {
        for (size_t i = 0; i < ops; i++)
            one(r, blocks);
    }
    void placement(Rng &r) {
        if (!pool)
            return;
        for (auto &b : blocks)
            if (b.w == POOL && r.chance(1, 6)) {
                std::string s = mapping(b.p), shm = "s/dev/shm/umf_proxy_lib_shm_pid_" + std::to_string(getpid());
                bool ok = disp == 0 ? s[0] == 'p' && s.find('/') == std::string::npos : disp == 1 ? s.compare(0, 8, "s/memfd:") == 0 || s.compare(0, 11, "s/secretmem") == 0 : s.compare(0, shm.size(), shm) == 0;
                CHECK(ok, "C21:disposition", "memory of the pool is mapped as '%s' with page disposition %d", s.c_str(), disp);
                cnt(disp == 0 ? "private_pages" : disp == 1 ? "fd_pages" : "shm_pages");
                break;
            }
    }
    void ipc(Rng &r) {
        if (!pool || !disp || ipcDone)
            return;
        for (auto &b : blocks)
            if (b.w == POOL) {
                umf_ipc_handle_t hd = nullptr;
                size_t sz = 0;
                umf_result_t q = umfGetIPCHandle(b.p, &hd, &sz);
                CHECK(q == UMF_RESULT_SUCCESS, "C21:ipc", "umfGetIPCHandle on memory with page disposition %d: %d", disp, q);
                if (q)
                    return;
                umf_ipc_handler_handle_t hh = nullptr;
                CHECK(umfPoolGetIPCHandler(umfPoolByPtr(b.p), &hh) == UMF_RESULT_SUCCESS, "C21:ipc", "umfPoolGetIPCHandler failed");
                void *x = nullptr;
                q = umfOpenIPCHandle(hh, hd, &x);
                CHECK(q == UMF_RESULT_SUCCESS, "C21:ipc", "umfOpenIPCHandle: %d", q);
                if (!q) {
                    CHECK(checkfill((char *)x, b.n, b.seed) == b.n, "C21:ipc", "the handle opens other bytes");
                    b.seed = r.next();
                    fill((char *)x, b.n, b.seed);
                    check(b);
                    umfCloseIPCHandle(x);
                    cnt("ipc");
                }
                umfPutIPCHandle(hd);
                ipcDone = true;
                return;
            }
    }
};
void threads(Mod &M, Rng &r) {
    size_t T = r.range(2, 4), ops = r.range(30, 150);
    std::vector<std::thread> ts;
    std::mutex bm;
    std::vector<Blk> box;
    std::vector<uint64_t> seeds;
    for (size_t t = 0; t < T; t++)
        seeds.push_back(r.next());
    std::vector<std::vector<Blk>> own(T);
    for (size_t i = 0; i < M.blocks.size(); i++)
        own[i % T].push_back(M.blocks[i]);
    M.blocks.clear();
    uint64_t h0 = M.hash;
    for (size_t t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            Rng q(seeds[t]);
            for (size_t i = 0; i < ops; i++) {
                M.one(q, own[t]);
                if (q.chance(1, 4)) {
                    std::lock_guard<std::mutex> g(bm);
                    if (own[t].size() && q.chance(1, 2)) {
                        box.push_back(own[t].back());
                        own[t].pop_back();
                    } else if (box.size()) {
                        own[t].push_back(box[0]);
                        box.erase(box.begin());
                    }
                }
            }
        });
    for (auto &t : ts)
        t.join();
    M.hash = h0;
    for (auto &o : own)
        M.blocks.insert(M.blocks.end(), o.begin(), o.end());
    M.blocks.insert(M.blocks.end(), box.begin(), box.end());
    cnt("threaded");
}
Rng *hookRng;
size_t earlyOps, lateOps;
std::string modPath;
std::string proxyEnv(Rng &r, size_t &thr, int &disp) {
    std::vector<std::string> el;
    thr = 0;
    if (r.chance(3, 5)) {
        thr = r.pick(std::vector<size_t>{0, 1, 2, 8, 64, 100, 1024, 4096, 65536, 1000000, (size_t)r.below(10000)});
        if (r.chance(1, 30))
            thr = 9223372036854775807ul;
        el.push_back("size.threshold=" + std::to_string(thr));
    }
    disp = (int)r.below(3);
    if (disp)
        el.push_back(disp == 1 ? "page.disposition=shared-fd" : "page.disposition=shared-shm");
    if (el.size() == 2 && r.chance(1, 2))
        std::swap(el[0], el[1]);
    std::string s;
    for (auto &e : el)
        s += (s.empty() ? "" : ";") + e;
    return s;
}
void fatalCase(Rng &r) {
    label("invalid configuration");
    bool noSym = r.chance(1, 2);
    std::string env;
    if (noSym)
        env = "size.threshold=" + std::to_string(1 + r.below(1000));
    else
        env = r.pick(std::vector<std::string>{"size.threshold=abc", "size.threshold=", "size.threshold=-1", "page.disposition=shared-fd;size.threshold=x1", "size.threshold= 5"});
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        setenv("UMF_PROXY", env.c_str(), 1);
        close(1);
        if (!getenv("C21_STDERR")) close(2);
        open("/dev/null", O_WRONLY);
        open("/dev/null", O_WRONLY);
        if (noSym)
            missing = r.pick(std::vector<std::string>{"malloc", "calloc", "realloc", "free", "aligned_alloc", "malloc_usable_size"});
        mod = nullptr;
        void *h = dlopen(modPath.c_str(), RTLD_NOW | RTLD_LOCAL);
        _exit(h ? 7 : 8);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 255, "C21:fatal", "with UMF_PROXY='%s'%s the library did not refuse to start (status %#x)", env.c_str(),
          noSym ? " and a symbol missing" : "", st);
    cnt("fatal");
}
void modCase(Rng &r) {
    if (r.chance(1, 25))
        return fatalCase(r);
    Mod M;
    size_t thr;
    std::string env = proxyEnv(r, thr, M.disp);
    M.thr = thr;
    label("proxy module");
    setenv("UMF_PROXY", env.c_str(), 1);
    char shm[64];
    snprintf(shm, sizeof shm, "/umf_proxy_lib_shm_pid_%d", getpid());
    shm_unlink(shm);
    earlyOps = r.chance(2, 3) ? r.below(120) : 0;
    lateOps = r.chance(1, 2) ? r.below(80) : 0;
    hookRng = &r;
    mod = &M;
    int fds = openFds();
    void *h = dlopen(modPath.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        viol("C21:dlopen", "%s", dlerror());
        return;
    }
    M.pool = true;
    M.sys = thr > 0;
    size_t n = r.range(1, 4);
    for (size_t i = 0; i < n; i++) {
        M.run(r, r.range(10, 150));
        if (r.chance(1, 3))
            M.placement(r);
        if (r.chance(1, 3))
            M.ipc(r);
        if (r.chance(1, 4))
            threads(M, r);
    }
    // what is in the pool is freed before the library goes
    for (size_t i = 0; i < M.blocks.size();)
        if (M.blocks[i].w == POOL || r.chance(1, 2)) {
            M.freeOne(M.blocks[i]);
            M.blocks.erase(M.blocks.begin() + i);
        } else
            i++;
    dlclose(h);
    shm_unlink(shm);
    CHECK(openFds() <= fds + 2, "C21:fds", "%d descriptors left", openFds() - fds); // the sanitizer may have opened its own
    sig(M.hash);
    cnt("modules");
    sample("UMF_PROXY='%s', %zu early and %zu late operations", env.c_str(), earlyOps, lateOps);
}
// ------------------------------------------------------------------ programs
struct Out {
    int status;
    std::string out;
};
Out runProgram(const std::vector<std::string> &argv, const std::vector<std::string> &env, const std::string &in) {
    std::string base = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/c21." + std::to_string(getpid());
    std::string fo = base + ".out", fi = base + ".in";
    FILE *f = fopen(fi.c_str(), "w");
    fwrite(in.data(), 1, in.size(), f);
    fclose(f);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open("/dev/null", O_WRONLY);
        dup2(a, 0);
        dup2(b, 1);
        dup2(getenv("C21_STDERR") ? 2 : c, 2);
        for (int i = 3; i < 100; i++)
            close(i);
        setpgid(0, 0);
        for (auto &e : env)
            putenv(strdup(e.c_str()));
        if (chdir(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"))
            _exit(126);
        alarm(60);
        std::vector<char *> av;
        for (auto &s : argv)
            av.push_back((char *)s.c_str());
        av.push_back(nullptr);
        execvp(av[0], av.data());
        _exit(127);
    }
    Out o;
    while (waitpid(pid, &o.status, 0) < 0)
        ;
    kill(-pid, SIGKILL);
    char shm[64];
    snprintf(shm, sizeof shm, "/umf_proxy_lib_shm_pid_%d", pid);
    shm_unlink(shm);
    f = fopen(fo.c_str(), "r");
    char b[65536];
    size_t n;
    while (f && (n = fread(b, 1, sizeof b, f)))
        o.out.append(b, n);
    if (f)
        fclose(f);
    unlink(fo.c_str());
    unlink(fi.c_str());
    return o;
}
std::string shared() { return exeDir() + "/../shared"; }
void preloadCase(Rng &r) {
    size_t thr;
    int disp;
    std::string env = proxyEnv(r, thr, disp);
    label("program under LD_PRELOAD");
    bool early = r.chance(2, 3);
    std::string pre = "LD_PRELOAD=" + shared() + "/libumf_proxy.so.0" + (early ? " " + shared() + "/libearly.so" : "");
    Out o = runProgram({shared() + "/c21prog", std::to_string(r.next() >> 1), std::to_string(thr), std::to_string(disp), std::to_string(r.below(5)), std::to_string(early)},
                       {"UMF_PROXY=" + env, pre}, "");
    bool ok = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0;
    size_t at = o.out.rfind("OK ");
    if (!ok || at == std::string::npos) {
        size_t bad = o.out.find("BAD ");
        viol("C21:program", "a program under the proxy library (UMF_PROXY='%s'): status %#x, '%s'", env.c_str(), o.status,
             o.out.substr(bad == std::string::npos ? 0 : bad, 300).c_str());
        return;
    }
    unsigned long ops, pool, sys, leak, th, hash;
    if (sscanf(o.out.c_str() + at, "OK %lu %lu %lu %lu %lu %lx", &ops, &pool, &sys, &leak, &th, &hash) == 6) {
        cnt("prog_ops", ops), cnt("prog_pool", pool), cnt("prog_system", sys), cnt("prog_early", leak), cnt("prog_threads", th);
        sig(hash);
    }
    cnt("programs");
}
void progsCase(uint64_t i, Rng &r) {
    // input of generated lines
    std::string in;
    size_t n = r.range(10, 3000);
    for (size_t k = 0; k < n; k++) {
        size_t l = r.logsize(80);
        for (size_t j = 0; j < l; j++)
            in += (char)("abcdefghijklmnopqrstuvwxyz 0123456789"[r.below(37)]);
        in += '\n';
    }
    static const std::vector<std::vector<std::string>> P = {
        {"sort"},
        {"sort", "-r", "-k2"},
        {"sort", "--parallel=4", "-u"},
        {"wc"},
        {"sed", "s/a\\(.*\\)b/\\1/g"},
        {"awk", "{ a[$1]++; n += length($0) } END { for (k in a) s += a[k]; print s, n, NR }"},
        {"grep", "-c", "[aeiou][0-9]"},
        {"tr", "a-z", "A-Z"},
        {"uniq", "-c"},
        {"od", "-c"},
        {"md5sum"},
        {"tac"},
        {"diff", "-", "/etc/passwd"},
        {"gzip", "-c", "-n"},
        {"xz", "-c", "-T2"},
        {"perl", "-e", "my %h; while (<STDIN>) { chomp; $h{$_}++ for split / /; } print join(',', map { \"$_=$h{$_}\" } sort keys %h), \"\\n\""},
        {"python3", "-c", "import sys,json,collections;l=sys.stdin.read().split();c=collections.Counter(l);print(json.dumps(sorted(c.items())));d=[bytearray(i*13%5000) for i in range(3000)];print(sum(map(len,d)))"},
        {"python3", "-c",
         "import threading,sys\nd=sys.stdin.read()\nr=[0]*4\ndef f(i):\n  for k in range(200): r[i]+=len(sorted(d.split()[k%7:]))\nt=[threading.Thread(target=f,args=(i,)) for i in "
         "range(4)]\n[x.start() for x in t];[x.join() for x in t];print(r)"},
        {"bash", "-c", "n=0; while read -r l; do n=$((n+${#l})); a[n]=$l; done; echo $n ${#a[@]}"},
        {"bash", "-c", "x=$(sort | head -5 | tr a-z b-za); echo \"$x\"; (echo sub; exec echo done)"},
        {"gcc", "-x", "c", "-S", "-O1", "-o", "-", "-"},
        {"cmake", "--help-module-list"},
        {"m4"},
    };
    const auto &p = P[i % P.size()];
    if (p[0] == "gcc") {
        in = "";
        for (size_t k = 0; k < n % 300 + 1; k++)
            in += "int f" + std::to_string(k) + "(int a) { int s = " + std::to_string(r.below(1000)) + "; for (int i = 0; i < a; i++) s += i * a; return s; }\n";
    }
    if (p[0] == "m4")
        in = "define(`x', `len($1)y(`$1')')define(`y', `[$1]')" + std::string(200, ' ') + "x(abc)\n" + in.substr(0, 2000);
    size_t thr;
    int disp;
    std::string env = proxyEnv(r, thr, disp);
    bool forks = p[0] == "bash" || p[0] == "gcc";
    if (forks && disp) // a child shares such memory with its parent
        env = thr ? "size.threshold=" + std::to_string(thr) : "";
    label("system program under LD_PRELOAD");
    Out a = runProgram(p, {}, in);
    if (WIFEXITED(a.status) && WEXITSTATUS(a.status) == 127) {
        cnt("programs_missing");
        return;
    }
    Out b = runProgram(p, {"UMF_PROXY=" + env, "LD_PRELOAD=" + shared() + "/libumf_proxy.so.0"}, in);
    CHECK(a.status == b.status, "C21:system-program", "%s under the proxy library (UMF_PROXY='%s') ends with status %#x, without it %#x", p[0].c_str(), env.c_str(), b.status,
          a.status);
    CHECK(a.out == b.out, "C21:system-program", "%s under the proxy library (UMF_PROXY='%s') writes something else", p[0].c_str(), env.c_str());
    sig(mix(std::hash<std::string>()(a.out), std::hash<std::string>()(env)));
    cnt("system_programs");
    sample("%s with UMF_PROXY='%s': %zu bytes in, %zu out", p[0].c_str(), env.c_str(), in.size(), b.out.size());
}
} // namespace
extern "C" __attribute__((visibility("default"))) void px_hook(int late, const px_api *api) {
    if (!mod)
        return;
    mod->api = api;
    if (!late) {
        size_t t = mod->thr;
        mod->run(*hookRng, earlyOps);
        mod->thr = t;
        cnt("early_phases");
    } else {
        mod->pool = false;
        mod->run(*hookRng, lateOps);
        for (auto &b : mod->blocks)
            mod->freeOne(b);
        mod->blocks.clear();
        cnt("late_phases");
    }
}
void harness_begin() {
    modPath = exeDir() + "/pxmod/pxmod.so";
    umfTearDown();
    umfInit();
}
void run_case(uint64_t i, Rng &r) {
    const std::string &m = ctx().mode;
    if (m == "mod")
        modCase(r);
    else if (m == "preload")
        preloadCase(r);
    else
        progsCase(i, r);
}
void harness_end() {}
