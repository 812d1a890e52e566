// A program that only uses the C and C++ allocation functions and checks what it gets. It runs under the proxy
// library. Arguments: seed threshold disposition threads early
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <mutex>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
static uint64_t mixed(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void *(*byPtr)(const void *);
static size_t thr;
static int disp;
static unsigned long nops, npool, nsys;
static void bad(const char *what, size_t a = 0, size_t b = 0) {
    char t[300];
    int n = snprintf(t, sizeof t, "BAD %s (%zu, %zu)\n", what, a, b);
    if (write(1, t, n) < 0) {
    }
    _exit(5);
}
struct Blk {
    unsigned char *p;
    size_t n;
    bool pool;
    unsigned char tag;
};
static bool inPool(void *p) { return byPtr(p) != nullptr; }
static void put(Blk &b) {
    for (size_t i = 0; i < b.n; i++)
        b.p[i] = (unsigned char)(b.tag + i * 7);
}
static bool same(const Blk &b, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (b.p[i] != (unsigned char)(b.tag + i * 7))
            return false;
    return true;
}
static std::string mapping(void *p) {
    FILE *f = fopen("/proc/self/maps", "r");
    char l[700];
    std::string out = "(none)";
    while (fgets(l, sizeof l, f)) {
        unsigned long a, b;
        char perm[8], path[600] = "";
        sscanf(l, "%lx-%lx %7s %*s %*s %*s %599s", &a, &b, perm, path);
        if ((unsigned long)p >= a && (unsigned long)p < b) {
            out = std::string(1, perm[3]) + path;
            break;
        }
    }
    fclose(f);
    return out;
}
struct Work {
    uint64_t s, hash = 1;
    std::vector<Blk> v;
    unsigned long ops = 0, pool = 0, sys = 0;
    uint64_t rnd(uint64_t n) { return mixed(s) % n; }
    Blk fresh(void *p, size_t n, size_t al, bool route = true) {
        if (!p)
            bad("allocation failed", n, al);
        if ((uintptr_t)p & ((al ? al : n >= 16 ? 16 : 8) - 1))
            bad("alignment", n, al);
        Blk b{(unsigned char *)p, n, inPool(p), (unsigned char)mixed(s)};
        if (route && b.pool != (n >= thr))
            bad(b.pool ? "a block below the threshold is in the pool" : "a block is not in the pool", n, thr);
        (b.pool ? pool : sys)++;
        put(b);
        return b;
    }
    void drop(size_t k) {
        if (!same(v[k], v[k].n))
            bad("contents changed", v[k].n, v[k].pool);
        free(v[k].p);
        v[k] = v.back();
        v.pop_back();
    }
    void step() {
        unsigned op = (unsigned)rnd(12);
        size_t n = 1 + rnd(1 + ((size_t)1 << rnd(rnd(30) ? 14 : 22)));
        if (thr && thr < 2000000 && !rnd(3))
            n = thr - 1 + rnd(3);
        if (!n)
            n = 1;
        hash = hash * 31 + op * 7 + n;
        ops++;
        if (op < 3 || v.empty())
            v.push_back(fresh(malloc(n), n, 0));
        else if (op == 3) {
            size_t k = 1 + rnd(20), e = (n + k - 1) / k;
            unsigned char *p = (unsigned char *)calloc(k, e);
            for (size_t i = 0; p && i < k * e; i++)
                if (p[i])
                    bad("calloc is not zero", k, e);
            v.push_back(fresh(p, k * e, 0));
        } else if (op == 4) {
            size_t al = (size_t)16 << rnd(9);
            v.push_back(fresh(aligned_alloc(al, n), n, al));
        } else if (op == 5 || op == 6) {
            size_t k = rnd(v.size());
            Blk b = v[k];
            unsigned char *p = (unsigned char *)realloc(b.p, n);
            if (!p)
                bad("realloc failed", b.n, n);
            size_t m = n < b.n ? n : b.n;
            b.p = p;
            if (!same(b, m))
                bad("realloc lost the contents", b.n, n);
            if (inPool(p) != b.pool)
                bad("realloc moved the block to the other allocator", b.n, n);
            b.n = n;
            put(b);
            v[k] = b;
        } else if (op == 7) {
            Blk &b = v[rnd(v.size())];
            size_t u = malloc_usable_size(b.p);
            if (u && u < b.n)
                bad("usable size", u, b.n);
        } else
            drop(rnd(v.size()));
    }
};
static thread_local struct Tls {
    char *p = nullptr;
    ~Tls() { free(p); }
} tls;
static struct Global {
    std::map<int, std::string> m;
    ~Global() {
        for (int i = 0; i < 50; i++)
            m[i * 3] += std::string(200, 'x');
    }
} global;
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    thr = strtoull(argv[2], 0, 10);
    disp = atoi(argv[3]);
    int threads = atoi(argv[4]), early = atoi(argv[5]);
    *(void **)&byPtr = dlsym(RTLD_DEFAULT, "umfPoolByPtr");
    if (!byPtr || malloc_usable_size((void *)1) != 0xDEADBEEF)
        bad("the proxy library is not there");
    atexit([] { free(malloc(5000)); });
    Work w{seed};
    size_t n = 100 + w.rnd(1500);
    for (size_t i = 0; i < n; i++)
        w.step();
    unsigned long nearly = 0;
    if (early) {
        const char *(*f)(unsigned long *);
        *(void **)&f = dlsym(RTLD_DEFAULT, "early_check");
        if (!f)
            bad("no early library");
        if (const char *e = f(&nearly))
            bad(e);
    }
    for (auto &b : w.v)
        if (b.pool) {
            std::string s = mapping(b.p), shm = "s/dev/shm/umf_proxy_lib_shm_pid_" + std::to_string(getpid());
            if (disp == 0 ? s[0] != 'p' : disp == 1 ? s.compare(0, 8, "s/memfd:") != 0 && s.compare(0, 11, "s/secretmem") != 0 : s.compare(0, shm.size(), shm) != 0)
                bad(("memory is mapped as " + s).c_str(), disp);
            break;
        }
    std::vector<std::thread> ts;
    std::vector<Work> ws(threads);
    std::mutex m;
    std::vector<Blk> box;
    for (int t = 0; t < threads; t++) {
        ws[t].s = seed + 77 * (t + 1);
        ts.emplace_back([&, t] {
            tls.p = (char *)malloc(100 + t);
            for (int i = 0; i < 600; i++) {
                ws[t].step();
                if (i % 5 == 0) { // blocks are freed by other threads
                    std::lock_guard<std::mutex> g(m);
                    if (ws[t].v.size() > 3) {
                        box.push_back(ws[t].v.back());
                        ws[t].v.pop_back();
                    }
                    if (box.size() > 20) {
                        ws[t].v.push_back(box[0]);
                        box.erase(box.begin());
                    }
                }
            }
        });
    }
    for (auto &t : ts)
        t.join();
    w.v.insert(w.v.end(), box.begin(), box.end());
    for (auto &x : ws) {
        w.v.insert(w.v.end(), x.v.begin(), x.v.end());
        w.ops += x.ops, w.pool += x.pool, w.sys += x.sys;
    }
    // new and delete, and the C library's own allocations
    {
        std::map<std::string, std::vector<int>> mm;
        for (int i = 0; i < 300; i++)
            mm[std::to_string(i % 70)].push_back(i);
        char *line = nullptr;
        size_t cap = 0;
        if (asprintf(&line, "%0500d", 7) != 500)
            bad("asprintf");
        free(line);
        line = strdup("text");
        free(line);
        FILE *f = fopen("/proc/self/status", "r");
        line = nullptr;
        while (getline(&line, &cap, f) > 0)
            ;
        fclose(f);
        free(line);
    }
    if (disp == 0) { // a child has memory of its own
        pid_t p = fork();
        if (!p) {
            Work c{seed + 5};
            for (int i = 0; i < 200; i++)
                c.step();
            for (auto &b : w.v)
                if (!same(b, b.n))
                    bad("contents changed in the child");
            while (c.v.size())
                c.drop(0);
            _exit(0);
        }
        int st;
        if (waitpid(p, &st, 0) != p || st)
            bad("the child failed", st);
    }
    while (w.v.size())
        w.drop(w.rnd(w.v.size()));
    printf("OK %lu %lu %lu %lu %d %" PRIx64 "\n", w.ops, w.pool, w.sys, nearly, threads, w.hash);
    return 0;
}
