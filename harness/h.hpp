// Common harness support: seeded PRNG, case driver, violation reporting,
// counters, distinct-signature sets and the shared status page through which
// the runner attributes a crash or a hang to a case.
#pragma once
#include <dirent.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace h {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) {
        return v[below(v.size())];
    }
    // size with a log-uniform magnitude
    uint64_t logsize(uint64_t max) {
        unsigned bits = 1;
        while (bits < 63 && (1ull << bits) < max)
            bits++;
        unsigned b = (unsigned)below(bits) + 1;
        uint64_t v = next() & ((1ull << b) - 1);
        return v > max ? max : v;
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567));
    r.next();
    return r.next();
}

struct Sig {
    uint64_t v = 0xcbf29ce484222325ull;
    Sig &add(uint64_t x) {
        v = mix(v, x);
        return *this;
    }
};

struct StatusPage {
    volatile uint64_t cur;      // current case
    volatile uint64_t progress; // bumped by anything that makes progress
    volatile uint64_t done;     // number of cases completed
    char label[256];            // what is being exercised now
};

struct Ctx {
    uint64_t seed = 1;
    std::string mode;
    bool thorough = false;
    bool verbose = false;
    uint64_t cur = 0;
    StatusPage *st = nullptr;
    StatusPage local{};
    std::mutex mu;
    std::map<std::string, uint64_t> stats;
    std::map<std::string, uint64_t> maxima;
    std::unordered_set<uint64_t> sigs;
    int nsamples = 0;
    std::atomic<int> nviol{0};
    std::set<std::string> seenkeys;
    int argc = 0;
    char **argv = nullptr;
};
inline Ctx &ctx() {
    static Ctx *c = new Ctx; // never destroyed
    return *c;
}

// only the main thread names what is under test; bumps may be lost, which is harmless
inline thread_local bool main_thread = false;
__attribute__((no_sanitize("thread"))) inline void progress() { ctx().st->progress++; }

// names the situation under test: part of the key of a crash or a hang
inline void label(const char *fmt, ...) {
    progress();
    if (!main_thread)
        return;
    va_list ap;
    va_start(ap, fmt);
    char b[256];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    memcpy(ctx().st->label, b, sizeof b);
}
struct Label { // scoped
    char old[256];
    Label(const char *l) {
        if (main_thread)
            memcpy(old, ctx().st->label, 256);
        label("%s", l);
    }
    ~Label() {
        if (main_thread)
            memcpy(ctx().st->label, old, 256);
    }
};

// key: stable identity of what failed (matched against known findings)
inline void viol(const char *key, const char *fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char *p = b; *p; p++)
        if (*p == '\n')
            *p = ' ';
    Ctx &c = ctx();
    std::lock_guard<std::mutex> g(c.mu);
    c.nviol++;
    if (c.seenkeys.count(key) && c.nviol > 50)
        return; // do not flood
    c.seenkeys.insert(key);
    char line[2048];
    int n = snprintf(line, sizeof line, "\nVIOL %s :: case %lu [%s] %s\n", key, c.cur, c.st->label, b);
    if (write(1, line, std::min<size_t>(n, sizeof line - 1)) < 0) {
    }
}
#define CHECK(cond, key, ...)                                                  \
    do {                                                                       \
        if (!(cond))                                                           \
            h::viol(key, __VA_ARGS__);                                         \
    } while (0)

inline void stat(const char *n, uint64_t v = 1) {
    Ctx &c = ctx();
    std::lock_guard<std::mutex> g(c.mu);
    c.stats[n] += v;
}
inline void cnt(const char *n, uint64_t v = 1) { stat(n, v); }
inline void maxstat(const char *n, uint64_t v) {
    Ctx &c = ctx();
    std::lock_guard<std::mutex> g(c.mu);
    auto &m = c.maxima[n];
    if (v > m)
        m = v;
}
inline void sig(uint64_t s) {
    Ctx &c = ctx();
    std::lock_guard<std::mutex> g(c.mu);
    if (c.sigs.size() < 400000)
        c.sigs.insert(s);
}
inline void sample(const char *fmt, ...) {
    Ctx &c = ctx();
    if (c.nsamples >= 2)
        return;
    c.nsamples++;
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char *p = b; *p; p++)
        if (*p == '\n')
            *p = ' ';
    printf("\nSAMPLE case %lu: %s\n", c.cur, b);
}

// fills/validates a block with a pattern derived from a tag
inline uint64_t patw(uint64_t tag, uint64_t word) {
    uint64_t z = tag * 0x9e3779b97f4a7c15ull + word * 0xbf58476d1ce4e5b9ull + 0x2545f4914f6cdd1dull;
    return z ^ (z >> 29);
}
inline unsigned char pat(uint64_t tag, size_t i) {
    return (unsigned char)(patw(tag, i >> 3) >> (8 * (i & 7)));
}
inline void fill(void *p, size_t n, uint64_t tag) {
    unsigned char *c = (unsigned char *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w = patw(tag, i >> 3);
        __builtin_memcpy(c + i, &w, 8);
    }
    for (; i < n; i++)
        c[i] = pat(tag, i);
}
// returns index of first mismatch or n
inline size_t checkfill(const void *p, size_t n, uint64_t tag) {
    const unsigned char *c = (const unsigned char *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w;
        __builtin_memcpy(&w, c + i, 8);
        if (w != patw(tag, i >> 3))
            break;
    }
    for (; i < n; i++)
        if (c[i] != pat(tag, i))
            return i;
    return n;
}

// open descriptors; pipes and sockets are left out because the symbolizer of a sanitizer opens them at any time
inline int openFds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (dirent *e = readdir(d)) {
        char l[64];
        ssize_t k = readlinkat(dirfd(d), e->d_name, l, sizeof l - 1);
        if (k <= 0)
            continue;
        l[k] = 0;
        if (strncmp(l, "pipe:", 5) && strncmp(l, "socket:", 7))
            n++;
    }
    closedir(d);
    return n;
}
// mappings of files whose name contains 'what' (and not 'except')
inline int mapsOf(const char *what, const char *except = nullptr) {
    FILE *f = fopen("/proc/self/maps", "r");
    if (!f)
        return 0;
    char l[4600];
    int n = 0;
    while (fgets(l, sizeof l, f))
        if (strstr(l, what) && !(except && strstr(l, except)))
            n++;
    fclose(f);
    return n;
}
// while it lives, the next descriptor opened is 0 (as in a process started without stdin)
struct NoStdin {
    bool on;
    explicit NoStdin(bool x) : on(x) {
        if (on)
            close(0);
    }
    ~NoStdin() {
        if (on) {
            int f = open("/dev/null", O_RDWR);
            if (f > 0)
                close(f);
        }
    }
};
} // namespace h

// provided by each harness
void run_case(uint64_t idx, h::Rng &rng);
void harness_begin();
void harness_end();
