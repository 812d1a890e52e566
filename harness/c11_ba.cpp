// C11: the internal allocators
#include "h.hpp"
#ifdef VARIANT_SCHED
#include "sched.hpp"
#endif
extern "C" {
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "base_alloc_linear.h"
#include <umf/base.h>
#include <umf.h>
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
}
using h::Rng;

// ledger of mappings made by the library (all calls in the link are wrapped)
static std::mutex lmu;
static std::map<uintptr_t, size_t> maps;
static std::atomic<bool> track{false};
static std::atomic<uint64_t> nmaps{0};
static std::atomic<unsigned> mapfail{0}; // bit i: the i-th mapping from now on is refused
extern "C" void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (mapfail) {
        bool f = mapfail & 1;
        mapfail = mapfail >> 1;
        if (f) { errno = ENOMEM; return MAP_FAILED; }
    }
    void *p = __real_mmap(a, n, pr, fl, fd, o);
    if (track && p != MAP_FAILED) {
        std::lock_guard<std::mutex> g(lmu);
        for (uintptr_t x = (uintptr_t)p; x < (uintptr_t)p + n; x += 4096) maps[x] = 1;
        nmaps++;
    }
    return p;
}
extern "C" int __wrap_munmap(void *p, size_t n) {
    if (track) {
        std::lock_guard<std::mutex> g(lmu);
        for (uintptr_t x = (uintptr_t)p; x < (uintptr_t)p + n; x += 4096)
            if (!maps.erase(x)) { h::viol("unmap-foreign", "munmap(%p,%zu) covers a page the allocator did not map", p, n); break; }
    }
    return __real_munmap(p, n);
}
static bool mapped(void *p, size_t n) {
    std::lock_guard<std::mutex> g(lmu);
    for (uintptr_t x = (uintptr_t)p & ~4095ull; x < (uintptr_t)p + n; x += 4096) if (!maps.count(x)) return false;
    return true;
}
static size_t npages() { std::lock_guard<std::mutex> g(lmu); return maps.size(); }

struct Blk { unsigned char *p; size_t n; uint64_t tag; };
// shadow of live blocks shared by all threads of a case
struct Shadow {
    std::mutex mu;
    std::map<uintptr_t, size_t> live;
    void add(void *p, size_t n, const char *who) {
        std::lock_guard<std::mutex> g(mu);
        uintptr_t a = (uintptr_t)p;
        auto it = live.lower_bound(a);
        bool bad = it != live.end() && it->first < a + n;
        if (it != live.begin()) { auto q = std::prev(it); bad |= q->first + q->second > a; }
        if (bad) h::viol("overlap", "%s returned [%p,+%zu) overlapping a live block", who, p, n);
        live[a] = n;
    }
    void del(void *p) { std::lock_guard<std::mutex> g(mu); live.erase((uintptr_t)p); }
};

static void worker(Rng r, int nops, const std::function<Blk(Rng &)> &al, const std::function<void(Blk &)> &fr,
                   Shadow &sh, std::vector<Blk> &live, unsigned maxlive, const char *who, uint64_t tagbase) {
    uint64_t na = 0, nf = 0;
    for (int i = 0; i < nops; i++) {
        bool a = live.empty() || (live.size() < maxlive && r.chance(11, 20));
        if (a) {
            Blk b = al(r);
            if (!b.p) { h::viol("alloc-failed", "%s returned NULL without memory pressure", who); continue; }
            b.tag = tagbase + i * 977;
            sh.add(b.p, b.n, who);
            h::fill(b.p, b.n, b.tag);
            live.push_back(b);
            na++;
        } else {
            size_t j = r.below(live.size());
            Blk b = live[j];
            live[j] = live.back();
            live.pop_back();
            size_t bad = h::checkfill(b.p, b.n, b.tag);
            if (bad != b.n) h::viol("content", "%s: byte %zu of a live block of %zu changed", who, bad, b.n);
            sh.del(b.p);
            fr(b);
            nf++;
        }
    }
    h::stat("allocs", na);
    h::stat("frees", nf);
}

static void run_threads(Rng &r, std::vector<std::function<void()>> &b, h::Sig &s) {
#ifdef VARIANT_SCHED
    auto res = sched::run(b, r.next(), sched::random_params(r));
    s.add(res.hash);
    h::stat("sched_steps", res.steps);
    h::stat("sched_switches", res.switches);
#else
    std::vector<std::thread> t;
    for (auto &f : b) t.emplace_back(f);
    for (auto &x : t) x.join();
    s.add(r.next());
#endif
}

void harness_begin() { umfTearDown(); /* nothing may live in the global allocator */ }
void harness_end() {}

static void drain(std::vector<Blk> &live, Shadow &sh, const std::function<void(Blk &)> &fr, const char *who) {
    for (auto &b : live) {
        size_t bad = h::checkfill(b.p, b.n, b.tag);
        if (bad != b.n) h::viol("content", "%s: byte %zu of a live block of %zu changed", who, bad, b.n);
        sh.del(b.p);
        fr(b);
    }
    live.clear();
}

static void pool_case(Rng &r, int nt, int nops, h::Sig &s) {
    h::label("pool");
    track = true;
    size_t base = npages();
    size_t cs = r.chance(1, 8) ? 1 + r.below(20000) : 1 + r.below(r.chance(1, 2) ? 40 : 700);
    umf_ba_pool_t *p = umf_ba_create(cs);
    if (!p) { h::viol("create", "umf_ba_create(%zu) failed", cs); track = false; return; }
    Shadow sh;
    std::vector<std::vector<Blk>> live(nt);
    auto al = [&](Rng &) {
        Blk b{(unsigned char *)umf_ba_alloc(p), cs, 0};
        if (b.p) {
            CHECK(((uintptr_t)b.p & 7) == 0, "align", "chunk %p of size %zu misaligned", b.p, cs);
            CHECK(mapped(b.p, cs), "outside", "chunk %p of %zu bytes reaches outside the pool's memory", b.p, cs);
        }
        return b;
    };
    auto fr = [&](Blk &b) { umf_ba_free(p, b.p); };
    unsigned maxlive = 20 + r.below(500);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; t++) {
        uint64_t sd = r.next();
        bodies.push_back([&, t, sd] { worker(Rng(sd), nops, al, fr, sh, live[t], maxlive, "umf_ba_alloc", sd); });
    }
    if (nt > 1) run_threads(r, bodies, s); else bodies[0]();
    // no chunk is lost: refill to the high-water mark without new memory
    size_t hw = 0;
    for (auto &l : live) hw += l.size();
    for (auto &l : live) drain(l, sh, fr, "umf_ba_alloc");
    uint64_t m0 = nmaps;
    std::vector<Blk> again;
    for (size_t i = 0; i < hw; i++) { Blk b = al(r); if (b.p) { b.tag = i; sh.add(b.p, b.n, "umf_ba_alloc"); h::fill(b.p, b.n, i); again.push_back(b); } }
    CHECK(nmaps == m0, "lost-chunks", "refilling %zu freed chunks of %zu needed new memory", hw, cs);
    drain(again, sh, fr, "umf_ba_alloc");
    umf_ba_free(p, nullptr);
    umf_ba_destroy(p);
    CHECK(npages() == base, "destroy-leak", "%zu pages still mapped after umf_ba_destroy(chunk %zu)", npages() - base, cs);
    track = false;
    s.add(cs);
    h::sample("pool of %zu-byte chunks, %d threads x %d ops, %zu live at the end", cs, nt, nops, hw);
}

static void global_case(Rng &r, int nt, int nops, h::Sig &s) {
    h::label("global");
    Shadow sh;
    // some cases run on a global allocator which could not create all its size classes
    bool fresh = r.chance(1, 3), degraded = false;
    size_t gbase = 0;
    if (fresh) {
        umf_ba_destroy_global();
        { std::lock_guard<std::mutex> g(lmu); maps.clear(); }
        track = true;
        if (r.chance(2, 3)) { mapfail = 1 + r.below(31); degraded = true; h::stat("degraded_globals"); }
        void *x = umf_ba_global_alloc(r.chance(1, 2) ? 1 : 1 + r.below(248));
        mapfail = 0;
        if (!x && !degraded) h::viol("alloc-failed", "the first allocation failed");
        umf_ba_global_free(x);
    }
    std::vector<std::vector<Blk>> live(nt);
    auto al = [&](Rng &q) {
        size_t n = q.chance(1, 10) ? 1 + q.below(20000) : 1 + q.below(300);
        size_t a = q.chance(1, 2) ? 8 : 1ull << q.below(13);
        Blk b{(unsigned char *)(a == 8 ? umf_ba_global_alloc(n) : umf_ba_global_aligned_alloc(n, a)), n, 0};
        if (b.p) {
            CHECK(((uintptr_t)b.p & (std::max<size_t>(a, 8) - 1)) == 0, "align", "umf_ba_global_aligned_alloc(%zu,%zu) -> %p", n, a, b.p);
            size_t u = umf_ba_global_malloc_usable_size(b.p);
            CHECK(u >= n, "usable", "usable size %zu of a %zu byte block", u, n);
            if (u >= n && u < n + 100000) b.n = u; // the whole usable size belongs to the owner
        }
        return b;
    };
    auto fr = [&](Blk &b) { umf_ba_global_free(b.p); };
    unsigned maxlive = 20 + r.below(300);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; t++) {
        uint64_t sd = r.next();
        bodies.push_back([&, t, sd] { worker(Rng(sd), nops, al, fr, sh, live[t], maxlive, "umf_ba_global_alloc", sd); });
    }
    if (nt > 1) run_threads(r, bodies, s); else bodies[0]();
    for (auto &l : live) drain(l, sh, fr, "umf_ba_global_alloc");
    // conservation: the same fill twice needs no new class memory the second time
    track = true;
    auto fillup = [&] { std::vector<void *> v; for (int i = 0; i < 600; i++) v.push_back(umf_ba_global_alloc(1 + (i * 7) % 248)); for (void *x : v) umf_ba_global_free(x); };
    fillup();
    uint64_t m0 = nmaps;
    fillup();
    if (!degraded) CHECK(nmaps == m0, "lost-chunks", "repeating the same allocations needed new memory");
    // large blocks come from and go back to the OS
    size_t p1 = npages();
    void *big[5];
    for (int i = 0; i < 5; i++) { big[i] = umf_ba_global_aligned_alloc(300 + r.below(60000), 1ull << r.below(13)); if (!big[i]) h::viol("alloc-failed", "large block"); }
    for (int i = 0; i < 5; i++) umf_ba_global_free(big[i]);
    CHECK(npages() == p1, "big-leak", "%ld pages left after freeing large blocks", (long)(npages() - p1));
    if (fresh) {
        umf_ba_destroy_global();
        CHECK(npages() == gbase, "destroy-leak", "%zu pages still mapped after umf_ba_destroy_global()", npages());
        CHECK(umf_ba_global_is_destroyed(), "destroyed", "the global allocator does not know that it was destroyed");
    }
    { std::lock_guard<std::mutex> g(lmu); maps.clear(); }
    track = false;
    CHECK(umf_ba_global_alloc(0) == nullptr, "zero", "zero-sized allocation");
    CHECK(umf_ba_global_aligned_alloc(SIZE_MAX - r.below(200), 1ull << r.below(12)) == nullptr, "huge", "huge allocation succeeded");
    umf_ba_global_free(nullptr);
    s.add(nt);
}

static void linear_case(Rng &r, int nt, int nops, h::Sig &s) {
    h::label("linear");
    track = true;
    size_t base = npages();
    size_t ps = r.chance(1, 3) ? 0 : r.below(r.chance(1, 2) ? 5000 : 40000);
    umf_ba_linear_pool_t *p = umf_ba_linear_create(ps), *p2 = umf_ba_linear_create(ps);
    Shadow sh;
    std::vector<std::vector<Blk>> live(nt);
    size_t maxsz = r.chance(1, 2) ? 200 : 9000;
    auto al = [&](Rng &q) {
        size_t n = 1 + q.below(maxsz);
        Blk b{(unsigned char *)umf_ba_linear_alloc(p, n), n, 0};
        if (b.p) {
            CHECK(((uintptr_t)b.p & 7) == 0, "align", "linear block %p of %zu", b.p, n);
            CHECK(mapped(b.p, n), "outside", "linear block %p of %zu bytes reaches outside the pool's memory", b.p, n);
            size_t c = umf_ba_linear_pool_contains_pointer(p, b.p + n - 1);
            CHECK(c >= 1, "contains", "pool denies owning the end of its block");
            c = umf_ba_linear_pool_contains_pointer(p, b.p);
            CHECK(c >= n && mapped(b.p, c) , "contains-size", "pool reports %zu bytes from a block of %zu", c, n);
            CHECK(umf_ba_linear_pool_contains_pointer(p2, b.p) == 0, "contains-foreign", "another pool claims the block");
            int local;
            CHECK(umf_ba_linear_pool_contains_pointer(p, &local) == 0, "contains-foreign", "pool claims a stack address");
        }
        return b;
    };
    // single-threaded: a region that becomes empty while it is not the active one is unmapped
    std::map<uintptr_t, int> regs; // start page -> live blocks
    uintptr_t active = (uintptr_t)p, mainreg = (uintptr_t)p;
    regs[mainreg] = 0;
    auto region_of = [&](void *q) { auto it = regs.upper_bound((uintptr_t)q); return (--it)->first; };
    auto al1 = [&](Rng &q) {
        uint64_t m0 = nmaps;
        Blk b = al(q);
        if (nt == 1 && b.p) {
            if (nmaps != m0) { active = (uintptr_t)b.p & ~4095ull; regs[active] = 0; }
            regs[region_of(b.p)]++;
        }
        return b;
    };
    auto fr1 = [&](Blk &b) {
        if ((b.tag & 7) == 0) CHECK(umf_ba_linear_free(p2, b.p) == -1, "free-foreign", "a pool freed a block of another pool");
        CHECK(umf_ba_linear_free(p, b.p) == 0, "free-own", "pool refused its own block");
        if (nt == 1) {
            uintptr_t g = region_of(b.p);
            if (--regs[g] == 0 && g != active) {
                if (g != mainreg) { CHECK(!mapped((void *)g, 1), "linear-retained", "drained inactive region %lx still mapped", g); regs.erase(g); }
                h::stat("regions_drained");
            }
        }
    };
    unsigned maxlive = 5 + r.below(100);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; t++) {
        uint64_t sd = r.next();
        bodies.push_back([&, t, sd] { worker(Rng(sd), nops, al1, fr1, sh, live[t], maxlive, "umf_ba_linear_alloc", sd); });
    }
    if (nt > 1) run_threads(r, bodies, s); else bodies[0]();
    size_t inuse = npages();
    for (auto &l : live) drain(l, sh, fr1, "umf_ba_linear_alloc");
    (void)inuse;
    CHECK(umf_ba_linear_alloc(p, 0) == nullptr, "zero", "zero-sized linear allocation");
    CHECK(umf_ba_linear_alloc(p, SIZE_MAX - (r.chance(1, 2) ? r.below(4) : r.below(70000))) == nullptr, "huge", "huge linear allocation");
    umf_ba_linear_destroy(p);
    umf_ba_linear_destroy(p2);
    CHECK(npages() == base, "destroy-leak", "%zu pages still mapped after umf_ba_linear_destroy", npages() - base);
    track = false;
    s.add(ps).add(maxsz);
    h::sample("linear pool %zu bytes, blocks up to %zu, %d threads x %d ops", ps, maxsz, nt, nops);
}

void run_case(uint64_t idx, Rng &r) {
    h::Sig s;
    int nt = 1, nops = 200 + r.below(2500);
#ifdef VARIANT_SCHED
    nt = 2 + r.below(3);
    nops = 4 + r.below(40);
#else
    if (h::ctx().mode == "mt") nt = 2 + r.below(6);
#endif
    s.add(nops);
    switch (idx % 3) {
    case 0: pool_case(r, nt, nops, s); break;
    case 1: global_case(r, nt, nops, s); break;
    default: linear_case(r, nt, nops, s);
    }
    h::sig(s.v);
}
