// C04/C05: providers that carve allocations out of a region, checked against
// an interval model; split/merge included.
#include "ba.hpp"
#include "dax.hpp"
#include "h.hpp"
#include <umf.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <errno.h>
#include <sys/stat.h>
extern "C" {
#include "coarse.h"
}
using namespace h;

// ---- devdax stand-in: a scratch file mapped without MAP_SYNC ----
static std::atomic<int> dax_fds{0};
static bool dax_off = false; // the stand-in is an ordinary file for once
extern "C" int __real_utils_devdax_open(const char *path);
extern "C" int __wrap_utils_devdax_open(const char *path) {
    if (strstr(path, "fakedax"))
        return open(path, O_RDWR);
    return __real_utils_devdax_open(path);
}
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (!dax_off && dax_request(f, fd))
        return dax_map(__real_mmap, munmap, l, p, f, fd, o);
    return __real_mmap(a, l, p, f, fd, o);
}

struct Live {
    size_t size;
    uint64_t tag;
};
struct Target {
    std::function<umf_result_t(size_t, size_t, void **)> alloc;
    std::function<umf_result_t(void *, size_t)> free;
    std::function<umf_result_t(void *, size_t, size_t)> split;
    std::function<umf_result_t(void *, void *, size_t)> merge;
};
struct M {
    std::map<uintptr_t, Live> live;
    std::map<uintptr_t, size_t> regions; // known memory, adjacent ones kept apart
    size_t page = 4096;
    bool touch_all = true;
    // maximal free ranges; merges over adjacent regions only if 'join'
    std::vector<std::pair<uintptr_t, size_t>> frees(bool join) {
        std::vector<std::pair<uintptr_t, size_t>> out;
        for (auto &r : regions) {
            uintptr_t p = r.first, e = r.first + r.second;
            auto it = live.lower_bound(p);
            if (it != live.begin()) { // a live block reaching in from the region below
                auto pv = std::prev(it);
                if (pv->first + pv->second.size > p)
                    p = pv->first + pv->second.size;
            }
            while (p < e) {
                uintptr_t q = (it != live.end() && it->first < e) ? it->first : e;
                if (q > p) {
                    if (join && !out.empty() && out.back().first + out.back().second == p)
                        out.back().second += q - p;
                    else
                        out.push_back({p, q - p});
                }
                if (it == live.end() || it->first >= e)
                    break;
                p = it->first + it->second.size;
                ++it;
            }
        }
        return out;
    }
    bool overlaps(uintptr_t p, size_t n) {
        auto it = live.upper_bound(p);
        if (it != live.end() && it->first < p + n)
            return true;
        if (it == live.begin())
            return false;
        --it;
        return it->first + it->second.size > p;
    }
    bool inside(uintptr_t p, size_t n) {
        // inside the union of regions
        uintptr_t e = p + n;
        if (e < p)
            return false;
        while (p < e) {
            auto it = regions.upper_bound(p);
            if (it == regions.begin())
                return false;
            --it;
            uintptr_t re = it->first + it->second;
            if (p >= re)
                return false;
            p = re;
        }
        return true;
    }
    size_t used() {
        size_t s = 0;
        for (auto &l : live)
            s += l.second.size;
        return s;
    }
};
static void put(uintptr_t p, size_t n, uint64_t tag, bool all) {
    if (all || n <= 256) {
        fill((void *)p, n, tag);
        return;
    }
    fill((void *)p, 64, tag);
    fill((void *)(p + n - 64), 64, tag + 1);
}
static bool verify(uintptr_t p, size_t n, uint64_t tag, bool all) {
    if (all || n <= 256)
        return checkfill((void *)p, n, tag) == n;
    return checkfill((void *)p, 64, tag) == 64 && checkfill((void *)(p + n - 64), 64, tag + 1) == 64;
}

// every place of each of the words in a buffer
__attribute__((no_sanitize("address", "undefined"))) static void find_words(const unsigned char *b, size_t n, const std::vector<uint64_t> &words, std::multimap<uint64_t, size_t> &out) {
    static unsigned char bloom[1 << 16];
    memset(bloom, 0, sizeof bloom);
    for (uint64_t w : words)
        bloom[w & 0xffff] = 1;
    for (size_t i = 0; i + 8 <= n; i++) {
        uint64_t w;
        __builtin_memcpy(&w, b + i, 8);
        if (bloom[w & 0xffff])
            for (uint64_t x : words)
                if (x == w) {
                    out.insert({w, i});
                    break;
                }
    }
}

// -- coarse callbacks, which can refuse --
struct Cb {
    int refuse_split = 0, refuse_merge = 0; // percent
    bool refused_merge = false, refused_now = false;
    uint64_t splits = 0, merges = 0, allocs = 0;
    Rng *r = nullptr;
    M *m = nullptr;
    char *arena = nullptr;
    size_t arena_sz = 0, arena_off = 0;
    bool refuse_alloc = false;
    size_t want_size = 0, want_align = 0;
    bool expect_no_alloc = false;
    std::string last_split;
    std::map<uintptr_t, size_t> up; // the blocks as the upstream knows them
    bool ledger = false, deleting = false;
    uint64_t freed = 0;
} *CB;
static const umf_result_t REFUSAL = UMF_RESULT_ERROR_NOT_SUPPORTED;
static umf_result_t cb_split(void *p, void *ptr, size_t total, size_t first) {
    CB->splits++;
    CHECK(p == CB, "coarse:cb-provider", "split callback got a foreign provider pointer");
    CHECK(first > 0 && first < total, "coarse:cb-split-args", "split callback called with total %zu first %zu", total, first);
    if ((int)CB->r->below(100) < CB->refuse_split) {
        CB->refused_now = true;
        return REFUSAL;
    }
    if (CB->ledger) {
        auto it = CB->up.find((uintptr_t)ptr);
        if (it == CB->up.end() || it->second != total)
            viol("coarse:cb-split-args", "split callback called for %zu bytes, the upstream block has %zu", total, it == CB->up.end() ? 0 : it->second);
        else {
            it->second = first;
            CB->up[(uintptr_t)ptr + first] = total - first;
        }
    }
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_merge(void *p, void *lo, void *hi, size_t total) {
    CB->merges++;
    CHECK(p == CB, "coarse:cb-provider", "merge callback got a foreign provider pointer");
    CHECK((char *)lo < (char *)hi && (size_t)((char *)hi - (char *)lo) < total, "coarse:cb-merge-args", "merge callback called with a bad range");
    if ((int)CB->r->below(100) < CB->refuse_merge) {
        CB->refused_merge = CB->refused_now = true;
        return REFUSAL;
    }
    if (CB->ledger) {
        auto a = CB->up.find((uintptr_t)lo), b = CB->up.find((uintptr_t)hi);
        if (a == CB->up.end() || b == CB->up.end() || a->first + a->second != b->first || a->second + b->second != total)
            viol("coarse:cb-merge-args", "merge callback called for two blocks of %zu bytes which the upstream does not have side by side", total);
        else {
            a->second = total;
            CB->up.erase(b);
        }
    }
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_alloc(void *p, size_t size, size_t align, void **out) {
    CB->allocs++;
    CHECK(size == CB->want_size && align >= CB->want_align, "coarse:cb-alloc-args", "upstream asked for %zu/%zu, user asked for %zu/%zu", size, align, CB->want_size, CB->want_align);
    CHECK(!CB->expect_no_alloc, "region:free-range-not-used", "upstream memory requested (%zu) though a free range of size+alignment exists", size);
    if (CB->refuse_alloc || size > CB->arena_sz) {
        CB->refused_now = true;
        *out = nullptr;
        return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
    }
    size_t off = (CB->arena_off + align - 1) & ~(align - 1);
    if (CB->r->chance(1, 3))
        off += align; // gap
    if (align > CB->arena_sz || off + size > CB->arena_sz || off < CB->arena_off) {
        CB->refused_now = true;
        *out = nullptr;
        return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
    }
    CB->arena_off = off + size;
    *out = CB->arena + off;
    CB->m->regions[(uintptr_t)*out] = size;
    CB->up[(uintptr_t)*out] = size;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_free(void *p, void *ptr, size_t n) {
    CHECK(p == CB, "coarse:cb-provider", "free callback got a foreign provider pointer");
    CHECK(CB->deleting, "coarse:freed-early", "%zu bytes were given back to the upstream before the end", n);
    auto it = CB->up.find((uintptr_t)ptr);
    if (it == CB->up.end() || it->second != n)
        viol("coarse:cb-free-args", "free callback called for %zu bytes, the upstream block has %zu", n, it == CB->up.end() ? 0 : it->second);
    else
        CB->up.erase(it);
    CB->freed++;
    return UMF_RESULT_SUCCESS;
}

static char *arena_mem;
static const size_t ARENA = 8u << 20;
static std::string scratch;

void harness_begin() {
    arena_mem = (char *)mmap(nullptr, ARENA + (4 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena_mem = (char *)(((uintptr_t)arena_mem + (2 << 20) - 1) & ~(uintptr_t)((2 << 20) - 1));
    const char *s = getenv("VERIF_SCRATCH");
    scratch = std::string(s ? s : "/tmp") + "/r" + std::to_string(getpid());
    umfInit();
    // warm up lazily created state
    umf_fixed_memory_provider_params_handle_t fp;
    umfFixedMemoryProviderParamsCreate(&fp, arena_mem, 4096);
    umfFixedMemoryProviderParamsDestroy(fp);
}
void harness_end() {
    unlink((scratch + ".dat").c_str());
    unlink((scratch + "fakedax").c_str());
}

void run_case(uint64_t idx, Rng &r) {
    Ctx &C = ctx();
    std::string kind = C.mode;
    if (kind == "all") {
        static const char *kk[] = {"coarse", "coarse", "coarsecb", "coarsecb", "fixed", "fixed", "file", "devdax"};
        kind = kk[r.below(8)];
    }
    NoStdin z((kind == "c07" || kind == "file" || kind == "devdax" || kind == "c08dax") && idx % 8 == 3);
    bool c07 = kind == "c07", c08dax = kind == "c08dax";
    int fds0 = openFds();
    if (c07)
        kind = "file";
    if (c08dax)
        kind = "devdax";
    label("%s", C.mode.c_str());
    uint64_t ser0 = ba::serial();
    int64_t live0 = ba::st.live_blocks;
    M m;
    Cb cb;
    CB = &cb;
    cb.r = &r;
    cb.m = &m;
    Target t;
    coarse_t *coarse = nullptr;
    umf_memory_provider_handle_t prov = nullptr;
    int strategy = 0;
    bool fixed_region = kind != "coarsecb" && kind != "file";
    bool whitebox = kind == "coarse" || kind == "coarsecb";
    bool refusing = whitebox && r.chance(2, 5);
    size_t region = 0;
    Sig sg;
    std::string path;
    bool shared = false, has_cb_free = false;
    cb.ledger = whitebox;

    if (whitebox) {
        static const size_t pages[] = {16, 64, 64, 4096};
        m.page = pages[r.below(4)];
        coarse_params_t cp;
        memset(&cp, 0, sizeof cp);
        cp.provider = &cb;
        cp.page_size = m.page;
        strategy = (int)r.below(3);
        cp.allocation_strategy = (coarse_strategy_t)strategy;
        cp.cb.split = cb_split;
        cp.cb.merge = cb_merge;
        if (kind == "coarsecb") {
            cp.cb.alloc = cb_alloc;
            if (r.chance(1, 2)) {
                cp.cb.free = cb_free;
                has_cb_free = true;
            }
            cb.arena = arena_mem;
            cb.arena_sz = m.page * r.range(30, 400);
            if (cb.arena_sz > ARENA) cb.arena_sz = ARENA;
        }
        if (coarse_new(&cp, &coarse) != UMF_RESULT_SUCCESS) {
            viol("coarse:new", "coarse_new failed");
            return;
        }
        if (kind == "coarse") {
            int nreg = r.chance(1, 5) ? 2 : 1;
            char *p = arena_mem;
            if (r.chance(1, 4))
                p += r.below(m.page); // misaligned start
            for (int i = 0; i < nreg; i++) {
                size_t sz = m.page * r.range(1, 120) + (r.chance(1, 4) ? r.below(m.page) : 0);
                umf_result_t x = coarse_add_memory_fixed(coarse, p, sz);
                CHECK(x == UMF_RESULT_SUCCESS, "coarse:add", "coarse_add_memory_fixed failed %d", x);
                m.regions[(uintptr_t)p] = sz;
                cb.up[(uintptr_t)p] = sz;
                region += sz;
                p += sz + m.page * r.range(1, 3);
            }
        }
        cb.refuse_split = refusing ? (int)r.below(40) : 0;
        cb.refuse_merge = refusing ? (int)r.below(40) : 0;
        t.alloc = [&](size_t s, size_t a, void **o) { return coarse_alloc(coarse, s, a, o); };
        t.free = [&](void *p, size_t s) { return coarse_free(coarse, p, s); };
        t.split = [&](void *p, size_t a, size_t b) { return coarse_split(coarse, p, a, b); };
        t.merge = [&](void *p, void *q, size_t s) { return coarse_merge(coarse, p, q, s); };
    } else if (kind == "fixed") {
        char *p = arena_mem;
        if (r.chance(1, 4))
            p += r.below(4096);
        region = 4096 * r.range(1, 90) + (r.chance(1, 4) ? r.below(4096) : 0);
        umf_fixed_memory_provider_params_handle_t pp = nullptr;
        umf_result_t x = umfFixedMemoryProviderParamsCreate(&pp, p, region);
        x = x ? x : umfMemoryProviderCreate(umfFixedMemoryProviderOps(), pp, &prov);
        umfFixedMemoryProviderParamsDestroy(pp);
        if (x) {
            viol("fixed:create", "fixed provider over %zu bytes failed %d", region, x);
            return;
        }
        m.regions[(uintptr_t)p] = region;
    } else if (kind == "file") {
        path = scratch + ".dat";
        unlink(path.c_str());
        umf_file_memory_provider_params_handle_t pp = nullptr;
        umf_result_t x = umfFileMemoryProviderParamsCreate(&pp, path.c_str());
        shared = c07 ? r.chance(9, 10) : r.chance(1, 2);
        if (!x && shared)
            x = umfFileMemoryProviderParamsSetVisibility(pp, UMF_MEM_MAP_SHARED);
        if (!x && c07 && r.chance(1, 3))
            x = umfFileMemoryProviderParamsSetProtection(pp, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE | UMF_PROTECTION_EXEC);
        x = x ? x : umfMemoryProviderCreate(umfFileMemoryProviderOps(), pp, &prov);
        umfFileMemoryProviderParamsDestroy(pp);
        if (x) {
            viol("file:create", "file provider failed %d", x);
            return;
        }
        m.touch_all = true;
    } else {
        path = scratch + "fakedax";
        m.page = 2 << 20;
        region = m.page * (c08dax ? r.range(1, 6) : r.range(1, 24));
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (ftruncate(fd, region)) {}
        close(fd);
        umf_devdax_memory_provider_params_handle_t pp = nullptr;
        umf_result_t x = umfDevDaxMemoryProviderParamsCreate(&pp, path.c_str(), region);
        if (!x && r.chance(1, 8)) { // without MAP_SYNC it is no device DAX
            uint64_t s0 = ba::serial();
            int64_t l0 = ba::st.live_blocks;
            dax_off = true;
            umf_memory_provider_handle_t np = nullptr;
            CHECK(umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), pp, &np) != UMF_RESULT_SUCCESS, "devdax:not-dax", "a devdax provider was created on memory that is not DAX");
            dax_off = false;
            CHECK(mapsOf(path.c_str()) == 0, "region:mappings-left", "a failed creation leaves a mapping");
            CHECK(openFds() == fds0, "region:descriptors-left", "a failed creation leaves a descriptor");
            CHECK(ba::st.live_blocks == l0, "region:metadata-leak", "a failed creation leaves metadata: %s", ba::leaks(s0).c_str());
            stat("not_dax");
        }
        if (c08dax && r.chance(1, 3)) {
            umfDevDaxMemoryProviderParamsSetProtection(pp, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE | UMF_PROTECTION_EXEC);
        }
        x = x ? x : umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), pp, &prov);
        umfDevDaxMemoryProviderParamsDestroy(pp);
        if (x) {
            viol("devdax:create", "devdax provider on the stand-in failed %d", x);
            return;
        }
        m.touch_all = c08dax;
        shared = c08dax;
    }
    if (prov) {
        t.alloc = [&](size_t s, size_t a, void **o) { return umfMemoryProviderAlloc(prov, s, a, o); };
        t.free = [&](void *p, size_t s) { return umfMemoryProviderFree(prov, p, s); };
        t.split = [&](void *p, size_t a, size_t b) { return umfMemoryProviderAllocationSplit(prov, p, a, b); };
        t.merge = [&](void *p, void *q, size_t s) { return umfMemoryProviderAllocationMerge(prov, p, q, s); };
    }
    bool base_known = kind != "devdax";
    uint64_t tag = idx * 4096 + 1;

    auto stats_check = [&](const char *when) {
        if (!coarse)
            return;
        coarse_stats_t s = coarse_get_stats(coarse);
        size_t tot = 0;
        for (auto &x : m.regions)
            tot += x.second;
        CHECK(s.used_size == m.used(), "coarse:used-size", "%s: used_size %zu, live allocations hold %zu", when, s.used_size, m.used());
        CHECK(s.alloc_size == tot, "coarse:alloc-size", "%s: alloc_size %zu, memory given %zu", when, s.alloc_size, tot);
        CHECK(s.num_all_blocks - s.num_free_blocks == m.live.size(), "coarse:block-count", "%s: %zu-%zu blocks used, %zu live", when, s.num_all_blocks, s.num_free_blocks, m.live.size());
        if (!refusing)
            CHECK(s.num_free_blocks == m.frees(true).size(), "coarse:not-coalesced", "%s: %zu free blocks, %zu maximal free ranges", when, s.num_free_blocks, m.frees(true).size());
        stat("stat_checks");
    };
    auto verify_some = [&](int n) {
        if (m.live.empty()) return;
        for (int i = 0; i < n; i++) {
            auto it = m.live.begin();
            std::advance(it, r.below(m.live.size()));
            CHECK(verify(it->first, it->second.size, it->second.tag, m.touch_all), "region:contents", "contents of live allocation changed (size %zu)", it->second.size);
        }
    };
    auto find_free = [&](size_t need) { // is there a free range of at least need
        for (auto &f : m.frees(!refusing))
            if (f.second >= need)
                return true;
        return false;
    };
    std::string lastops;
    auto do_alloc = [&](size_t size, size_t align) -> bool {
        size_t ea = align < m.page ? m.page : align; // effective alignment
        void *p = (void *)0x1;
        bool valid_align = align == 0 || (!(align & (align - 1)));
        bool guaranteed = valid_align && size + ea > size && find_free(size + ea) && !cb.refused_merge && size > 0;
        cb.want_size = size;
        cb.want_align = ea;
        cb.refused_now = false;
        cb.expect_no_alloc = guaranteed && base_known;
        cb.refuse_alloc = r.chance(1, 10);
        umf_result_t x = t.alloc(size, align, &p);
        cb.expect_no_alloc = false;
        stat("allocs");
        if (x != UMF_RESULT_SUCCESS) {
            stat("alloc_refused");
            if (!valid_align)
                CHECK(x == UMF_RESULT_ERROR_INVALID_ALIGNMENT || x == UMF_RESULT_ERROR_INVALID_ARGUMENT, "region:bad-align-code", "alignment %zu refused with %d", align, x);
            else if (kind == "file")
                CHECK(size == 0 || size > (1ull << 34) || align > (1ull << 30), "region:refused", "file provider refused size %zu alignment %zu with %d", size, align, x);
            else if (!cb.refused_now && base_known)
                CHECK(!guaranteed, "region:refused-though-free", "request %zu/%zu refused (%d) though a free range of size+alignment exists", size, align, x);
            else if (!base_known)
                CHECK(!guaranteed || m.regions.empty(), "region:refused-though-free", "request %zu/%zu refused (%d)", size, align, x);
            return false;
        }
        if (!valid_align) {
            viol("region:bad-align-accepted", "alignment %zu accepted", align);
        }
        if (size == 0) {
            viol("region:zero-size", "allocation of size 0 succeeded");
            return false;
        }
        uintptr_t u = (uintptr_t)p;
        CHECK(p && u % (align ? align : 1) == 0, "region:alignment", "%p not aligned to %zu", p, align);
        CHECK(!m.overlaps(u, size), "region:overlap", "%p+%zu overlaps a live allocation", p, size);
        if (base_known && kind != "file")
            CHECK(m.inside(u, size), "region:outside", "%p+%zu is outside the region", p, size);
        if (m.overlaps(u, size) || (base_known && kind != "file" && !m.inside(u, size)))
            return false;
        m.live[u] = {size, ++tag};
        put(u, size, tag, m.touch_all);
        sg.add(size).add(align);
        maxstat("max_live", m.live.size());
        return true;
    };

    if (kind == "devdax") { // learn the region through a full allocation
        void *p = nullptr;
        umf_result_t x = t.alloc(region, 0, &p);
        if (x != UMF_RESULT_SUCCESS) {
            // base of the mapping is only page aligned by the kernel: retry smaller
            x = t.alloc(region > m.page ? region - m.page : region, 0, &p);
        }
        if (x == UMF_RESULT_SUCCESS)
            CHECK(t.free(p, 0) == UMF_RESULT_SUCCESS, "region:free", "free of whole failed");
    }

    // the file holds exactly what was written (shared visibility), at one place
    // per allocation, and an opened handle shows it
    uint64_t fsize_prev = 0, bound = 2u << 20;
    auto permsAt = [](uintptr_t a) { // "rwxs" of the mapping at a
        FILE *f = fopen("/proc/self/maps", "r");
        char line[1024], perm[8] = "";
        std::string out;
        uintptr_t lo, hi;
        while (f && fgets(line, sizeof line, f))
            if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) == 3 && lo <= a && a < hi)
                out = perm;
        if (f) fclose(f);
        return out;
    };
    auto ipc_check = [&] {
        if (m.live.empty())
            return;
        auto it = m.live.begin();
        std::advance(it, r.below(m.live.size()));
        size_t hs = 0;
        umf_result_t x = umfMemoryProviderGetIPCHandleSize(prov, &hs);
        if (!shared) {
            CHECK(x != UMF_RESULT_SUCCESS, "file:ipc-private", "IPC offered for a private mapping");
            return;
        }
        CHECK(x == UMF_RESULT_SUCCESS, "file:ipc-size", "handle size failed %d", x);
        std::vector<char> hb(hs + 64, 0x5b);
        x = umfMemoryProviderGetIPCHandle(prov, (void *)it->first, it->second.size, hb.data());
        CHECK(x == UMF_RESULT_SUCCESS, "file:ipc-get", "IPC handle of a live allocation failed %d", x);
        for (int i = 0; i < 64; i++)
            CHECK(hb[hs + i] == 0x5b, "file:ipc-overrun", "handle written beyond its reported size");
        void *p = nullptr;
        if (x == UMF_RESULT_SUCCESS) {
            std::vector<char> hc(hb.begin(), hb.begin() + hs); // exactly hs bytes
            x = umfMemoryProviderOpenIPCHandle(prov, hc.data(), &p);
            CHECK(x == UMF_RESULT_SUCCESS, "file:ipc-open", "opening the handle failed %d", x);
        }
        if (x == UMF_RESULT_SUCCESS) {
            CHECK(permsAt((uintptr_t)p) == permsAt(it->first), "file:ipc-protection", "the opened handle is mapped %s, the allocation %s", permsAt((uintptr_t)p).c_str(), permsAt(it->first).c_str());
            CHECK(verify((uintptr_t)p, it->second.size, it->second.tag, true), "file:ipc-bytes", "the opened handle does not show the %zu bytes of the allocation", it->second.size);
            it->second.tag = ++tag;
            put((uintptr_t)p, it->second.size, tag, true); // visible through the original
            CHECK(verify(it->first, it->second.size, it->second.tag, true), "file:ipc-write", "bytes written through the handle are not seen by the owner");
            x = umfMemoryProviderCloseIPCHandle(prov, p, it->second.size);
            CHECK(x == UMF_RESULT_SUCCESS, "file:ipc-close", "closing failed %d", x);
            std::vector<char> hc(hb.begin(), hb.begin() + hs);
            if (r.chance(1, 6)) { // another provider does not take the handle
                umf_memory_provider_handle_t other = nullptr;
                std::string op = path + "b";
                if (kind == "file") {
                    umf_file_memory_provider_params_handle_t fp = nullptr;
                    umfFileMemoryProviderParamsCreate(&fp, op.c_str());
                    umfFileMemoryProviderParamsSetVisibility(fp, UMF_MEM_MAP_SHARED);
                    umfMemoryProviderCreate(umfFileMemoryProviderOps(), fp, &other);
                    umfFileMemoryProviderParamsDestroy(fp);
                } else {
                    int fd = open(op.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
                    if (ftruncate(fd, 2 << 20)) {}
                    close(fd);
                    umf_devdax_memory_provider_params_handle_t dp = nullptr;
                    umfDevDaxMemoryProviderParamsCreate(&dp, op.c_str(), 2 << 20);
                    umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), dp, &other);
                    umfDevDaxMemoryProviderParamsDestroy(dp);
                }
                CHECK(other, "file:create", "no second provider");
                if (other) {
                    CHECK(umfMemoryProviderPutIPCHandle(other, hc.data()) != UMF_RESULT_SUCCESS, "file:ipc-put", "a handle was put back to the provider of another file");
                    umfMemoryProviderDestroy(other);
                }
                unlink(op.c_str());
                stat("foreign_puts");
            }
            x = umfMemoryProviderPutIPCHandle(prov, hc.data());
            CHECK(x == UMF_RESULT_SUCCESS, "file:ipc-put", "putting a handle back failed %d", x);
            if (kind == "devdax" && r.chance(1, 6)) {
                dax_off = true;
                int before = mapsOf(path.c_str());
                void *np = nullptr;
                CHECK(umfMemoryProviderOpenIPCHandle(prov, hc.data(), &np) != UMF_RESULT_SUCCESS, "devdax:not-dax", "memory that is not DAX was opened");
                dax_off = false;
                CHECK(mapsOf(path.c_str()) == before, "region:mappings-left", "a failed open leaves a mapping");
            }
            stat("ipc_opened");
        }
    };
    auto file_check = [&](bool full) {
        int fd = open(path.c_str(), O_RDONLY);
        struct stat sb;
        if (fd < 0 || fstat(fd, &sb)) { viol("file:gone", "backing file cannot be opened"); return; }
        CHECK((uint64_t)sb.st_size >= fsize_prev, "file:shrunk", "file shrank from %lu to %lu", fsize_prev, (uint64_t)sb.st_size);
        CHECK((uint64_t)sb.st_size <= bound, "file:grown-too-much", "file has %lu bytes, allocations account for at most %lu", (uint64_t)sb.st_size, bound);
        fsize_prev = sb.st_size;
        if (full && shared && !m.live.empty()) {
            std::vector<unsigned char> buf(sb.st_size);
            size_t got = 0;
            while (got < buf.size()) {
                ssize_t n = pread(fd, buf.data() + got, buf.size() - got, got);
                if (n <= 0) break;
                got += n;
            }
            std::vector<uint64_t> heads; // first 8 bytes of each allocation looked for
            for (auto &l : m.live) {
                if (l.second.size < 32) continue;
                if (heads.size() == 40) break;
                uint64_t w;
                fill(&w, 8, l.second.tag);
                heads.push_back(w);
            }
            std::multimap<uint64_t, size_t> places;
            find_words(buf.data(), buf.size(), heads, places);
            size_t want = 0;
            std::map<size_t, size_t> used; // file ranges
            for (auto &l : m.live) {
                if (l.second.size < 32) continue;
                if (++want > heads.size()) break;
                size_t found = 0, where = 0;
                auto pl = places.equal_range(heads[want - 1]);
                for (auto c = pl.first; c != pl.second; ++c)
                    if (buf.size() - c->second >= l.second.size && checkfill(buf.data() + c->second, l.second.size, l.second.tag) == l.second.size) {
                        found++;
                        where = c->second;
                    }
                CHECK(found >= 1, "file:not-in-file", "the file nowhere holds the %zu bytes of a live shared allocation", l.second.size);
                if (found == 1) {
                    for (auto &u : used)
                        CHECK(u.first + u.second <= where || where + l.second.size <= u.first, "file:ranges-overlap", "two live allocations share bytes of the file");
                    used[where] = l.second.size;
                }
                stat("file_ranges_found");
            }
        }
        close(fd);
        if (full)
            ipc_check();
    };
    int nops = (int)r.range(20, kind == "file" || kind == "devdax" ? 120 : 220);
    bool splitty = r.chance(1, 3);
    // allocations comparable with, and larger than, what the file holds at first
    bool big = kind == "file" && r.chance(1, 4);
    for (int op = 0; op < nops; op++) {
        progress();
        unsigned k = (unsigned)r.below(100);
        if (splitty && r.chance(1, 3))
            k = 65 + (unsigned)r.below(30);
        if (k < 45) {
            size_t size, align;
            unsigned s = (unsigned)r.below(100);
            if (s < 55)
                size = m.page * r.range(1, r.chance(1, 4) ? 20 : 4);
            else if (s < 75)
                size = 1 + r.below(m.page * 5);
            else if (s < 88) { // exactly a free range, or one minus alignment
                auto f = m.frees(true);
                size = f.empty() ? m.page : f[r.below(f.size())].second;
                if (r.chance(1, 3) && size > m.page)
                    size -= m.page;
            } else if (s < 92)
                size = r.chance(1, 2) ? SIZE_MAX - r.below(3 * m.page) : (size_t)1 << r.range(33, 63);
            else if (s < 93)
                size = 0;
            else
                size = m.page;
            if (big && r.chance(1, 3) && bound < (24u << 20)) {
                size = m.page * r.range(64, r.chance(1, 2) ? 300 : 1000) - (r.chance(1, 3) ? r.below(m.page) : 0);
                stat("big_allocs");
            }
            unsigned a = (unsigned)r.below(100);
            if (a < 40) align = 0;
            else if (a < 55) align = (size_t)1 << r.below(13);
            else if (a < 75) align = m.page;
            else if (a < 92) align = m.page << r.below(6);
            else if (a < 95) align = (size_t)1 << r.range(40, 63);
            else align = r.chance(1, 2) ? m.page * 3 : m.page + 1 + r.below(100);
            if ((kind == "file") && (size > (64u << 20) && size < (1ull << 60)))
                size = SIZE_MAX - r.below(100);
            if (kind == "file" && align > (64u << 20))
                align = m.page;
            if (do_alloc(size, align))
                bound += size + 2 * (align < m.page ? m.page : align) + 2 * m.page;
        } else if (k < 65) {
            if (m.live.empty()) continue;
            auto it = m.live.begin();
            std::advance(it, r.below(m.live.size()));
            CHECK(verify(it->first, it->second.size, it->second.tag, m.touch_all), "region:contents", "contents changed before free (size %zu)", it->second.size);
            umf_result_t x = t.free((void *)it->first, it->second.size);
            CHECK(x == UMF_RESULT_SUCCESS, "region:free", "free of a live allocation (size %zu) failed with %d", it->second.size, x);
            if (x == UMF_RESULT_SUCCESS) m.live.erase(it);
            sg.add(op);
            stat("frees");
        } else if (k < 80) { // split
            if (m.live.empty()) continue;
            auto it = m.live.begin();
            std::advance(it, r.below(m.live.size()));
            size_t tot = it->second.size;
            unsigned bad = (unsigned)r.below(10);
            void *p = (void *)it->first;
            if (bad == 0) {
                size_t first = tot + r.below(3);
                CHECK(t.split(p, tot, first) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split of %zu at %zu accepted", tot, first);
                CHECK(t.split(p, tot, 0) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split at 0 accepted");
            } else if (bad == 1 && tot > 2) {
                CHECK(t.split(p, tot + 1, 1) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split with total %zu of a block of %zu accepted", tot + 1, tot);
                CHECK(t.split(p, tot - 1, 1) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split with total %zu of a block of %zu accepted", tot - 1, tot);
            } else if (bad == 2 && tot > 2) {
                CHECK(t.split((char *)p + 1, tot - 1, 1) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split of an interior address accepted");
                auto f = m.frees(!refusing);
                if (!f.empty() && base_known && kind != "file" && f[0].second > 2)
                    CHECK(t.split((void *)f[0].first, f[0].second, 1) != UMF_RESULT_SUCCESS, "split:bad-accepted", "split of a free range accepted");
            } else if (tot >= 2) {
                size_t first = r.chance(1, 2) && tot > m.page ? m.page * r.range(1, (tot - 1) / m.page) : r.range(1, tot - 1);
                CHECK(verify(it->first, tot, it->second.tag, m.touch_all), "region:contents", "contents changed before split");
                cb.refused_now = false;
                umf_result_t x = t.split(p, tot, first);
                stat("splits");
                if (cb.refused_now) {
                    CHECK(x == REFUSAL, "split:refusal-code", "refused split returned %d", x);
                    stat("splits_refused");
                } else {
                    CHECK(x == UMF_RESULT_SUCCESS, "split:failed", "split of %zu at %zu failed %d", tot, first, x);
                }
                CHECK(verify(it->first, tot, it->second.tag, m.touch_all), "split:contents", "split changed the contents");
                if (x == UMF_RESULT_SUCCESS) {
                    it->second.size = first;
                    uintptr_t q = it->first + first;
                    m.live[q] = {tot - first, ++tag};
                    put(q, tot - first, tag, m.touch_all);
                    put(it->first, first, it->second.tag, m.touch_all);
                    sg.add(first);
                }
            }
        } else if (k < 95) { // merge
            if (m.live.size() < 2) continue;
            auto it = m.live.begin();
            std::advance(it, r.below(m.live.size() - 1));
            // prefer adjacent pairs
            auto best = it;
            for (int tries = 0; tries < 30; tries++) {
                auto nx = std::next(best);
                if (nx == m.live.end()) {
                    best = m.live.begin();
                    continue;
                }
                if (best->first + best->second.size == nx->first) break;
                ++best;
            }
            it = best;
            auto nx = std::next(it);
            if (nx == m.live.end()) continue;
            bool adj = it->first + it->second.size == nx->first;
            size_t sum = it->second.size + nx->second.size;
            void *lo = (void *)it->first, *hi = (void *)nx->first;
            unsigned bad = (unsigned)r.below(8);
            if (!adj) {
                CHECK(t.merge(lo, hi, sum) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge of non-adjacent blocks accepted");
                CHECK(t.merge(lo, hi, nx->first + nx->second.size - it->first) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge of non-adjacent blocks accepted");
                // the range between them is free: it cannot be merged with a live neighbour
                uintptr_t gap = it->first + it->second.size;
                CHECK(t.merge(lo, (void *)gap, nx->first - it->first) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge of an allocation with the free range above it accepted");
                CHECK(t.merge((void *)gap, hi, nx->first + nx->second.size - gap) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge of a free range with the allocation above it accepted");
            } else if (bad == 0) {
                CHECK(t.merge(lo, hi, sum + 1) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge with a wrong total accepted");
                CHECK(sum - 1 <= it->second.size || t.merge(lo, hi, sum - 1) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge with a wrong total accepted");
                CHECK(t.merge(hi, lo, sum) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge with swapped blocks accepted");
                CHECK(t.merge(lo, lo, sum) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge of a block with itself accepted");
            } else if (bad == 1) {
                if (it->second.size > 1)
                    CHECK(t.merge((char *)lo + 1, hi, sum - 1) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge from an interior address accepted");
                CHECK(t.merge(lo, (char *)hi + 1, sum) != UMF_RESULT_SUCCESS, "merge:bad-accepted", "merge to an interior address accepted");
            } else {
                CHECK(verify(it->first, it->second.size, it->second.tag, m.touch_all), "region:contents", "contents changed before merge");
                CHECK(verify(nx->first, nx->second.size, nx->second.tag, m.touch_all), "region:contents", "contents changed before merge");
                cb.refused_now = false;
                umf_result_t x = t.merge(lo, hi, sum);
                stat("merges");
                if (cb.refused_now) {
                    CHECK(x == REFUSAL, "merge:refusal-code", "refused merge returned %d", x);
                    stat("merges_refused");
                } else if (kind == "file") {
                    if (x != UMF_RESULT_SUCCESS) stat("file_merge_refused"); // different places of the file
                } else {
                    CHECK(x == UMF_RESULT_SUCCESS, "merge:failed", "merge of adjacent allocations failed %d", x);
                }
                CHECK(verify(it->first, it->second.size, it->second.tag, m.touch_all), "merge:contents", "merge changed the contents");
                CHECK(verify(nx->first, nx->second.size, nx->second.tag, m.touch_all), "merge:contents", "merge changed the contents");
                if (x == UMF_RESULT_SUCCESS) {
                    it->second.size = sum;
                    m.live.erase(nx);
                    it->second.tag = ++tag;
                    put(it->first, sum, tag, m.touch_all);
                    sg.add(sum);
                }
            }
        } else { // invalid frees
            unsigned b = (unsigned)r.below(4);
            stat("invalid_frees");
            if (b == 0 && !m.live.empty()) {
                auto it = m.live.begin();
                std::advance(it, r.below(m.live.size()));
                CHECK(t.free((void *)it->first, it->second.size + 1) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free with a wrong size accepted");
                if (it->second.size > 1) {
                    CHECK(t.free((void *)it->first, it->second.size - 1) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free with a wrong size accepted");
                    CHECK(t.free((void *)(it->first + 1), it->second.size - 1) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free of an interior address accepted");
                    CHECK(t.free((void *)(it->first + it->second.size / 2), 0) != UMF_RESULT_SUCCESS || it->second.size / 2 == 0, "free:bad-accepted", "free of an interior address accepted");
                }
            } else if (b == 1 && base_known && kind != "file") {
                auto f = m.frees(!refusing);
                if (!f.empty()) {
                    auto &x = f[r.below(f.size())];
                    CHECK(t.free((void *)x.first, x.second) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free of a free range accepted");
                    CHECK(t.free((void *)x.first, 0) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free of a free range accepted");
                }
            } else if (b == 2) {
                CHECK(t.free((void *)0x10000, 4096) != UMF_RESULT_SUCCESS, "free:bad-accepted", "free of a foreign address accepted");
            } else
                CHECK(t.free(nullptr, 0) == UMF_RESULT_SUCCESS, "free:null", "free(NULL) failed");
        }
        stats_check("after op");
        verify_some(2);
        if (c07)
            file_check(r.chance(1, big ? 30 : 6));
        if (c08dax && r.chance(1, 4))
            ipc_check();
        if (C.nviol) break;
    }
    // contents of everything, then free all in random order
    for (auto &l : m.live)
        CHECK(verify(l.first, l.second.size, l.second.tag, m.touch_all), "region:contents", "contents of live allocation changed (final, size %zu)", l.second.size);
    if (c07) {
        file_check(true);
        // one more allocation of the same size again and again reuses its range
        size_t sz = m.page * r.range(1, 8), al = m.page << r.below(4);
        uint64_t f1 = 0;
        for (int i = 0; i < 20; i++) {
            void *p = nullptr;
            struct stat sb;
            umf_result_t x = t.alloc(sz, al, &p);
            CHECK(x == UMF_RESULT_SUCCESS, "file:refused", "allocation refused %d", x);
            if (x) break;
            CHECK(!m.overlaps((uintptr_t)p, sz), "region:overlap", "overlap");
            x = t.free(p, sz);
            if (!::stat(path.c_str(), &sb) && i == 0) f1 = sb.st_size;
            CHECK((uint64_t)sb.st_size == f1, "file:not-reused", "allocating and freeing %zu bytes again grew the file from %lu to %lu", sz, f1, (uint64_t)sb.st_size);
        }
        h::stat("reuse_rounds");
    }
    cb.refuse_merge = cb.refuse_split = 0;
    bool leave_some = r.chance(1, 12);
    while (!m.live.empty() && !(leave_some && m.live.size() < 3)) {
        auto it = m.live.begin();
        std::advance(it, r.below(m.live.size()));
        umf_result_t x = t.free((void *)it->first, r.chance(1, 8) ? 0 : it->second.size);
        CHECK(x == UMF_RESULT_SUCCESS, "region:free", "final free failed with %d", x);
        m.live.erase(it);
        stats_check("final free");
    }
    if (m.live.empty() && fixed_region && !cb.refused_merge && !C.nviol) {
        // the whole region again as one block
        if (base_known) {
            for (auto &reg : m.regions) {
                uintptr_t a = (reg.first + m.page - 1) / m.page * m.page;
                if (reg.first + reg.second <= a) continue;
                size_t whole = reg.first + reg.second - a;
                bool exact = a == reg.first && m.regions.size() == 1 && strategy != 1;
                size_t want = exact ? whole : reg.second - m.page * (a == reg.first ? 1 : 2);
                if (reg.second <= 2 * m.page && !exact) continue;
                void *p = nullptr;
                cb.want_size = want; cb.want_align = 0;
                umf_result_t x = t.alloc(want, 0, &p);
                CHECK(x == UMF_RESULT_SUCCESS, "region:not-whole-again", "after freeing everything %zu of the %zu bytes cannot be allocated (%d)", want, reg.second, x);
                if (x == UMF_RESULT_SUCCESS) {
                    if (exact) CHECK((uintptr_t)p == reg.first, "region:not-whole-again", "whole region allocation does not start at the base");
                    t.free(p, want);
                }
                stat("whole_region");
            }
        } else if (region > m.page) {
            void *p = nullptr;
            umf_result_t x = t.alloc(region - m.page, 0, &p);
            CHECK(x == UMF_RESULT_SUCCESS, "region:not-whole-again", "devdax: %zu of %zu bytes cannot be allocated after all frees (%d)", region - m.page, region, x);
            if (x == UMF_RESULT_SUCCESS) t.free(p, 0);
            stat("whole_region");
        }
    }
    label("%s destroy", kind.c_str());
    cb.deleting = true;
    if (coarse) coarse_delete(coarse);
    if (coarse && cb.freed) stat("returned_upstream", cb.freed);
    if (coarse && has_cb_free) CHECK(cb.up.empty(), "coarse:not-returned", "%zu upstream blocks were not given back when the pool of memory was deleted (%zu allocations left)", cb.up.size(), m.live.size());
    if (prov) umfMemoryProviderDestroy(prov);
    if (kind == "file" || kind == "devdax") {
        int left = mapsOf(path.c_str());
        CHECK(left == 0, "region:mappings-left", "%d mappings of the file are left after the provider was destroyed", left);
        int fds = openFds();
        CHECK(fds == fds0, "region:descriptors-left", "%d descriptors open before, %d after the life of the provider", fds0, fds);
        stat("leak_checks");
    }
    CHECK(ba::st.live_blocks == live0, "region:metadata-leak", "%ld metadata blocks left after destroying the provider: %s", (long)(ba::st.live_blocks - live0), ba::leaks(ser0).c_str());
    sig(sg.v);
    stat(("cases_" + kind).c_str());
    sample("%s page %zu strategy %d refusing %d ops %d", kind.c_str(), m.page, strategy, (int)refusing, nops);
}
