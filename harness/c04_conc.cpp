// Several threads on one region-carving provider (C04, C07): fixed, devdax and
// file providers. Live blocks never overlap, keep their contents, lie in
// disjoint ranges of the file, and all memory is free again in the end.
#include <fcntl.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <umf/memory_provider.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <unistd.h>

#include "dax.hpp"
#include "h.hpp"
#include "sched.hpp"

using namespace h;

extern "C" int __real_utils_devdax_open(const char *path);
extern "C" int __wrap_utils_devdax_open(const char *path) {
    if (strstr(path, "fakedax"))
        return open(path, O_RDWR);
    return __real_utils_devdax_open(path);
}
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (dax_request(f, fd))
        return dax_map(__real_mmap, munmap, l, p, f, fd, o);
    return __real_mmap(a, l, p, f, fd, o);
}

static std::string scratch;
static void *fixed_mem;
static const size_t FIXED = 64 * 4096;

void harness_begin() {
    const char *d = getenv("VERIF_SCRATCH");
    scratch = std::string(d ? d : "/tmp/") + "conc_" + std::to_string(getpid());
    if (posix_memalign(&fixed_mem, 4096, FIXED))
        abort();
}
void harness_end() {
    unlink((scratch + ".dat").c_str());
    unlink((scratch + "fakedax").c_str());
    free(fixed_mem);
}

namespace {
struct Blk {
    char *p;
    size_t n;
    uint64_t tag;
};
size_t headOf(size_t n) { return n > 8192 ? 4096 : n; }
void mark(const Blk &b) {
    fill(b.p, headOf(b.n), b.tag);
    if (b.n > 8192)
        fill(b.p + b.n - 64, 64, b.tag + 1);
}
bool intact(const Blk &b) {
    return checkfill(b.p, headOf(b.n), b.tag) == headOf(b.n) && (b.n <= 8192 || checkfill(b.p + b.n - 64, 64, b.tag + 1) == 64);
}
} // namespace

void run_case(uint64_t idx, Rng &r) {
    const std::string &mode = ctx().mode; // file, filesched, region, regionsched
    bool det = mode.find("sched") != std::string::npos;
    int kind = mode.compare(0, 4, "file") == 0 ? 2 : (int)r.below(3) == 0 ? 1 : 0;
    static const char *kn[] = {"fixed", "devdax", "file"};
    label("%s shared by threads", kn[kind]);
    int fds0 = openFds();
    umf_memory_provider_handle_t prov = nullptr;
    size_t page = 4096, region = 0;
    std::string path;
    bool shared = true;
    if (kind == 0) {
        region = 4096 * r.range(8, 64);
        umf_fixed_memory_provider_params_handle_t p = nullptr;
        umfFixedMemoryProviderParamsCreate(&p, fixed_mem, region);
        umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &prov);
        umfFixedMemoryProviderParamsDestroy(p);
    } else if (kind == 1) {
        page = 2u << 20;
        region = page * r.range(4, 16);
        path = scratch + "fakedax";
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (ftruncate(fd, region)) {}
        close(fd);
        umf_devdax_memory_provider_params_handle_t p = nullptr;
        umfDevDaxMemoryProviderParamsCreate(&p, path.c_str(), region);
        umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), p, &prov);
        umfDevDaxMemoryProviderParamsDestroy(p);
    } else {
        path = scratch + ".dat";
        unlink(path.c_str());
        shared = r.chance(4, 5);
        umf_file_memory_provider_params_handle_t p = nullptr;
        umfFileMemoryProviderParamsCreate(&p, path.c_str());
        if (shared)
            umfFileMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
        umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &prov);
        umfFileMemoryProviderParamsDestroy(p);
    }
    CHECK(prov, "conc:create", "no %s provider", kn[kind]);
    if (!prov)
        return;
    int nt = det ? (int)r.range(2, 3) : (int)r.range(2, 6);
    int nops = det ? (int)r.range(3, 9) : (int)r.range(20, 120);
    // how big: small blocks share a mapping, large ones ask for a new one each
    size_t maxp = r.pick(std::vector<size_t>{2, 4, 40});
    if (kind == 1)
        maxp = 3;
    std::mutex mu; // registry of live blocks
    std::map<uintptr_t, size_t> live;
    auto enter = [&](char *p, size_t n) {
        std::lock_guard<std::mutex> g(mu);
        auto it = live.upper_bound((uintptr_t)p);
        bool bad = it != live.end() && (uintptr_t)p + n > it->first;
        if (it != live.begin()) {
            --it;
            bad = bad || it->first + it->second > (uintptr_t)p;
        }
        CHECK(!bad, "conc:overlap", "%s: a new block of %zu bytes overlaps one that another thread holds", kn[kind], n);
        live[(uintptr_t)p] = n;
    };
    auto leave = [&](char *p) {
        std::lock_guard<std::mutex> g(mu);
        live.erase((uintptr_t)p);
    };
    std::vector<std::vector<Blk>> mine(nt);
    std::vector<Rng> rs;
    for (int i = 0; i < nt; i++)
        rs.emplace_back(r.next());
    auto body = [&](int t) {
        Rng &q = rs[t];
        auto &v = mine[t];
        uint64_t tag = (uint64_t)(t + 1) << 32;
        for (int i = 0; i < nops; i++) {
            unsigned w = (unsigned)q.below(20);
            if (v.empty() || w < 10) {
                size_t n = q.range(1, maxp) * page - (q.chance(1, 3) && kind != 1 ? q.below(page) : 0);
                size_t al = q.chance(1, 4) ? page << q.below(3) : 0;
                void *p = nullptr;
                umf_result_t rc = umfMemoryProviderAlloc(prov, n, al, &p);
                if (rc != UMF_RESULT_SUCCESS) {
                    CHECK(kind != 2, "conc:refused", "a file provider refuses %zu bytes: %d", n, rc);
                    stat("refused");
                    continue;
                }
                CHECK(al == 0 || (uintptr_t)p % al == 0, "conc:align", "%s: a block is not aligned to %zu", kn[kind], al);
                enter((char *)p, n);
                tag += 16;
                Blk b{(char *)p, n, tag};
                mark(b);
                v.push_back(b);
                stat("conc_allocs");
            } else {
                size_t k = q.below(v.size());
                Blk b = v[k];
                CHECK(intact(b), "conc:contents", "%s: a live block of %zu bytes changed", kn[kind], b.n);
                if (w < 16) {
                    leave(b.p);
                    umf_result_t rc = umfMemoryProviderFree(prov, b.p, b.n);
                    CHECK(rc == UMF_RESULT_SUCCESS, "conc:free", "%s: a free returns %d", kn[kind], rc);
                    v[k] = v.back();
                    v.pop_back();
                    stat("conc_frees");
                } else if (w < 18 && b.n >= 2 * page && b.n % page == 0) {
                    size_t f = q.range(1, b.n / page - 1) * page;
                    umf_result_t rc = umfMemoryProviderAllocationSplit(prov, b.p, b.n, f);
                    CHECK(rc == UMF_RESULT_SUCCESS, "conc:split", "%s: a split returns %d", kn[kind], rc);
                    if (rc == UMF_RESULT_SUCCESS) {
                        {
                            std::lock_guard<std::mutex> g(mu);
                            live[(uintptr_t)b.p] = f;
                            live[(uintptr_t)b.p + f] = b.n - f;
                        }
                        tag += 16;
                        v[k] = Blk{b.p, f, tag};
                        v.push_back(Blk{b.p + f, b.n - f, tag + 8});
                        mark(v[k]);
                        mark(v.back());
                        stat("conc_splits");
                        if (q.chance(1, 2)) { // and together again
                            rc = umfMemoryProviderAllocationMerge(prov, b.p, b.p + f, b.n);
                            CHECK(rc == UMF_RESULT_SUCCESS, "conc:merge", "%s: a merge returns %d", kn[kind], rc);
                            if (rc == UMF_RESULT_SUCCESS) {
                                CHECK(intact(v[k]) && intact(v.back()), "conc:contents", "%s: merged blocks changed", kn[kind]);
                                v.pop_back();
                                {
                                    std::lock_guard<std::mutex> g(mu);
                                    live.erase((uintptr_t)b.p + f);
                                    live[(uintptr_t)b.p] = b.n;
                                }
                                tag += 16;
                                v[k] = Blk{b.p, b.n, tag};
                                mark(v[k]);
                                stat("conc_merges");
                            }
                        }
                    }
                } else if (kind == 2 && shared) { // the handle of a live block
                    size_t hs = 0;
                    umfMemoryProviderGetIPCHandleSize(prov, &hs);
                    std::vector<char> hd(hs);
                    void *o = nullptr;
                    umf_result_t rc = umfMemoryProviderGetIPCHandle(prov, b.p, b.n, hd.data());
                    CHECK(rc == UMF_RESULT_SUCCESS, "conc:ipc", "no handle of a live block: %d", rc);
                    if (rc == UMF_RESULT_SUCCESS) {
                        rc = umfMemoryProviderOpenIPCHandle(prov, hd.data(), &o);
                        CHECK(rc == UMF_RESULT_SUCCESS, "conc:ipc", "the handle of a live block cannot be opened: %d", rc);
                        if (rc == UMF_RESULT_SUCCESS) {
                            CHECK(intact(Blk{(char *)o, b.n, b.tag}), "conc:ipc-bytes", "the handle of a live block shows other bytes");
                            CHECK(umfMemoryProviderCloseIPCHandle(prov, o, b.n) == UMF_RESULT_SUCCESS, "conc:ipc", "closing fails");
                            stat("conc_opened");
                        }
                    }
                }
            }
        }
    };
#ifdef VARIANT_SCHED
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nt; i++)
        fs.push_back([&, i] { body(i); });
    auto res = sched::run(fs, r.next(), sched::random_params(r));
    CHECK(!res.deadlock, "conc:deadlock", "%s: all threads wait for each other", kn[kind]);
    sig(res.hash);
#else
    std::vector<std::thread> ths;
    for (int i = 0; i < nt; i++)
        ths.emplace_back(body, i);
    for (auto &t : ths)
        t.join();
    sig(Sig().add(idx).add(r.next()).v);
#endif
    size_t total = 0;
    for (auto &v : mine)
        for (auto &b : v) {
            CHECK(intact(b), "conc:contents", "%s: a live block of %zu bytes changed (at the end)", kn[kind], b.n);
            total += b.n;
        }
    if (kind == 2 && shared) { // every block has its own range of the file
        int fd = open(path.c_str(), O_RDONLY);
        struct stat sb;
        if (fd >= 0 && !fstat(fd, &sb)) {
            std::vector<char> buf(sb.st_size);
            ssize_t got = pread(fd, buf.data(), buf.size(), 0);
            CHECK(got == (ssize_t)buf.size(), "conc:file", "the file cannot be read");
            for (auto &v : mine)
                for (auto &b : v) {
                    if (b.n < 32)
                        continue;
                    bool found = false;
                    for (size_t o = 0; o + b.n <= buf.size() && !found; o += 4096)
                        found = intact(Blk{buf.data() + o, b.n, b.tag});
                    // (a split block may start anywhere, here always at a page)
                    CHECK(found, "conc:not-in-file", "the file nowhere holds the %zu bytes of a live block", b.n);
                    stat("conc_in_file");
                }
        }
        if (fd >= 0)
            close(fd);
    }
    for (auto &v : mine)
        for (auto &b : v)
            CHECK(umfMemoryProviderFree(prov, b.p, b.n) == UMF_RESULT_SUCCESS, "conc:free", "%s: a last free fails", kn[kind]);
    if (kind != 2) { // everything is free again
        void *p = nullptr;
        umf_result_t rc = umfMemoryProviderAlloc(prov, region, 0, &p);
        CHECK(rc == UMF_RESULT_SUCCESS, "conc:whole", "%s: after everything was freed the %zu bytes cannot be allocated: %d", kn[kind], region, rc);
        if (rc == UMF_RESULT_SUCCESS)
            umfMemoryProviderFree(prov, p, region);
        stat("conc_whole");
    }
    umfMemoryProviderDestroy(prov);
    if (kind) {
        CHECK(mapsOf(path.c_str()) == 0, "conc:mappings-left", "mappings of the file are left");
        CHECK(openFds() == fds0, "conc:descriptors-left", "descriptors are left");
    }
    stat("conc_worlds");
    (void)total;
}
