// Pointer-to-pool lookup (C03) and split/merge through the tracking layer (C05):
// trees of pools nested in each other's memory against an exact region model.
#ifndef NO_BA
#include "ba.hpp"
#endif
#include "provs.hpp"
#include "sched.hpp"
#include <umf/providers/provider_fixed_memory.h>
using namespace h;

namespace {
const size_t PG = 4096;
enum Kind { ROOT, FIXED, POOLPROV };
struct Reg {
    uintptr_t base;
    size_t size;
    int pool;
    int level;
    Reg *parent;
    int kids = 0;     // tracked children
    int host = 0;         // pools built on it
    bool backing = false; // held by a pool-backed provider
};
struct PoolN {
    int idx;
    Kind kind;
    pv::PassPool pp;
    pv::PoolProv poolprov;
    umf_memory_pool_handle_t h = nullptr;
    umf_memory_provider_handle_t prov = nullptr;
    int parent = -1;   // POOLPROV: pool it draws from; FIXED: pool of the host region
    Reg *host = nullptr;
    bool tracked = true, dead = false;
    int rec = -1;      // ROOT: which recording provider
};

struct World {
    std::vector<std::unique_ptr<pv::Prov>> recs;
    std::vector<std::unique_ptr<PoolN>> pools;
    std::map<uintptr_t, Reg *> lv[16]; // tracked regions by level
    std::vector<Reg *> regs;           // live regions, tracked ones only
    std::map<std::pair<uintptr_t, int>, size_t> untracked; // (base, pool) -> size
    std::map<uintptr_t, uint64_t> pages;
    uint64_t tagn = 1;
    Rng &r;
    Sig s;
    explicit World(Rng &rr) : r(rr) {}

    Reg *innermost(uintptr_t a) {
        Reg *best = nullptr;
        for (int l = 0; l < 16; l++) {
            auto it = lv[l].upper_bound(a);
            if (it == lv[l].begin())
                break;
            --it;
            if (a >= it->first + it->second->size)
                break;
            best = it->second;
        }
        return best;
    }
    void probe(uintptr_t a, const char *why) {
        Reg *e = innermost(a);
        umf_memory_pool_handle_t want = e ? pools[e->pool]->h : nullptr;
        umf_memory_pool_handle_t got = umfPoolByPtr((void *)a);
        cnt("lookups");
        if (e)
            cnt(e->level ? "lookups_nested" : "lookups_level0");
        else
            cnt("lookups_none");
        if (got == want)
            return;
        int gi = -1;
        for (auto &p : pools)
            if (!p->dead && p->h == got)
                gi = p->idx;
        const char *key = !want ? "C03:ghost" : !got ? "C03:lost" : "C03:wrong-pool";
        if (e)
            viol(key, "%s: lookup of base+%zu of a %zu-byte region (level %d, %d children) of pool %d gives pool %d", why, a - e->base,
                 e->size, e->level, e->kids, e->pool, gi);
        else
            viol(key, "%s: lookup of an address no tracked pool holds gives pool %d", why, gi);
    }
    void probes(uintptr_t b, size_t n, const char *why) {
        probe(b, why);
        probe(b + n - 1, why);
        probe(b + n, why);
        probe(b - 1, why);
        probe(b + r.below(n), why);
    }
    void probeRandom(const char *why) {
        if (!regs.empty()) {
            Reg *g = r.pick(regs);
            probes(g->base, g->size, why);
        }
        if (!untracked.empty()) {
            auto it = untracked.begin();
            std::advance(it, r.below(untracked.size()));
            probe(it->first.first + r.below(it->second), why);
        }
    }
    void paint(uintptr_t b, size_t n) {
        pv::Prov::unpoison((void *)b, n); // a nested provider leaves freed memory poisoned
        for (uintptr_t a = b; a < b + n; a += PG) {
            uint64_t v = mix(tagn++, a);
            *(uint64_t *)a = v;
            *(uint64_t *)(a + PG - 8) = ~v;
            pages[a] = v;
        }
    }
    void checkPaint(uintptr_t b, size_t n, const char *why) {
        pv::Prov::unpoison((void *)b, n);
        for (uintptr_t a = b; a < b + n; a += PG) {
            auto it = pages.find(a);
            if (it == pages.end())
                continue;
            cnt("pages_checked");
            if (*(uint64_t *)a != it->second || *(uint64_t *)(a + PG - 8) != ~it->second) {
                viol("C05:contents", "%s: contents of a live region changed at offset %zu of %zu", why, a - b, n);
                return;
            }
        }
    }
    Reg *add(int pool, uintptr_t b, size_t n) {
        PoolN &p = *pools[pool];
        if (p.kind == POOLPROV) {
            Reg *pr = add(p.parent, b, n);
            if (pr)
                pr->host++, pr->backing = true; // released together
        }
        if (!p.tracked) {
            untracked[{b, pool}] = n;
            return nullptr;
        }
        Reg *par = innermost(b);
        Reg *g = new Reg{b, n, pool, par ? par->level + 1 : 0, par};
        if (par)
            par->kids++;
        lv[g->level][b] = g;
        regs.push_back(g);
        return g;
    }
    void drop(Reg *g) {
        lv[g->level].erase(g->base);
        if (g->parent)
            g->parent->kids--;
        regs.erase(std::find(regs.begin(), regs.end(), g));
        delete g;
    }
    // model of freeing [b] in pool
    void removeModel(int pool, uintptr_t b) {
        PoolN &p = *pools[pool];
        if (p.tracked) {
            for (auto *g : regs)
                if (g->pool == pool && g->base == b) {
                    drop(g);
                    break;
                }
        } else
            untracked.erase({b, pool});
        if (p.kind == POOLPROV)
            removeModel(p.parent, b);
    }
    int depthNeeded(int pool) { // levels an allocation of the pool occupies
        PoolN &p = *pools[pool];
        int d = p.tracked ? 1 : 0;
        if (p.kind == POOLPROV)
            d += depthNeeded(p.parent);
        else if (p.kind == FIXED)
            d += p.host->level + 1;
        return d;
    }
    pv::Prov *recOf(int pool) {
        PoolN &p = *pools[pool];
        return p.kind == ROOT ? recs[p.rec].get() : recOf(p.parent);
    }
    // a pool whose regions reach the recording provider directly on free
    bool passesThrough(int pool) {
        PoolN &p = *pools[pool];
        return p.kind == ROOT || (p.kind == POOLPROV && passesThrough(p.parent));
    }
    size_t ledger() {
        size_t n = 0;
        for (auto &p : recs)
            n += p->live.size();
        return n;
    }
    // --- pools
    PoolN *newPool(Kind k, int parent, Reg *host, int rec, bool tracked) {
        auto p = std::make_unique<PoolN>();
        p->idx = (int)pools.size();
        p->kind = k;
        p->parent = parent;
        p->host = host;
        p->rec = rec;
        p->tracked = tracked;
        if (k == ROOT)
            p->prov = pv::create(*recs[rec]);
        else if (k == POOLPROV) {
            p->poolprov.pool = pools[parent]->h;
            umfMemoryProviderCreate(pv::poolProvOps(), &p->poolprov, &p->prov);
        } else {
            umf_fixed_memory_provider_params_handle_t fp = nullptr;
            umfFixedMemoryProviderParamsCreate(&fp, (void *)host->base, host->size);
            umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &p->prov);
            umfFixedMemoryProviderParamsDestroy(fp);
        }
        if (!p->prov) {
            viol("C03:setup", "provider creation failed");
            return nullptr;
        }
        umf_result_t res = umfPoolCreate(pv::passOps(), p->prov, &p->pp, tracked ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &p->h);
        if (res != UMF_RESULT_SUCCESS) {
            viol("C03:setup", "umfPoolCreate failed: %d", res);
            return nullptr;
        }
        if (host)
            host->host++;
        cnt("pools");
        PoolN *q = p.get();
        pools.push_back(std::move(p));
        return q;
    }
    bool hasRegions(int pool) {
        for (auto *g : regs)
            if (g->pool == pool)
                return true;
        for (auto &u : untracked)
            if (u.first.second == pool)
                return true;
        return false;
    }
    bool hasUsers(int pool) {
        for (auto &p : pools)
            if (!p->dead && p->kind == POOLPROV && p->parent == pool)
                return true;
        return false;
    }
    void destroyPool(PoolN &p) {
        umfPoolDestroy(p.h);
        umfMemoryProviderDestroy(p.prov);
        if (p.host)
            p.host->host--;
        CHECK(p.pp.finalized == 1, "C03:finalize", "pool finalized %d times", p.pp.finalized);
        p.dead = true;
        p.h = nullptr;
    }
    int pickPool() {
        for (int i = 0; i < 20; i++) {
            int k = (int)r.below(pools.size());
            if (!pools[k]->dead)
                return k;
        }
        return -1;
    }
    Reg *pickLeaf() { // region the user may free, split or build on
        for (int i = 0; i < 12 && !regs.empty(); i++) {
            Reg *g = r.pick(regs);
            if (!g->kids && !g->host)
                return g;
        }
        return nullptr;
    }
    bool backs(int pool, uintptr_t b) { // held by a pool-backed provider
        for (auto &p : pools)
            if (!p->dead && p->kind == POOLPROV && p->parent == pool && p->pp.sizes.count((void *)b))
                return true;
        return false;
    }
    // --- operations
    void opAlloc() {
        int k = pickPool();
        if (k < 0)
            return;
        PoolN &p = *pools[k];
        size_t npg = 1 + (r.chance(1, 6) ? r.below(96) : r.below(10));
        if (p.kind == FIXED && r.chance(1, 5))
            npg = p.host->size / PG; // the whole parent: same base and size
        size_t n = npg * PG;
        size_t al = r.chance(1, 4) ? PG << r.below(3) : 0;
        pv::Prov *rec = recOf(k);
        bool fault = r.chance(1, 12) && passesThrough(k);
        if (fault)
            rec->fail_in[pv::ALLOC] = 0;
        size_t before = ledger();
        bool tooDeep = depthNeeded(k) > 8;
        void *q = al ? umfPoolAlignedMalloc(p.h, n, al) : umfPoolMalloc(p.h, n);
        bool hit = fault && rec->fail_in[pv::ALLOC] < 0;
        rec->clearFaults();
        s.add(1).add(k).add(n).add(q != nullptr);
        if (!q) {
            if (tooDeep) {
                cnt("too_deep");
            } else if (!hit && passesThrough(k))
                viol("C03:refused", "allocation of %zu bytes in pool %d refused without cause (error %d, level %d)", n, k, (int)p.pp.last,
                     depthNeeded(k) - 1);
            CHECK(ledger() == before, "C03:alloc-leak", "a failed allocation left memory behind");
            probeRandom("after a failed alloc");
            return;
        }
        if (hit)
            viol("C03:fault-ignored", "allocation succeeded although the provider failed");
        if (tooDeep) {
            viol("C03:too-deep", "allocation at level %d succeeded", depthNeeded(k));
            return;
        }
        uintptr_t b = (uintptr_t)q;
        if (p.kind == FIXED && (b < p.host->base || b + n > p.host->base + p.host->size)) {
            viol("C03:range", "nested allocation outside its host region");
            return;
        }
        add(k, b, n);
        paint(b, n);
        cnt("allocs");
        maxstat("level", (uint64_t)std::max(0, depthNeeded(k) - 1));
        probes(b, n, "after alloc");
    }
    void opFree() {
        int pool;
        uintptr_t b;
        size_t n;
        bool byPtr = false;
        if (!untracked.empty() && r.chance(1, 8)) {
            auto it = untracked.begin();
            std::advance(it, r.below(untracked.size()));
            b = it->first.first, n = it->second, pool = it->first.second;
            if (backs(pool, b))
                return;
        } else {
            Reg *g = pickLeaf();
            if (!g)
                return;
            b = g->base, n = g->size, pool = g->pool;
            byPtr = r.chance(1, 2);
        }
        PoolN &p = *pools[pool];
        checkPaint(b, n, "before free");
        pv::Prov *rec = recOf(pool);
        bool fault = passesThrough(pool) && p.kind == ROOT && r.chance(1, 12);
        if (fault)
            rec->fail_in[pv::FREE] = 0;
        umf_result_t res = byPtr ? umfFree((void *)b) : umfPoolFree(p.h, (void *)b);
        rec->clearFaults();
        s.add(2).add(pool).add(n).add(fault);
        if (fault) {
            CHECK(res != UMF_RESULT_SUCCESS, "C03:free-fault", "free reports success although the provider refused it");
            p.pp.sizes[(void *)b] = n; // still allocated
            cnt("refused_frees");
            checkPaint(b, n, "after a refused free");
            probes(b, n, "after a refused free");
            return;
        }
        CHECK(res == UMF_RESULT_SUCCESS, "C03:free", "%s of a live block gives %d", byPtr ? "umfFree" : "umfPoolFree", res);
        if (byPtr)
            CHECK(!p.pp.sizes.count((void *)b), "C03:free-pool", "umfFree did not release the block in its own pool");
        removeModel(pool, b);
        cnt("frees");
        probes(b, n, "after free");
    }
    void opSplit() {
        Reg *g = pickLeaf();
        if (!g)
            return;
        PoolN &p = *pools[g->pool];
        size_t n = g->size;
        if (r.chance(1, 5)) { // arguments that match no live region
            umf_result_t res;
            uint64_t calls = recOf(g->pool)->calls[pv::SPLIT];
            switch (r.below(6)) {
            case 0:
                res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)g->base, n + PG, PG);
                break;
            case 1:
                res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)g->base, n, n);
                break;
            case 2:
                res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)g->base, n, 0);
                break;
            case 3:
                if (n <= PG)
                    return;
                res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)(g->base + PG), n - PG, (n - PG) / 2 ? (n - PG) / 2 : 1);
                break;
            case 4: { // through another pool
                int k = pickPool();
                if (k < 0 || k == g->pool || !pools[k]->tracked || n <= PG)
                    return;
                for (auto *x : regs)
                    if (x->pool == k && x->base == g->base)
                        return;
                res = umfMemoryProviderAllocationSplit(pools[k]->pp.prov, (void *)g->base, n, PG);
                break;
            }
            default: { // a region with children
                Reg *x = nullptr;
                for (auto *y : regs)
                    if (y->kids && pools[y->pool]->kind != POOLPROV)
                        x = y;
                if (!x || x->size <= PG)
                    return;
                calls = recOf(x->pool)->calls[pv::SPLIT];
                g = x;
                res = umfMemoryProviderAllocationSplit(pools[x->pool]->pp.prov, (void *)x->base, x->size, PG);
                CHECK(recOf(x->pool)->calls[pv::SPLIT] == calls, "C05:bad-split-passed", "split of a region with children reached the provider");
            }
            }
            CHECK(res != UMF_RESULT_SUCCESS, "C05:bad-split", "a split that matches no live region succeeded");
            cnt("bad_splits");
            probes(g->base, g->size, "after a refused split");
            checkPaint(g->base, g->size, "after a refused split");
            return;
        }
        if (n <= PG || p.kind == POOLPROV) {
            if (n > PG) {
                umf_result_t res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)g->base, n, PG);
                CHECK(res == UMF_RESULT_ERROR_NOT_SUPPORTED, "C05:unsupported", "unsupported split gives %d", res);
                probes(g->base, n, "after an unsupported split");
            }
            return;
        }
        size_t first = PG * (1 + r.below(n / PG - 1));
        pv::Prov *rec = recOf(g->pool);
        bool fault = p.kind == ROOT && r.chance(1, 8);
        if (fault)
            rec->fail_in[pv::SPLIT] = 0;
        umf_result_t res = umfMemoryProviderAllocationSplit(p.pp.prov, (void *)g->base, n, first);
        rec->clearFaults();
        s.add(3).add(g->pool).add(n).add(first).add(fault);
        if (fault) {
            CHECK(res != UMF_RESULT_SUCCESS, "C05:split-fault", "split reports success although the provider refused it");
            cnt("refused_splits");
            probes(g->base, n, "after a refused split");
            probe(g->base + first, "after a refused split");
            return;
        }
        if (res != UMF_RESULT_SUCCESS) {
            viol("C05:split", "valid split of %zu into %zu+%zu (level %d) refused: %d", n, first, n - first, g->level, res);
            return;
        }
        Reg *hi = new Reg{g->base + first, n - first, g->pool, g->level, g->parent};
        g->size = first;
        if (hi->parent)
            hi->parent->kids++;
        lv[hi->level][hi->base] = hi;
        regs.push_back(hi);
        p.pp.sizes[(void *)g->base] = first;
        p.pp.sizes[(void *)hi->base] = n - first;
        cnt("splits");
        if (g->level)
            cnt("splits_nested");
        probes(g->base, g->size, "after split");
        probes(hi->base, hi->size, "after split");
        checkPaint(g->base, n, "after split");
    }
    void opMerge() {
        if (regs.empty())
            return;
        Reg *lo = nullptr, *hi = nullptr;
        size_t off = r.below(regs.size());
        for (size_t i = 0; i < regs.size() && !hi; i++) {
            lo = regs[(off + i) % regs.size()];
            auto it = lv[lo->level].find(lo->base + lo->size);
            if (it != lv[lo->level].end() && it->second->pool == lo->pool && it->second->parent == lo->parent && !lo->backing && !it->second->backing &&
                pools[lo->pool]->kind != POOLPROV)
                hi = it->second;
        }
        if (!hi)
            return;
        // a fixed provider over a region keeps its range; the host object follows the merge
        PoolN &p = *pools[lo->pool];
        pv::Prov *rec = recOf(lo->pool);
        size_t ln = lo->size, n = lo->size + hi->size;
        if (r.chance(1, 8)) { // refused by the argument checks, never reaches the tracker
            umf_result_t res = r.chance(1, 2) ? umfMemoryProviderAllocationMerge(p.pp.prov, (void *)hi->base, (void *)lo->base, n)
                                              : umfMemoryProviderAllocationMerge(p.pp.prov, (void *)lo->base, (void *)hi->base, ln);
            CHECK(res != UMF_RESULT_SUCCESS, "C05:bad-merge", "an invalid merge succeeded");
            cnt("bad_merges");
            probes(lo->base, ln, "after a refused merge");
            probes(hi->base, hi->size, "after a refused merge");
            return;
        }
        bool fault = p.kind == ROOT && r.chance(1, 8);
        if (fault)
            rec->fail_in[pv::MERGE] = 0;
        umf_result_t res = umfMemoryProviderAllocationMerge(p.pp.prov, (void *)lo->base, (void *)hi->base, n);
        rec->clearFaults();
        s.add(4).add(lo->pool).add(n).add(fault);
        if (fault) {
            CHECK(res != UMF_RESULT_SUCCESS, "C05:merge-fault", "merge reports success although the provider refused it");
            cnt("refused_merges");
            probes(lo->base, ln, "after a refused merge");
            probes(hi->base, hi->size, "after a refused merge");
            return;
        }
        if (res != UMF_RESULT_SUCCESS) {
            viol("C05:merge", "valid merge of %zu+%zu (level %d, children %d+%d) refused: %d", ln, hi->size, lo->level, lo->kids, hi->kids, res);
            return;
        }
        if (lo->kids || hi->kids)
            cnt("merges_with_children");
        if (lo->level)
            cnt("merges_nested");
        for (auto *x : regs)
            if (x->parent == hi)
                x->parent = lo;
        for (auto &q : pools)
            if (q->host == hi)
                q->host = lo;
        lo->kids += hi->kids;
        lo->host += hi->host;
        lo->size = n;
        p.pp.sizes.erase((void *)hi->base);
        p.pp.sizes[(void *)lo->base] = n;
        uintptr_t hb = hi->base;
        size_t hn = hi->size;
        lv[hi->level].erase(hi->base);
        if (hi->parent)
            hi->parent->kids--;
        regs.erase(std::find(regs.begin(), regs.end(), hi));
        delete hi;
        cnt("merges");
        probes(lo->base, n, "after merge");
        probes(lo->base, ln, "after merge");
        probes(hb, hn, "after merge");
        checkPaint(lo->base, n, "after merge");
    }
    void opNest() {
        size_t livep = 0;
        for (auto &p : pools)
            livep += !p->dead;
        if (livep > 12)
            return;
        bool tracked = !r.chance(1, 8);
        PoolN *p = nullptr;
        if (r.chance(1, 3)) {
            int k = pickPool();
            if (k < 0)
                return;
            p = newPool(POOLPROV, k, nullptr, -1, tracked);
        } else {
            Reg *g = pickLeaf();
            if (!g)
                return;
            p = newPool(FIXED, g->pool, g, -1, tracked);
        }
        if (!p)
            return;
        s.add(5).add(p->kind).add(p->parent).add(tracked);
        probeRandom("after nesting a pool");
    }
    void opUnnest(bool all) {
        for (int i = (int)pools.size() - 1; i >= 0; i--) {
            PoolN &p = *pools[i];
            if (p.dead || p.kind == ROOT || hasRegions(i) || hasUsers(i))
                continue;
            if (!all && !r.chance(1, 2))
                continue;
            destroyPool(p);
            s.add(6).add(i);
            probeRandom("after destroying a nested pool");
            if (!all)
                return;
        }
    }
    void opIpc() {
        if (regs.empty())
            return;
        Reg *g = r.pick(regs);
        uintptr_t a = g->base + r.below(g->size);
        if (innermost(a) != g || pools[g->pool]->kind != ROOT)
            return;
        umf_ipc_handle_t hd = nullptr;
        size_t hs = 0;
        umf_result_t res = umfGetIPCHandle((void *)a, &hd, &hs);
        if (res != UMF_RESULT_SUCCESS) {
            viol("C08:get", "umfGetIPCHandle of a live address refused: %d", res);
            return;
        }
        if (r.chance(1, 3)) { // exported, but not opened before the region changes
            umfPutIPCHandle(hd);
            cnt("ipc_exported_only");
            s.add(8);
            return;
        }
        umf_ipc_handler_handle_t hh = nullptr;
        umfPoolGetIPCHandler(pools[g->pool]->h, &hh);
        void *m = nullptr;
        res = umfOpenIPCHandle(hh, hd, &m);
        if (res != UMF_RESULT_SUCCESS)
            viol("C08:open", "umfOpenIPCHandle refused: %d", res);
        else {
            size_t len = g->base + g->size - a;
            CHECK(memcmp(m, (void *)a, std::min(len, PG)) == 0 && !memcmp((char *)m + len - 1, (char *)a + len - 1, 1), "C08:bytes",
                  "the opened handle of base+%zu of a %zu-byte block shows other bytes", a - g->base, g->size);
            CHECK(umfCloseIPCHandle(m) == UMF_RESULT_SUCCESS, "C08:close", "umfCloseIPCHandle refused");
            cnt("ipc_roundtrips");
        }
        umfPutIPCHandle(hd);
        s.add(7);
    }
    void freeEverything() {
        int guard = 0;
        while ((!regs.empty() || !untracked.empty()) && guard++ < 100000) {
            bool did = false;
            std::vector<std::pair<std::pair<uintptr_t, int>, size_t>> us(untracked.begin(), untracked.end());
            for (auto &u : us) {
                uintptr_t b = u.first.first;
                int pool = u.first.second;
                if (backs(pool, b))
                    continue;
                umf_result_t res = umfPoolFree(pools[pool]->h, (void *)b);
                CHECK(res == UMF_RESULT_SUCCESS, "C03:free", "free of an untracked block gives %d", res);
                removeModel(pool, b);
                probe(b, "after free");
                did = true;
                break;
            }
            if (did)
                continue;
            for (auto *g : regs)
                if (!g->kids && !g->host) {
                    checkPaint(g->base, g->size, "at the end");
                    uintptr_t b = g->base;
                    size_t n = g->size;
                    int pool = g->pool;
                    umf_result_t res = umfPoolFree(pools[pool]->h, (void *)b);
                    CHECK(res == UMF_RESULT_SUCCESS, "C03:free", "final free gives %d", res);
                    removeModel(pool, b);
                    probes(b, n, "after final free");
                    did = true;
                    break;
                }
            if (!did) {
                size_t before = pools.size();
                int dead = 0;
                for (auto &p : pools)
                    dead += p->dead;
                opUnnest(true);
                int dead2 = 0;
                for (auto &p : pools)
                    dead2 += p->dead;
                if (dead2 == dead) {
                    fprintf(stderr, "harness stuck: %zu regions %zu untracked\n", regs.size(), untracked.size());
                    exit(77);
                }
                (void)before;
            }
        }
    }
};

void run_st(Rng &r, bool splitty) {
    World w(r);
    int nrec = 1 + (int)r.below(2);
    for (int i = 0; i < nrec; i++) {
        auto p = std::make_unique<pv::Prov>();
        p->arena = 48u << 20;
        p->name = "tracked";
        p->fill_garbage = r.chance(1, 2);
        p->lifo = r.chance(1, 3);
        p->start();
        w.recs.push_back(std::move(p));
    }
    int nroot = 1 + (int)r.below(3);
    for (int i = 0; i < nroot; i++)
        if (!w.newPool(ROOT, -1, nullptr, (int)r.below(nrec), !(i && r.chance(1, 4))))
            return;
    if (r.chance(1, 4)) { // a deep chain, up to and beyond the supported nesting
        int k = 0, d = 4 + (int)r.below(6);
        for (int i = 0; i < d; i++) {
            PoolN *p = w.newPool(POOLPROV, k, nullptr, -1, !r.chance(1, 10));
            if (!p)
                return;
            k = p->idx;
        }
    }
    int nops = 40 + (int)r.below(ctx().thorough ? 300 : 120);
    unsigned wa = 8, wf = 4 + r.below(5), ws = splitty ? 10 : 4, wm = splitty ? 12 : 5, wn = 3, wu = 1 + r.below(3), wi = 2;
    label("%d roots %d recs", nroot, nrec);
    for (int i = 0; i < nops; i++) {
        uint64_t x = r.below(wa + wf + ws + wm + wn + wu + wi);
        if (x < wa)
            w.opAlloc();
        else if ((x -= wa) < wf)
            w.opFree();
        else if ((x -= wf) < ws)
            w.opSplit();
        else if ((x -= ws) < wm)
            w.opMerge();
        else if ((x -= wm) < wn)
            w.opNest();
        else if ((x -= wn) < wu)
            w.opUnnest(false);
        else
            w.opIpc();
        w.probeRandom("between operations");
        if (ctx().nviol > 20)
            break;
    }
    if (ctx().nviol > 20)
        _exit(0 * write(1, "\nDONE\n", 6) + 3);
    w.freeEverything();
    w.opUnnest(true);
    for (auto &p : w.pools)
        if (!p->dead)
            w.destroyPool(*p);
    for (auto &p : w.recs) {
        CHECK(p->live.empty(), "C05:leak", "%zu provider allocations outstanding after everything was freed", p->live.size());
        CHECK(p->handles.empty(), "C08:handle-leak", "%zu provider IPC handles never put back", p->handles.size());
        CHECK(p->opened.empty(), "C09:open-leak", "%zu IPC mappings never closed", p->opened.size());
        for (uintptr_t a = (uintptr_t)p->base; a < (uintptr_t)p->base + p->arena; a += 64 * PG)
            w.probe(a, "after everything was freed");
    }
    cnt("worlds");
    sig(w.s.v);
    sample("%d root pools, %zu pools in all, %d ops", nroot, w.pools.size(), nops);
}

// ---------------------------------------------------------------- concurrent
char never[64];
void run_mt(Rng &r, bool det) {
    int nt = det ? 2 + (int)r.below(2) : 2 + (int)r.below(4);
    struct S {
        std::vector<std::unique_ptr<pv::Prov>> recs;
        std::vector<std::unique_ptr<PoolN>> pools;
    } w;
    auto mk = [&](umf_memory_provider_handle_t prov) {
        auto p = std::make_unique<PoolN>();
        p->prov = prov;
        p->idx = (int)w.pools.size();
        if (umfPoolCreate(pv::passOps(), prov, &p->pp, 0, &p->h) != UMF_RESULT_SUCCESS)
            viol("C03:setup", "umfPoolCreate failed");
        w.pools.push_back(std::move(p));
        return w.pools.back().get();
    };
    for (int i = 0; i < 1 + (int)r.below(2); i++) {
        auto p = std::make_unique<pv::Prov>();
        p->arena = 8u << 20;
        p->fill_garbage = false;
        p->name = "tracked-mt";
        p->lifo = r.chance(1, 2);
        p->start();
        w.recs.push_back(std::move(p));
    }
    int nroot = 1 + (int)r.below(2);
    for (int i = 0; i < nroot; i++)
        mk(pv::create(*w.recs[r.below(w.recs.size())]));
    // stable: a plain region, and a host with a nested pool shared by all threads
    char *s0 = (char *)umfPoolMalloc(w.pools[0]->h, 4 * PG);
    size_t hn = (det ? 32 : 256) * PG;
    char *host = (char *)umfPoolMalloc(w.pools[0]->h, hn);
    char *s1 = (char *)umfPoolMalloc(w.pools[nroot - 1]->h, PG);
    umf_fixed_memory_provider_params_handle_t fp = nullptr;
    umfFixedMemoryProviderParamsCreate(&fp, host, hn);
    umf_memory_provider_handle_t fprov = nullptr;
    umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &fprov);
    umfFixedMemoryProviderParamsDestroy(fp);
    PoolN *nested = mk(fprov);
    umf_memory_pool_handle_t hRoot = w.pools[0]->h, hNest = nested->h, hLast = w.pools[nroot - 1]->h;
    bool useNested = r.chance(2, 3);
    int nops = det ? 6 + (int)r.below(8) : (ctx().thorough ? 3000 : 500);
    std::vector<Rng> rs;
    for (int t = 0; t < nt; t++)
        rs.emplace_back(r.next());
    label("mt %d threads %d roots nested %d", nt, nroot, useNested);
    auto body = [&](int t) {
        Rng &q = rs[t];
        struct L {
            char *p;
            size_t n;
            PoolN *pool;
            uint64_t tag;
        };
        std::vector<L> own;
        uint64_t nl = 0, na = 0, ns = 0, nm = 0;
        auto look = [&](const void *a, umf_memory_pool_handle_t want, const char *why) {
            umf_memory_pool_handle_t got = umfPoolByPtr(a);
            nl++;
            if (got != want)
                viol(!got ? "C03:mt-lost" : want ? "C03:mt-wrong-pool" : "C03:mt-ghost", "concurrent lookup of %s gives %s pool", why,
                     got ? "a wrong" : "no");
        };
        auto lookAll = [&]() {
            switch (q.below(5)) {
            case 0:
                look(s0 + q.below(4 * PG), hRoot, "a stable region");
                break;
            case 1:
                look(s1 + q.below(PG), hLast, "a stable region");
                break;
            case 2:
                look(never + 32, nullptr, "an address never allocated");
                break;
            case 3: {
                umf_memory_pool_handle_t got = umfPoolByPtr(host + q.below(hn));
                nl++;
                CHECK(got == hRoot || got == hNest, "C03:mt-host", "lookup inside the host region gives %s", got ? "a foreign pool" : "no pool");
                break;
            }
            default:
                if (!own.empty()) {
                    L &l = own[q.below(own.size())];
                    look(l.p + (q.chance(1, 2) ? 0 : q.below(l.n)), l.pool->h, "an own live region");
                }
            }
        };
        for (int i = 0; i < nops; i++) {
            uint64_t x = q.below(12);
            if (x < 4 || own.empty()) {
                PoolN *p = useNested && q.chance(1, 2) ? nested : w.pools[q.below(nroot)].get();
                size_t n = PG * (1 + q.below(4));
                char *c = own.size() < (det ? 3u : 12u) ? (char *)umfPoolMalloc(p->h, n) : nullptr;
                if (c) {
                    uint64_t tag = q.next();
                    for (size_t o = 0; o < n; o += PG)
                        *(uint64_t *)(c + o) = tag + o;
                    own.push_back({c, n, p, tag});
                    look(c, p->h, "a region just allocated");
                    look(c + n - 1, p->h, "a region just allocated");
                    na++;
                }
            } else if (x < 7) {
                size_t k = q.below(own.size());
                L l = own[k];
                own[k] = own.back();
                own.pop_back();
                for (size_t o = 0; o < l.n; o += PG)
                    if (*(uint64_t *)(l.p + o) != l.tag + o) {
                        viol("C05:mt-contents", "contents of an own region changed at %zu of %zu", o, l.n);
                        break;
                    }
                umf_result_t res = q.chance(1, 2) ? umfFree(l.p) : umfPoolFree(l.pool->h, l.p);
                CHECK(res == UMF_RESULT_SUCCESS, "C03:mt-free", "free of an own region gives %d", res);
            } else if (x < 9) { // split and use both halves
                size_t k = q.below(own.size());
                L l = own[k];
                if (l.n < 2 * PG)
                    continue;
                size_t f = PG * (1 + q.below(l.n / PG - 1));
                umf_result_t res = umfMemoryProviderAllocationSplit(l.pool->pp.prov, l.p, l.n, f);
                if (res != UMF_RESULT_SUCCESS) {
                    viol("C05:mt-split", "split of an own region gives %d", res);
                    continue;
                }
                {
                    std::lock_guard<pv::Spin> g(l.pool->pp.mu);
                    l.pool->pp.sizes[l.p] = f;
                    l.pool->pp.sizes[l.p + f] = l.n - f;
                }
                own[k].n = f;
                own.push_back({l.p + f, l.n - f, l.pool, l.tag + f});
                look(l.p + f - 1, l.pool->h, "the first half of a split");
                look(l.p + f, l.pool->h, "the second half of a split");
                ns++;
            } else if (x < 10) { // merge own neighbours
                for (size_t a = 0; a < own.size(); a++)
                    for (size_t b = 0; b < own.size(); b++)
                        if (a != b && own[a].pool == own[b].pool && own[a].p + own[a].n == own[b].p) {
                            L lo = own[a], hi = own[b];
                            umf_result_t res = umfMemoryProviderAllocationMerge(lo.pool->pp.prov, lo.p, hi.p, lo.n + hi.n);
                            if (res != UMF_RESULT_SUCCESS) {
                                viol("C05:mt-merge", "merge of own regions gives %d", res);
                                goto out;
                            }
                            {
                                std::lock_guard<pv::Spin> g(lo.pool->pp.mu);
                                lo.pool->pp.sizes.erase(hi.p);
                                lo.pool->pp.sizes[lo.p] = lo.n + hi.n;
                            }
                            uint64_t tag = q.next();
                            own[a].n += hi.n;
                            own[a].tag = tag;
                            for (size_t o = 0; o < own[a].n; o += PG)
                                *(uint64_t *)(lo.p + o) = tag + o;
                            look(hi.p, lo.pool->h, "a merged region");
                            look(hi.p + hi.n - 1, lo.pool->h, "a merged region");
                            own.erase(own.begin() + b);
                            nm++;
                            goto out;
                        }
            out:;
            }
            lookAll();
        }
        for (auto &l : own) {
            umf_result_t res = umfFree(l.p);
            CHECK(res == UMF_RESULT_SUCCESS, "C03:mt-free", "final umfFree of an own region gives %d", res);
        }
        cnt("lookups", nl);
        cnt("allocs", na);
        cnt("splits", ns);
        cnt("merges", nm);
    };
    if (det) {
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; t++)
            bodies.push_back([&, t] { body(t); });
        auto res = sched::run(bodies, r.next(), sched::random_params(r));
        CHECK(!res.deadlock, "C03:deadlock", "threads deadlocked");
        cnt("sched_steps", res.steps);
        sig(Sig().add(res.hash).v);
    } else {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++)
            th.emplace_back(body, t);
        for (auto &x : th)
            x.join();
        sig(Sig().add(ctx().cur).add(ctx().seed).v);
    }
    for (size_t o = 0; o < hn; o += PG)
        CHECK(umfPoolByPtr(host + o) == hRoot, "C03:mt-ghost", "a nested region is still tracked after all were freed");
    umfPoolDestroy(nested->h);
    umfMemoryProviderDestroy(nested->prov);
    umfFree(s0);
    umfFree(s1);
    umfFree(host);
    for (auto &p : w.recs) {
        CHECK(p->live.empty(), "C05:leak", "%zu provider allocations outstanding after everything was freed", p->live.size());
        for (size_t o = 0; o < p->arena; o += PG)
            if (umfPoolByPtr(p->base + o)) {
                viol("C03:mt-ghost", "an address is still tracked after everything was freed");
                break;
            }
    }
    for (int i = 0; i < nroot; i++) {
        umfPoolDestroy(w.pools[i]->h);
        umfMemoryProviderDestroy(w.pools[i]->prov);
    }
    cnt("worlds");
}
} // namespace

void harness_begin() { umfInit(); }
void harness_end() { umfTearDown(); }
void run_case(uint64_t, Rng &r) {
    const std::string &m = ctx().mode;
    if (m == "st")
        run_st(r, false);
    else if (m == "split")
        run_st(r, true);
    else if (m == "mt")
        run_mt(r, false);
    else
        run_mt(r, true);
}
