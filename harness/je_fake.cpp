#include "je_fake.hpp"
#include "h.hpp"
#include <map>
#include <memory>
#include <mutex>
#include <sched.h>
#include <vector>
using namespace h;

namespace je {
std::atomic<int> fail_create{0}, fail_hooks{0};
std::atomic<bool> ask_addresses{true};
namespace {
const size_t PAGE = 4096;
size_t up(size_t n, size_t a) { return (n + a - 1) / a * a; }

enum St { FREE, LARGE, SLAB };
struct Ext {
    size_t size;
    St st = FREE;
    bool committed = true;
    size_t slot = 0;            // SLAB
    std::vector<bool> used;     // SLAB
    size_t nused = 0;
};
struct Arena {
    unsigned idx = 0;
    extent_hooks_t *hooks = nullptr;
    std::recursive_mutex mu;
    std::map<uintptr_t, Ext> ext;
    Rng r{1};
};
std::mutex gmu; // arena table and page owners
Arena *table[MALLCTL_ARENAS_ALL];
std::map<uintptr_t, std::pair<uintptr_t, Arena *>> owner; // extents obtained: base -> (end, arena)
size_t narenas = 0;

Arena *ownerof(void *p) {
    std::lock_guard<std::mutex> g(gmu);
    auto it = owner.upper_bound((uintptr_t)p);
    if (it == owner.begin())
        return nullptr;
    --it;
    return (uintptr_t)p < it->second.first ? it->second.second : nullptr;
}
void own(uintptr_t b, size_t n, Arena *a) {
    std::lock_guard<std::mutex> g(gmu);
    owner[b] = {b + n, a};
}
void disown(uintptr_t b, size_t n) { // the range may be a part of what was obtained, or several
    std::lock_guard<std::mutex> g(gmu);
    auto it = owner.upper_bound(b);
    if (it != owner.begin())
        --it;
    while (it != owner.end() && it->first < b + n) {
        uintptr_t s = it->first, e = it->second.first;
        Arena *a = it->second.second;
        if (e <= b) {
            ++it;
            continue;
        }
        it = owner.erase(it);
        if (s < b)
            owner[s] = {b, a};
        if (e > b + n)
            owner[b + n] = {e, a};
    }
}

// ---- extents ---------------------------------------------------------------
void *hook_alloc(Arena &A, void *at, size_t size, size_t align, bool wantzero) {
    bool zero = wantzero, commit = A.r.chance(1, 2), z0 = zero, c0 = commit;
    void *p = A.hooks->alloc(A.hooks, at, size, align, &zero, &commit, A.idx);
    if (!p) {
        CHECK(zero == z0 && commit == c0, "JE:flags-on-failure", "a failed extent allocation changed *zero or *commit");
        cnt("je_alloc_refused");
        return nullptr;
    }
    cnt("je_extents");
    CHECK(!at || p == at, "JE:other-address", "an extent was asked for at %p and given at %p", at, p);
    CHECK((uintptr_t)p % align == 0, "JE:extent-align", "an extent of %zu bytes with alignment %zu is at %p", size, align, p);
    CHECK(!c0 || commit, "JE:not-committed", "committing was mandatory");
    if (wantzero) {
        const char *c = (const char *)p;
        for (size_t i = 0; i < size; i++)
            if (c[i]) {
                viol("JE:not-zero", "zeroing was mandatory, byte %zu of the extent is %d", i, c[i]);
                break;
            }
        cnt("je_zeroed_extents");
    }
    if (!commit)
        CHECK(!A.hooks->commit(A.hooks, p, size, 0, size, A.idx), "JE:commit", "committing an extent failed");
    own((uintptr_t)p, size, &A);
    return p;
}
// gives [b] of the arena back; false when the hook opted out
bool give_back(Arena &A, std::map<uintptr_t, Ext>::iterator it, bool final) {
    uintptr_t b = it->first;
    size_t n = it->second.size;
    disown(b, n); // another thread may get it at once
    if (final && A.r.chance(1, 2)) {
        A.hooks->destroy(A.hooks, (void *)b, n, true, A.idx);
        cnt("je_destroyed");
    } else if (A.hooks->dalloc(A.hooks, (void *)b, n, true, A.idx)) {
        cnt("je_dalloc_refused");
        if (final) {
            A.hooks->destroy(A.hooks, (void *)b, n, true, A.idx);
        } else {
            own(b, n, &A);
            return false;
        }
    } else
        cnt("je_dallocs");
    A.ext.erase(it);
    return true;
}
// cuts the extent so that it ends at `first`; the rest is a free extent
bool cut(Arena &A, std::map<uintptr_t, Ext>::iterator it, size_t first) {
    size_t n = it->second.size;
    if (first == n)
        return true;
    if (A.hooks->split(A.hooks, (void *)it->first, n, first, n - first, true, A.idx)) {
        cnt("je_split_refused");
        return false;
    }
    cnt("je_splits");
    it->second.size = first;
    Ext e;
    e.size = n - first;
    A.ext[it->first + first] = e;
    return true;
}
bool join(Arena &A, std::map<uintptr_t, Ext>::iterator a, std::map<uintptr_t, Ext>::iterator b) {
    if (A.hooks->merge(A.hooks, (void *)a->first, a->second.size, (void *)b->first, b->second.size, true, A.idx)) {
        cnt("je_merge_refused");
        return false;
    }
    cnt("je_merges");
    a->second.size += b->second.size;
    A.ext.erase(b);
    return true;
}
void purge(Arena &A, std::map<uintptr_t, Ext>::iterator it) {
    size_t n = it->second.size, off = up(A.r.below(n), PAGE) % n, len = n - off;
    void *b = (void *)it->first;
    switch (A.r.below(3)) {
    case 0: A.hooks->purge_lazy(A.hooks, b, n, off, len, A.idx); break;
    case 1: A.hooks->purge_forced(A.hooks, b, n, off, len, A.idx); break;
    default:
        if (!A.hooks->decommit(A.hooks, b, n, off, len, A.idx))
            A.hooks->commit(A.hooks, b, n, off, len, A.idx);
    }
    cnt("je_purges");
}
// a free extent that can hold size bytes at an aligned base
void *take(Arena &A, size_t size, size_t align, St st, std::map<uintptr_t, Ext>::iterator &out) {
    for (auto it = A.ext.begin(); it != A.ext.end(); ++it) {
        if (it->second.st != FREE || it->second.size < size)
            continue;
        uintptr_t p = up(it->first, align);
        if (p + size > it->first + it->second.size)
            continue;
        if (p != it->first) {
            uintptr_t k = it->first;
            if (!cut(A, it, p - k))
                continue;
            it = A.ext.find(p);
        }
        if (it->second.size > size && !(A.r.chance(1, 8) && it->second.size < size + 4 * PAGE))
            cut(A, it, size); // refused: the whole extent is used
        it->second.st = st;
        out = it;
        return (void *)it->first;
    }
    size_t n = size;
    if (A.r.chance(1, 2) && size < (1u << 20))
        n = up(size, A.r.chance(1, 2) ? 65536 : 262144);
    void *at = nullptr;
    if (ask_addresses && !A.ext.empty() && A.r.chance(1, 6)) {
        auto l = std::prev(A.ext.end());
        at = (void *)(l->first + l->second.size);
        if ((uintptr_t)at % align)
            at = nullptr;
    }
    bool zero = A.r.chance(1, 10) && n < (4u << 20);
    void *p = hook_alloc(A, at, n, std::max(align, PAGE), zero);
    if (!p && at)
        p = hook_alloc(A, nullptr, n, std::max(align, PAGE), zero);
    if (!p && n != size)
        p = hook_alloc(A, nullptr, n = size, std::max(align, PAGE), zero);
    if (!p)
        return nullptr;
    Ext e;
    e.size = n;
    auto it = A.ext.emplace((uintptr_t)p, e).first;
    if (n > size)
        cut(A, it, size);
    it->second.st = st;
    out = it;
    return p;
}
void release(Arena &A, std::map<uintptr_t, Ext>::iterator it) {
    it->second.st = FREE;
    it->second.used.clear();
    it->second.slot = 0;
    auto nx = std::next(it);
    if (nx != A.ext.end() && nx->second.st == FREE && nx->first == it->first + it->second.size && A.r.chance(3, 4))
        join(A, it, nx);
    if (it != A.ext.begin()) {
        auto pv = std::prev(it);
        if (pv->second.st == FREE && pv->first + pv->second.size == it->first && A.r.chance(3, 4) && join(A, pv, it))
            it = pv;
    }
    if (A.r.chance(1, 5))
        purge(A, it);
    if (A.r.chance(1, 2))
        give_back(A, it, false);
}
size_t slot_of(size_t size) {
    if (size <= 128)
        return up(size ? size : 1, 16);
    size_t g = 32;
    while (g * 8 < size)
        g *= 2;
    return up(size, g);
}
const size_t SMALL = 8192;

void *alloc_in(Arena &A, size_t size, size_t align) {
    std::lock_guard<std::recursive_mutex> g(A.mu);
    std::map<uintptr_t, Ext>::iterator it;
    if (size <= SMALL && align <= PAGE) {
        size_t slot = slot_of(up(size ? size : 1, align));
        slot = up(slot, align);
        if (slot <= SMALL) {
            for (auto i = A.ext.begin(); i != A.ext.end(); ++i)
                if (i->second.st == SLAB && i->second.slot == slot && i->second.nused < i->second.used.size()) {
                    for (size_t k = 0; k < i->second.used.size(); k++)
                        if (!i->second.used[k]) {
                            i->second.used[k] = true;
                            i->second.nused++;
                            return (void *)(i->first + k * slot);
                        }
                }
            void *p = take(A, up(std::max<size_t>(slot * 4, PAGE), PAGE), PAGE, SLAB, it);
            if (!p)
                return nullptr;
            it->second.slot = slot;
            it->second.used.assign(it->second.size / slot, false);
            it->second.used[0] = true;
            it->second.nused = 1;
            return p;
        }
    }
    return take(A, up(size, PAGE), std::max(align, PAGE), LARGE, it);
}
std::map<uintptr_t, Ext>::iterator find(Arena &A, void *p) {
    auto it = A.ext.upper_bound((uintptr_t)p);
    if (it == A.ext.begin())
        return A.ext.end();
    --it;
    return (uintptr_t)p < it->first + it->second.size && it->second.st != FREE ? it : A.ext.end();
}
size_t usable(Arena &A, void *p) {
    std::lock_guard<std::recursive_mutex> g(A.mu);
    auto it = find(A, p);
    if (it == A.ext.end()) {
        viol("JE:bad-pointer", "usable size of %p, which is not allocated", p);
        return 0;
    }
    return it->second.st == SLAB ? it->second.slot : it->second.size;
}
void free_in(Arena &A, void *p) {
    std::lock_guard<std::recursive_mutex> g(A.mu);
    auto it = find(A, p);
    if (it == A.ext.end()) {
        viol("JE:bad-pointer", "free of %p, which is not allocated", p);
        return;
    }
    Ext &e = it->second;
    if (e.st == SLAB) {
        size_t k = ((uintptr_t)p - it->first) / e.slot;
        if (((uintptr_t)p - it->first) % e.slot || k >= e.used.size() || !e.used[k]) {
            viol("JE:bad-pointer", "free of %p, which is no live slot", p);
            return;
        }
        e.used[k] = false;
        if (--e.nused == 0 && A.r.chance(2, 3))
            release(A, it);
        return;
    }
    if (it->first != (uintptr_t)p) {
        viol("JE:bad-pointer", "free of %p inside an allocation", p);
        return;
    }
    release(A, it);
}
Arena *flagged(int flags, const char *what) {
    unsigned a = (unsigned)flags >> 20;
    CHECK((flags & 0xfff00) == MALLOCX_TCACHE_NONE, "JE:tcache", "%s may use a thread cache shared by all pools (flags %x)", what, flags);
    if (!a || a > MALLCTL_ARENAS_ALL) {
        viol("JE:arena", "%s does not name a pool's arena (flags %x)", what, flags);
        return nullptr;
    }
    std::lock_guard<std::mutex> g(gmu);
    Arena *A = table[a - 1];
    if (!A)
        viol("JE:arena", "%s names arena %u, which does not exist", what, a - 1);
    return A;
}
} // namespace
size_t arenas() {
    std::lock_guard<std::mutex> g(gmu);
    return narenas;
}
} // namespace je
using namespace je;

extern "C" {
void *je_mallocx(size_t size, int flags) {
    Arena *A = flagged(flags, "mallocx");
    size_t align = (size_t)1 << (flags & 0x3f);
    if (!A || size > ((size_t)7 << 60) || align > ((size_t)1 << 40))
        return nullptr;
    if (size > ((size_t)1 << 46))
        return nullptr;
    void *p = alloc_in(*A, size, align);
    if (p && (flags & MALLOCX_ZERO))
        memset(p, 0, size);
    return p;
}
void je_dallocx(void *ptr, int flags) {
    CHECK((flags & 0xfff00) == MALLOCX_TCACHE_NONE, "JE:tcache", "dallocx may use a thread cache shared by all pools (flags %x)", flags);
    Arena *A = ownerof(ptr);
    if (!A) {
        viol("JE:bad-pointer", "dallocx(%p): in no arena", ptr);
        return;
    }
    free_in(*A, ptr);
}
void *je_rallocx(void *ptr, size_t size, int flags) {
    Arena *to = flagged(flags, "rallocx"), *A = ownerof(ptr);
    if (!A || !to) {
        viol("JE:bad-pointer", "rallocx(%p): in no arena", ptr);
        return nullptr;
    }
    if (!size)
        viol("JE:zero", "rallocx of size 0 is undefined");
    if (size > ((size_t)1 << 46))
        return nullptr;
    CHECK(to == A, "JE:arena", "rallocx of a block of arena %u asks for arena %u", A->idx, to->idx);
    size_t old = usable(*A, ptr);
    if (!old)
        return nullptr;
    if (size <= old && size * 2 > old)
        return ptr;
    {
        std::lock_guard<std::recursive_mutex> g(A->mu);
        auto it = find(*A, ptr);
        if (it->second.st == LARGE && size > SMALL) {
            size_t n = up(size, PAGE);
            if (n <= old) { // shrink in place
                cut(*A, it, n);
                return ptr;
            }
            if (A->r.chance(2, 3)) { // grow in place
                auto nx = std::next(it);
                if (nx != A->ext.end() && nx->first == it->first + old && nx->second.st == FREE && nx->second.size >= n - old) {
                    cut(*A, nx, n - old);
                    if (join(*A, it, nx))
                        return ptr;
                } else if (ask_addresses && (nx == A->ext.end() || nx->first >= it->first + n)) {
                    void *p = hook_alloc(*A, (void *)(it->first + old), n - old, PAGE, false);
                    if (p) {
                        Ext e;
                        e.size = n - old;
                        auto x = A->ext.emplace((uintptr_t)p, e).first;
                        cnt("je_grown_in_place");
                        if (join(*A, it, x))
                            return ptr;
                        give_back(*A, x, false);
                    }
                }
            }
        }
    }
    void *q = alloc_in(*to, size, (size_t)1 << (flags & 0x3f));
    if (!q)
        return nullptr;
    memcpy(q, ptr, std::min(old, size));
    free_in(*A, ptr);
    return q;
}
size_t je_malloc_usable_size(void *ptr) {
    if (!ptr)
        return 0;
    Arena *A = ownerof(ptr);
    if (!A) {
        viol("JE:bad-pointer", "malloc_usable_size(%p): in no arena", ptr);
        return 0;
    }
    return usable(*A, ptr);
}
int je_mallctl(const char *name, void *oldp, size_t *oldlenp, void *newp, size_t newlen) {
    if (!strcmp(name, "arenas.create")) {
        if (!oldp || !oldlenp || *oldlenp != sizeof(unsigned))
            return EINVAL;
        if (fail_create > 0 && fail_create-- > 0)
            return EAGAIN;
        std::lock_guard<std::mutex> g(gmu);
        unsigned i = 1; // destroyed arenas' indices are used again
        while (i < MALLCTL_ARENAS_ALL - 1 && table[i])
            i++;
        if (i == MALLCTL_ARENAS_ALL - 1)
            return EAGAIN;
        Arena *A = new Arena;
        A->idx = i;
        A->r = Rng(h::ctx().cur * 77 + narenas * 1001 + i);
        table[i] = A;
        narenas++;
        if (newp && newlen == sizeof(void *))
            A->hooks = *(extent_hooks_t **)newp;
        *(unsigned *)oldp = i;
        return 0;
    }
    unsigned i = 0;
    char cmd[32] = "";
    if (sscanf(name, "arena.%u.%31s", &i, cmd) != 2 || i >= MALLCTL_ARENAS_ALL)
        return ENOENT;
    Arena *A;
    {
        std::lock_guard<std::mutex> g(gmu);
        A = table[i];
    }
    if (!A) {
        viol("JE:arena", "mallctl(%s): no such arena", name);
        return EFAULT;
    }
    if (!strcmp(cmd, "extent_hooks")) {
        if (fail_hooks > 0 && fail_hooks-- > 0)
            return EFAULT;
        if (newp && newlen == sizeof(void *))
            A->hooks = *(extent_hooks_t **)newp;
        return 0;
    }
    if (!strcmp(cmd, "destroy")) {
        if (newp || newlen)
            return EINVAL;
        // all allocations of the arena are discarded; our workloads have freed theirs
        size_t live = 0;
        for (auto &e : A->ext)
            live += e.second.st == LARGE ? 1 : e.second.st == SLAB ? e.second.nused : 0;
        CHECK(!live, "C01:not-freed", "%zu allocations of a pool's arena were never freed", live);
        while (!A->ext.empty())
            give_back(*A, A->ext.begin(), true);
        {
            std::lock_guard<std::mutex> g(gmu);
            table[i] = nullptr; // the index may be used again from here on
            narenas--;
        }
        delete A;
        for (int k = 0; k < 3; k++)
            sched_yield();
        return 0;
    }
    return ENOENT;
}
}
