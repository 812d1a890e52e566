// Memory spaces, targets and policies (C18).
// modes: space   - histories of operations on memory spaces against sequences of ids, with failing callbacks and
//                  failing metadata allocations
//        predef  - the predefined memory spaces on synthetic machines (sparse node numbers, nodes sharing CPUs,
//                  arbitrary capacities, bandwidths and latencies)
//        policy  - providers made from memory spaces and policies against OS providers made directly
//        mt      - the predefined spaces fetched and used by several threads at once
#include "h.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include <cerrno>
#include <hwloc.h>
#include <umf.h>
#include <umf/memory_provider.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
#include "memspace_internal.h"
}
using namespace h;
static const size_t PG = 4096;

// ---------------------------------------------------------------- the machine
struct Node {
    unsigned os;
    size_t cap;
    unsigned pkg;
    unsigned lo = 0, hi = 0; // its CPUs, known once the topology was loaded
    bool shares(const Node &o) const { return lo <= o.hi && o.lo <= hi; }
};
struct Machine {
    std::vector<Node> n; // in hwloc's logical order
    std::string synth;
    uint64_t attr_seed = 0;
    bool has_attr = true;
    bool nested = false; // nodes of a package and nodes of a part of it
    uint64_t range = 1000;
    bool has(unsigned id) const {
        for (auto &x : n)
            if (x.os == id)
                return true;
        return false;
    }
    const Node &get(unsigned id) const {
        for (auto &x : n)
            if (x.os == id)
                return x;
        abort();
    }
    // what the firmware tables say for the CPUs of node "i" and the node "os"
    uint64_t value(int attr, const Node &i, unsigned os) const {
        return 1 + Rng(mix(mix(attr_seed, attr), mix(i.lo * 4096 + i.hi, os))).below(range);
    }
};
static Machine M;
static std::atomic<int> topos{0};

struct Bind {
    size_t off, len;
    std::set<unsigned> nodes;
    int policy, flags;
    bool operator==(const Bind &o) const {
        return off == o.off && len == o.len && nodes == o.nodes && policy == o.policy && flags == o.flags;
    }
};
static thread_local std::vector<Bind> *binds;
static thread_local uintptr_t last_map;

extern "C" {
int __real_hwloc_topology_init(hwloc_topology_t *);
int __wrap_hwloc_topology_init(hwloc_topology_t *t) {
    int r = __real_hwloc_topology_init(t);
    if (!r)
        topos++;
    return r;
}
void __real_hwloc_topology_destroy(hwloc_topology_t);
void __wrap_hwloc_topology_destroy(hwloc_topology_t t) {
    topos--;
    __real_hwloc_topology_destroy(t);
}
int __real_hwloc_topology_load(hwloc_topology_t);
int __wrap_hwloc_topology_load(hwloc_topology_t t) {
    if (hwloc_topology_set_synthetic(t, M.synth.c_str())) {
        fprintf(stderr, "synthetic topology '%s' refused\n", M.synth.c_str());
        _exit(77);
    }
    int r = __real_hwloc_topology_load(t);
    if (r)
        _exit(77);
    hwloc_obj_t o = nullptr;
    size_t i = 0;
    while ((o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_NUMANODE, o))) {
        if (i >= M.n.size() || (!M.nested && o->os_index != M.n[i].os) || !M.has(o->os_index)) {
            fprintf(stderr, "topology '%s': node %zu is %u\n", M.synth.c_str(), i, o->os_index);
            _exit(77);
        }
        i++;
        for (auto &x : M.n)
            if (x.os == o->os_index) {
                o->attr->numanode.local_memory = x.cap;
                unsigned lo = (unsigned)hwloc_bitmap_first(o->cpuset), hi = (unsigned)hwloc_bitmap_last(o->cpuset);
                if (x.lo != lo || x.hi != hi) // the same each time
                    x.lo = lo, x.hi = hi;
            }
    }
    if (i != M.n.size())
        _exit(77);
    return 0;
}
int __wrap_hwloc_memattr_get_value(hwloc_topology_t t, hwloc_memattr_id_t a, hwloc_obj_t target, struct hwloc_location *in,
                                   unsigned long, hwloc_uint64_t *v) {
    if (!M.has_attr || (a != HWLOC_MEMATTR_ID_BANDWIDTH && a != HWLOC_MEMATTR_ID_LATENCY) || !M.has(target->os_index) ||
        in->type != HWLOC_LOCATION_TYPE_CPUSET) {
        errno = EINVAL;
        return -1;
    }
    // the node whose CPUs these are
    Node in_node{~0u, 0, 0, (unsigned)hwloc_bitmap_first(in->location.cpuset), (unsigned)hwloc_bitmap_last(in->location.cpuset)};
    bool known = false;
    for (auto &x : M.n)
        known |= x.lo == in_node.lo && x.hi == in_node.hi;
    if (!known || !M.get(target->os_index).shares(in_node)) { // as hwloc: unknown for remote initiators
        errno = EINVAL;
        return -1;
    }
    *v = M.value(a == HWLOC_MEMATTR_ID_BANDWIDTH, in_node, target->os_index);
    return 0;
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *a, size_t n, hwloc_const_bitmap_t s, hwloc_membind_policy_t p,
                                  int f) {
    Bind b{(uintptr_t)a - last_map, n, {}, (int)p, f};
    unsigned i;
    hwloc_bitmap_foreach_begin(i, s) if (i > 1024) break;
    b.nodes.insert(i);
    hwloc_bitmap_foreach_end();
    if (binds)
        binds->push_back(b);
    return 0;
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    void *r = __real_mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED)
        last_map = (uintptr_t)r;
    return r;
}
}

static std::string ids(const std::vector<unsigned> &v) {
    std::string s = "[";
    for (auto x : v)
        s += std::to_string(x) + " ";
    return s + "]";
}

static void newMachine(Rng &r, unsigned maxnodes = 8) {
    Machine m;
    unsigned pk = (unsigned)r.range(1, 4), per = (unsigned)r.range(1, std::max(1u, maxnodes / pk));
    unsigned n = pk * per;
    std::vector<unsigned> os;
    bool sparse = r.chance(2, 3);
    std::set<unsigned> used;
    while (os.size() < n) {
        unsigned v = sparse ? (unsigned)r.below(r.chance(1, 4) ? 200 : 3 * n) : (unsigned)os.size();
        if (used.insert(v).second)
            os.push_back(v);
    }
    for (unsigned k = 0; k < pk; k++) // hwloc orders the nodes of a package
        std::sort(os.begin() + k * per, os.begin() + (k + 1) * per);
    size_t big = r.chance(1, 8) ? 0 : (size_t)1 << r.range(20, 42);
    for (unsigned i = 0; i < n; i++) {
        size_t cap = big ? (r.chance(1, 3) ? big : r.below(big) + 1) : 0;
        m.n.push_back({os[i], cap, i / per});
    }
    m.synth = "Package:" + std::to_string(pk);
    std::string idx;
    // hwloc numbers the nodes level by level; with several memory children per package they stay in package order
    for (unsigned i = 0; i < n; i++)
        idx += (i ? "," : "") + std::to_string(os[i]);
    for (unsigned k = 0; k < per; k++)
        m.synth += k ? " [NUMANode(memory=4096)]" : " [NUMANode(memory=4096 indexes=" + idx + ")]";
    m.synth += " Core:" + std::to_string(r.range(1, 3)) + " PU:1";
    if (r.chance(1, 4)) { // memory of the package and memory of each of its groups
        unsigned gr = (unsigned)r.range(2, 3), pp = (unsigned)r.range(1, 2), pg = (unsigned)r.range(1, 2);
        n = pk * (pp + gr * pg);
        m.nested = true;
        m.n.clear();
        for (unsigned i = 0; i < n; i++)
            m.n.push_back({i, big ? (r.chance(1, 3) ? big : r.below(big) + 1) : 0, 0});
        m.synth = "Package:" + std::to_string(pk);
        for (unsigned k = 0; k < pp; k++)
            m.synth += " [NUMANode(memory=4096)]";
        m.synth += " Group:" + std::to_string(gr);
        for (unsigned k = 0; k < pg; k++)
            m.synth += " [NUMANode(memory=4096)]";
        m.synth += " Core:" + std::to_string(r.range(1, 3)) + " PU:1";
    }
    m.attr_seed = r.next();
    m.has_attr = r.chance(7, 8);
    m.range = r.chance(1, 3) ? 3 : 1 << r.range(2, 40);
    M = m;
}

// ---------------------------------------------------------------- memory spaces as sequences of ids
struct S {
    umf_memspace_handle_t h;
    std::vector<unsigned> v;
    std::string how;
};
static std::vector<unsigned> contents(umf_const_memspace_handle_t h, const char *what) {
    std::vector<unsigned> v;
    size_t n = umfMemspaceMemtargetNum(h);
    for (size_t i = 0; i < n; i++) {
        umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(h, (unsigned)i);
        if (!t) {
            viol("C18:get-null", "%s: target %zu of %zu is NULL", what, i, n);
            break;
        }
        unsigned id = ~0u;
        umf_memtarget_type_t ty = UMF_MEMTARGET_TYPE_UNKNOWN;
        CHECK(umfMemtargetGetId(t, &id) == UMF_RESULT_SUCCESS, "C18:id", "%s: no id for target %zu", what, i);
        CHECK(umfMemtargetGetType(t, &ty) == UMF_RESULT_SUCCESS && ty == UMF_MEMTARGET_TYPE_NUMA, "C18:type",
              "%s: target %zu has type %d", what, i, ty);
        size_t cap = 77;
        umf_result_t rc = umfMemtargetGetCapacity(t, &cap);
        if (M.has(id))
            CHECK(rc == UMF_RESULT_SUCCESS && cap == M.get(id).cap, "C18:capacity", "%s: node %u has %zu bytes, reported %zu (%d)",
                  what, id, M.get(id).cap, cap, rc);
        else
            CHECK(rc != UMF_RESULT_SUCCESS, "C18:capacity-unknown", "%s: node %u does not exist, its capacity is %zu", what, id, cap);
        v.push_back(id);
    }
    CHECK(!umfMemspaceMemtargetGet(h, (unsigned)n), "C18:get-range", "%s: target %zu of %zu exists", what, n, n);
    CHECK(!umfMemspaceMemtargetGet(h, ~0u), "C18:get-range", "%s: target 2^32-1 of %zu exists", what, n);
    return v;
}
static bool same(S &s, const char *what) {
    auto v = contents(s.h, what);
    cnt("contents_checked");
    if (v != s.v) {
        viol("C18:contents", "%s: the memory space holds %s, expected %s (%s)", what, ids(v).c_str(), ids(s.v).c_str(),
             s.how.c_str());
        s.v = v; // go on from what is there
        return false;
    }
    return true;
}

struct FilterArgs {
    umf_const_memspace_handle_t space;
    std::vector<int> ret;       // what to answer, in order
    std::vector<unsigned> seen; // ids asked about
    size_t size0;
    bool bad = false;
};
static int filterCb(umf_const_memspace_handle_t s, umf_const_memtarget_handle_t t, void *a) {
    auto *f = (FilterArgs *)a;
    unsigned id = ~0u;
    umfMemtargetGetId(t, &id);
    if (s != f->space || umfMemspaceMemtargetNum(s) != f->size0)
        f->bad = true;
    f->seen.push_back(id);
    if (f->seen.size() > f->ret.size())
        return 1;
    return f->ret[f->seen.size() - 1];
}

// internal helpers take plain functions
static Rng *propRng;
static std::map<unsigned, uint64_t> propVal;
static int propFail; // fails at this call
static umf_result_t propFn(umf_const_memtarget_handle_t t, uint64_t *v) {
    unsigned id = 0;
    umfMemtargetGetId(t, &id);
    if (propFail && --propFail == 0)
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    *v = propVal[id];
    return UMF_RESULT_SUCCESS;
}
static std::map<unsigned, unsigned> bestOf; // initiator id -> index into nodes
static umf_result_t bestFn(umf_memtarget_handle_t in, umf_memtarget_handle_t *nodes, size_t n, umf_memtarget_handle_t *out) {
    unsigned id = 0;
    umfMemtargetGetId(in, &id);
    if (propFail && --propFail == 0)
        return UMF_RESULT_ERROR_UNKNOWN;
    *out = nodes[bestOf[id] % n];
    return UMF_RESULT_SUCCESS;
}

#ifndef NO_BA
static void arm(Rng &r, bool on) {
    ba::fail_at = on ? (int64_t)r.range(1, 6) : -1;
    ba::enabled_failing = on;
}
static bool injected0(uint64_t before) { return ba::st.injected != before; }

static void space_case(Rng &r) {
    CHECK(umfInit() == 0, "C18:init", "umfInit failed");
    newMachine(r, r.chance(1, 6) ? 40 : 8);
    uint64_t ser = ba::serial();
    bool faults = r.chance(1, 2);
    std::vector<unsigned> pool; // ids used in this case: existing nodes and others
    bool ghost = r.chance(1, 3);
    for (auto &x : M.n)
        pool.push_back(x.os);
    if (ghost) {
        pool.push_back(1000);
        pool.push_back(~0u);
        pool.push_back(M.n[0].os + 1);
    }
    std::vector<S> sp;
    S src; // every id once: where targets to add and remove come from
    {
        std::vector<unsigned> u;
        for (auto x : pool)
            if (std::find(u.begin(), u.end(), x) == u.end())
                u.push_back(x);
        src.v = u;
        src.how = "source";
        auto rc = umfMemspaceCreateFromNumaArray(u.data(), u.size(), &src.h);
        if (rc != UMF_RESULT_SUCCESS) {
            viol("C18:create", "umfMemspaceCreateFromNumaArray of %zu ids = %d", u.size(), rc);
            umfTearDown();
            return;
        }
    }
    Sig sg;
    int nops = (int)r.range(10, 60);
    for (int op = 0; op < nops; op++) {
        int k = (int)r.below(14);
        if (sp.empty() && k > 2)
            k = (int)r.below(3);
        if (sp.size() > 6 && k < 3)
            k = 13;
        bool f = faults && r.chance(1, 3);
        uint64_t inj = ba::st.injected;
        size_t si = sp.empty() ? 0 : r.below(sp.size());
        char what[200];
        umf_result_t rc = UMF_RESULT_SUCCESS;
        umf_memspace_handle_t nh = (umf_memspace_handle_t)0x11;
        auto failedOk = [&](umf_result_t rc, const char *w) { // an error that only the injected fault explains
            if (rc == UMF_RESULT_SUCCESS)
                return true;
            CHECK(injected0(inj), "C18:spurious-error", "%s failed with %d", w, rc);
            if (injected0(inj))
                CHECK(rc == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "C18:wrong-error", "%s: out of memory reported as %d", w, rc);
            cnt("faulted_ops");
            return false;
        };
        switch (k) {
        case 0: { // new
            snprintf(what, sizeof what, "umfMemspaceNew");
            label("%s", what);
            arm(r, f);
            rc = umfMemspaceNew(&nh);
            arm(r, false);
            if (failedOk(rc, what))
                sp.push_back({nh, {}, what});
            break;
        }
        case 1: { // from ids
            std::vector<unsigned> v = src.v;
            for (size_t i = v.size(); i > 1; i--)
                std::swap(v[i - 1], v[r.below(i)]);
            v.resize(r.range(1, v.size()));
            snprintf(what, sizeof what, "umfMemspaceCreateFromNumaArray of %zu", v.size());
            label("umfMemspaceCreateFromNumaArray");
            arm(r, f);
            auto arg = v;
            rc = umfMemspaceCreateFromNumaArray(arg.data(), arg.size(), &nh);
            arm(r, false);
            CHECK(arg == v, "C18:input-changed", "%s changed its input", what);
            if (failedOk(rc, what))
                sp.push_back({nh, v, what});
            break;
        }
        case 2: { // clone
            S &s = sp.empty() ? src : sp[si];
            snprintf(what, sizeof what, "umfMemspaceClone of %zu", s.v.size());
            label("umfMemspaceClone");
            arm(r, f);
            rc = umfMemspaceClone(s.h, &nh);
            arm(r, false);
            same(s, "after umfMemspaceClone (source)");
            if (failedOk(rc, what)) {
                std::vector<unsigned> v = s.v;
                // handles are separate
                for (size_t i = 0; i < v.size(); i++)
                    CHECK(umfMemspaceMemtargetGet(nh, (unsigned)i) != umfMemspaceMemtargetGet(s.h, (unsigned)i), "C18:clone-shares",
                          "target %zu is shared between a memory space and its clone", i);
                sp.push_back({nh, v, what});
            }
            break;
        }
        case 3:
        case 4:
        case 5: { // add
            S &s = sp[si];
            // a target of another space, or of this very space
            S &from = r.chance(1, 6) && !s.v.empty() ? s : src;
            unsigned i = (unsigned)r.below(from.v.size());
            unsigned id = from.v[i];
            umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(from.h, i);
            bool dup = std::find(s.v.begin(), s.v.end(), id) != s.v.end();
            snprintf(what, sizeof what, "umfMemspaceMemtargetAdd of %u to %zu", id, s.v.size());
            label("umfMemspaceMemtargetAdd");
            arm(r, f);
            rc = umfMemspaceMemtargetAdd(s.h, t);
            arm(r, false);
            if (dup) {
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT || injected0(inj), "C18:add-duplicate",
                      "adding node %u twice = %d", id, rc);
                cnt("duplicates");
            } else if (failedOk(rc, what))
                s.v.push_back(id);
            break;
        }
        case 6: { // remove
            S &s = sp[si];
            bool own = r.chance(1, 2) && !s.v.empty();
            S &from = own ? s : src;
            unsigned i = (unsigned)r.below(from.v.size()), id = from.v[i];
            auto it = std::find(s.v.begin(), s.v.end(), id);
            label("umfMemspaceMemtargetRemove");
            snprintf(what, sizeof what, "umfMemspaceMemtargetRemove of %u", id);
            arm(r, f);
            rc = umfMemspaceMemtargetRemove(s.h, umfMemspaceMemtargetGet(from.h, i));
            arm(r, false);
            if (it == s.v.end())
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT || injected0(inj), "C18:remove-missing",
                      "removing node %u, which is not in the space = %d", id, rc);
            else if (failedOk(rc, what))
                s.v.erase(it);
            break;
        }
        case 7: { // by id
            S &s = sp[si];
            std::vector<unsigned> want;
            size_t n = r.below(6);
            for (size_t i = 0; i < n; i++)
                want.push_back(r.chance(1, 8) ? (unsigned)r.next() : pool[r.below(pool.size())]);
            auto arg = want;
            label("umfMemspaceFilterById");
            snprintf(what, sizeof what, "umfMemspaceFilterById %s", ids(want).substr(0, 150).c_str());
            arm(r, f);
            unsigned none = 0;
            rc = umfMemspaceFilterById(s.h, n ? arg.data() : &none, n);
            arm(r, false);
            CHECK(arg == want, "C18:input-changed", "%s changed its input", what);
            if (n == 0)
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C18:filter-no-ids", "%s = %d", what, rc);
            else if (failedOk(rc, what)) {
                std::vector<unsigned> v;
                for (auto x : s.v)
                    if (std::find(want.begin(), want.end(), x) != want.end())
                        v.push_back(x);
                s.v = v;
                cnt("filtered_by_id");
            }
            break;
        }
        case 8: { // by capacity
            S &s = sp[si];
            int64_t c = r.chance(1, 6) ? -(int64_t)r.logsize(1ull << 62) - 1 : (int64_t)r.logsize(1ull << 43);
            if (c >= 0 && r.chance(1, 2) && !M.n.empty())
                c = (int64_t)M.n[r.below(M.n.size())].cap + (int64_t)r.below(3) - 1;
            if (c < 0 && r.chance(1, 4))
                c = INT64_MIN;
            label("umfMemspaceFilterByCapacity");
            snprintf(what, sizeof what, "umfMemspaceFilterByCapacity(%ld)", (long)c);
            arm(r, f);
            rc = umfMemspaceFilterByCapacity(s.h, c);
            arm(r, false);
            bool ghosts = false;
            for (auto x : s.v)
                ghosts |= !M.has(x);
            if (c < 0)
                CHECK(rc == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C18:filter-negative", "%s = %d", what, rc);
            else if (ghosts) {
                CHECK(rc != UMF_RESULT_SUCCESS, "C18:filter-ghost", "%s succeeded though a node does not exist", what);
                cnt("failed_filters");
            } else if (failedOk(rc, what)) {
                std::vector<unsigned> v;
                for (auto x : s.v)
                    if (M.get(x).cap >= (size_t)c)
                        v.push_back(x);
                s.v = v;
                cnt("filtered_by_capacity");
            }
            break;
        }
        case 9: { // user filter
            S &s = sp[si];
            FilterArgs fa;
            fa.space = s.h;
            fa.size0 = s.v.size();
            int fail = r.chance(1, 3) && !s.v.empty() ? (int)r.below(s.v.size()) : -1;
            unsigned keep = (unsigned)r.below(5); // 0: keep none, 4: keep all
            for (size_t i = 0; i < s.v.size(); i++)
                fa.ret.push_back((int)i == fail ? (r.chance(1, 2) ? -1 : -(int)r.range(1, 1000000))
                                                : (keep == 4 || (keep && r.chance(keep, 4)) ? (int)r.range(1, 100000) : 0));
            label("umfMemspaceUserFilter");
            snprintf(what, sizeof what, "umfMemspaceUserFilter of %zu", s.v.size());
            arm(r, f);
            rc = umfMemspaceUserFilter(s.h, filterCb, &fa);
            arm(r, false);
            CHECK(!fa.bad, "C18:filter-args", "%s passed another space or a changed one", what);
            if (fail >= 0) {
                CHECK(rc == UMF_RESULT_ERROR_USER_SPECIFIC || injected0(inj), "C18:filter-user-error",
                      "%s: the callback failed, result %d", what, rc);
                cnt("failed_filters");
            } else if (failedOk(rc, what)) {
                CHECK(fa.seen == s.v, "C18:filter-calls", "%s asked about %s of %s", what, ids(fa.seen).c_str(), ids(s.v).c_str());
                std::vector<unsigned> v;
                for (size_t i = 0; i < s.v.size(); i++)
                    if (fa.ret[i] > 0)
                        v.push_back(s.v[i]);
                s.v = v;
                cnt("filtered_by_user");
            }
            break;
        }
        case 10: { // sort (internal)
            S &s = sp[si];
            if (s.v.empty())
                break;
            propVal.clear();
            for (auto x : s.v)
                propVal[x] = r.chance(1, 2) ? r.below(4) : r.next();
            propFail = r.chance(1, 4) ? (int)r.range(1, s.v.size()) : 0;
            bool pf = propFail;
            label("umfMemspaceSortDesc");
            arm(r, f);
            rc = umfMemspaceSortDesc(s.h, propFn);
            arm(r, false);
            snprintf(what, sizeof what, "umfMemspaceSortDesc");
            if (pf && propFail == 0)
                CHECK(rc == UMF_RESULT_ERROR_NOT_SUPPORTED, "C18:sort-error", "sorting: the property failed, result %d", rc);
            else if (failedOk(rc, what)) {
                auto v = contents(s.h, what);
                auto a = v, b = s.v;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                CHECK(a == b, "C18:sort-set", "sorting changed %s to %s", ids(s.v).c_str(), ids(v).c_str());
                for (size_t i = 1; i < v.size(); i++)
                    CHECK(propVal[v[i - 1]] >= propVal[v[i]], "C18:sort-order", "sorted order is not descending at %zu", i);
                s.v = v;
                cnt("sorted");
            }
            propFail = 0;
            break;
        }
        case 11: { // filter into a new one (internal)
            S &s = sp[si];
            if (s.v.empty())
                break;
            bestOf.clear();
            unsigned spread = (unsigned)r.range(1, s.v.size());
            for (auto x : s.v)
                bestOf[x] = (unsigned)r.below(spread);
            propFail = r.chance(1, 4) ? (int)r.range(1, s.v.size()) : 0;
            bool pf = propFail;
            label("umfMemspaceFilter");
            arm(r, f);
            rc = umfMemspaceFilter(s.h, bestFn, &nh);
            arm(r, false);
            snprintf(what, sizeof what, "umfMemspaceFilter");
            if (pf && propFail == 0)
                CHECK(rc == UMF_RESULT_ERROR_UNKNOWN, "C18:filter-error", "filtering: the callback failed, result %d", rc);
            else if (failedOk(rc, what)) {
                std::vector<unsigned> v;
                for (auto x : s.v) {
                    unsigned b = s.v[bestOf[x] % s.v.size()];
                    if (std::find(v.begin(), v.end(), b) == v.end())
                        v.push_back(b);
                }
                auto got = contents(nh, what);
                auto a = got, b = v;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                CHECK(a == b, "C18:filter-best", "the best targets are %s, got %s", ids(v).c_str(), ids(got).c_str());
                cnt("filtered_best");
                same(s, "after umfMemspaceFilter (source)");
                if (sp.size() < 10)
                    sp.push_back({nh, got, what}); // s is dangling from here on
                else
                    umfMemspaceDestroy(nh);
            }
            propFail = 0;
            break;
        }
        case 12: { // invalid arguments
            S &s = sp[si];
            label("invalid arguments");
            unsigned id;
            size_t cap;
            umf_memtarget_type_t ty;
            umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(src.h, 0);
            unsigned one = 1;
            FilterArgs fa;
            snprintf(what, sizeof what, "invalid arguments");
            CHECK(umfMemspaceNew(nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceClone(nullptr, &nh) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceClone(s.h, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceMemtargetAdd(nullptr, t) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceMemtargetAdd(s.h, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceMemtargetRemove(nullptr, t) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceMemtargetRemove(s.h, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceFilterById(nullptr, &one, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceFilterById(s.h, nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceFilterByCapacity(nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceUserFilter(nullptr, filterCb, &fa) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceUserFilter(s.h, nullptr, &fa) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceCreateFromNumaArray(nullptr, 1, &nh) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceCreateFromNumaArray(&one, 0, &nh) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceCreateFromNumaArray(&one, 1, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemspaceMemtargetNum(nullptr) == 0 && umfMemspaceMemtargetGet(nullptr, 0) == nullptr &&
                      umfMemtargetGetId(nullptr, &id) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemtargetGetId(t, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemtargetGetCapacity(nullptr, &cap) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemtargetGetCapacity(t, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemtargetGetType(nullptr, &ty) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfMemtargetGetType(t, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                  "C18:null-argument", "a null argument was accepted");
            break;
        }
        default: { // destroy
            label("umfMemspaceDestroy");
            snprintf(what, sizeof what, "umfMemspaceDestroy");
            umfMemspaceDestroy(sp[si].h);
            sp.erase(sp.begin() + si);
        }
        }
        sg.add(k * 131 + rc);
        cnt("ops");
        // every space, touched or not, holds exactly what it should
        for (auto &s : sp) {
            sg.add(s.v.size());
            same(s, what);
        }
        same(src, what);
    }
    for (auto &s : sp)
        umfMemspaceDestroy(s.h);
    umfMemspaceDestroy(src.h);
    umfTearDown();
    label("end");
    std::string l = ba::leaks(ser);
    CHECK(l.empty(), "C18:leak", "metadata left: %s", l.c_str());
    CHECK(topos == 0, "C18:leak-topology", "%d topologies left", topos.load());
    sig(sg.v);
}
#endif

// ---------------------------------------------------------------- predefined spaces
static void checkBest(umf_const_memspace_handle_t s, bool bw) {
    const char *n = bw ? "highest bandwidth" : "lowest latency";
    if (!M.has_attr) {
        // the values are unknown: unavailable (a machine where no node shares CPUs with itself does not exist)
        CHECK(!s, "C18:best-unavailable", "%s: the memory space exists without memory attributes", n);
        cnt("unavailable");
        return;
    }
    if (!s) {
        viol("C18:best-missing", "%s: no memory space (%s)", n, M.synth.c_str());
        return;
    }
    auto v = contents(s, n);
    std::set<unsigned> got(v.begin(), v.end());
    CHECK(got.size() == v.size(), "C18:best-duplicate", "%s: %s (%s)", n, ids(v).c_str(), M.synth.c_str());
    std::set<unsigned> useful;
    for (auto &i : M.n) {
        // best value reachable for this initiator; remote nodes count as worst
        uint64_t best = bw ? 0 : ~0ull;
        for (auto &t : M.n)
            if (t.shares(i)) {
                uint64_t x = M.value(bw, i, t.os);
                best = bw ? std::max(best, x) : std::min(best, x);
            }
        bool ok = false;
        for (auto &t : M.n)
            if (t.shares(i) && M.value(bw, i, t.os) == best) {
                useful.insert(t.os);
                ok |= got.count(t.os);
            }
        CHECK(ok, "C18:best-wrong", "%s: no best node for node %u in %s (%s)", n, i.os, ids(v).c_str(), M.synth.c_str());
    }
    for (auto x : v)
        CHECK(useful.count(x), "C18:best-extra", "%s: node %u is best for no node: %s (%s)", n, x, ids(v).c_str(), M.synth.c_str());
    cnt("best_checked");
    if (M.nested)
        cnt("best_nested");
}
static void predef_checks(Rng &r) {
    bool twice = r.chance(1, 2);
    int order[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--)
        std::swap(order[i], order[r.below(i + 1)]);
    umf_const_memspace_handle_t h[4] = {};
    for (int k : order) {
        switch (k) {
        case 0: {
            label("umfMemspaceHostAllGet");
            h[0] = umfMemspaceHostAllGet();
            if (!h[0]) {
                viol("C18:host-all", "no host-all memory space");
                break;
            }
            std::vector<unsigned> v = contents(h[0], "host all"), w;
            for (auto &x : M.n)
                w.push_back(x.os);
            std::sort(v.begin(), v.end());
            std::sort(w.begin(), w.end());
            CHECK(v == w, "C18:host-all", "host all holds %s, the machine has %s", ids(v).c_str(), ids(w).c_str());
            break;
        }
        case 1: {
            label("umfMemspaceHighestCapacityGet");
            h[1] = umfMemspaceHighestCapacityGet();
            if (!h[1]) {
                viol("C18:highest-capacity", "no highest-capacity memory space");
                break;
            }
            std::vector<unsigned> v = contents(h[1], "highest capacity"), w;
            for (auto &x : M.n)
                w.push_back(x.os);
            auto a = v;
            std::sort(a.begin(), a.end());
            std::sort(w.begin(), w.end());
            CHECK(a == w, "C18:highest-capacity-set", "highest capacity holds %s, the machine has %s", ids(v).c_str(), ids(w).c_str());
            for (size_t i = 1; i < v.size() && a == w; i++)
                CHECK(M.get(v[i - 1]).cap >= M.get(v[i]).cap, "C18:highest-capacity-order",
                      "highest capacity: node %u (%zu bytes) before node %u (%zu bytes)", v[i - 1], M.get(v[i - 1]).cap, v[i],
                      M.get(v[i]).cap);
            break;
        }
        case 2:
            label("umfMemspaceHighestBandwidthGet");
            h[2] = umfMemspaceHighestBandwidthGet();
            checkBest(h[2], true);
            break;
        case 3:
            label("umfMemspaceLowestLatencyGet");
            h[3] = umfMemspaceLowestLatencyGet();
            checkBest(h[3], false);
            break;
        }
        cnt("predefined");
    }
    if (twice) {
        CHECK(h[0] == umfMemspaceHostAllGet() && h[1] == umfMemspaceHighestCapacityGet() && h[2] == umfMemspaceHighestBandwidthGet() &&
                  h[3] == umfMemspaceLowestLatencyGet(),
              "C18:predefined-changes", "a predefined memory space changed between two calls");
        if (h[0])
            contents(h[0], "host all again");
    }
    // a copy can be changed, the original stays
    if (h[0]) {
        umf_memspace_handle_t c = nullptr;
        CHECK(umfMemspaceClone(h[0], &c) == UMF_RESULT_SUCCESS, "C18:clone-predefined", "cloning host all failed");
        if (c) {
            auto before = contents(h[0], "host all");
            unsigned one = M.n[r.below(M.n.size())].os;
            CHECK(umfMemspaceFilterById(c, &one, 1) == UMF_RESULT_SUCCESS, "C18:filter-clone", "filtering a copy of host all failed");
            auto v = contents(c, "filtered copy");
            CHECK(v.size() == 1 && v[0] == one, "C18:filter-clone", "filtering a copy of host all for %u gave %s", one, ids(v).c_str());
            CHECK(contents(h[0], "host all") == before, "C18:clone-shares", "changing a copy of host all changed the original");
            umfMemspaceDestroy(c);
        }
    }
}
#ifndef NO_BA
static void predef_case(Rng &r) {
    uint64_t ser = ba::serial();
    CHECK(umfInit() == 0, "C18:init", "umfInit failed");
    newMachine(r);
    Sig sg;
    for (auto &x : M.n)
        sg.add(x.os * 7 + x.pkg);
    sg.add(M.attr_seed);
    sample("machine '%s'", M.synth.c_str());
    predef_checks(r);
    umfTearDown();
    label("end");
    std::string l = ba::leaks(ser);
    CHECK(l.empty(), "C18:leak", "metadata left: %s", l.c_str());
    CHECK(topos == 0, "C18:leak-topology", "%d topologies left", topos.load());
    sig(sg.v);
}

// ---------------------------------------------------------------- providers from spaces and policies
static std::vector<Bind> allocs(umf_memory_provider_handle_t p, const std::vector<size_t> &sizes, bool *ok) {
    std::vector<Bind> b;
    std::vector<std::pair<void *, size_t>> live;
    binds = &b;
    *ok = true;
    for (size_t n : sizes) {
        void *q = nullptr;
        umf_result_t rc = umfMemoryProviderAlloc(p, n, 0, &q);
        if (rc != UMF_RESULT_SUCCESS) {
            *ok = false;
            b.push_back({0, n, {}, -(int)rc, 0});
        } else
            live.push_back({q, n});
    }
    binds = nullptr;
    for (auto &x : live)
        CHECK(umfMemoryProviderFree(p, x.first, x.second) == UMF_RESULT_SUCCESS, "C18:provider-free", "freeing failed");
    return b;
}
static std::string show(const std::vector<Bind> &v) {
    std::string s;
    for (auto &b : v) {
        s += "{" + std::to_string(b.off / PG) + "+" + std::to_string(b.len / PG) + " p" + std::to_string(b.policy) + " f" +
             std::to_string(b.flags) + " ";
        for (auto n : b.nodes)
            s += std::to_string(n) + ",";
        s += "}";
        if (s.size() > 300)
            break;
    }
    return s;
}
static void policy_case(Rng &r) {
    uint64_t ser = ba::serial();
    CHECK(umfInit() == 0, "C18:init", "umfInit failed");
    newMachine(r);
    M.has_attr = true;
    // the memory space
    int kind = (int)r.below(5);
    umf_const_memspace_handle_t sp = nullptr;
    umf_memspace_handle_t own = nullptr;
    std::vector<unsigned> nodes;
    const char *kinds[] = {"own", "host all", "highest capacity", "highest bandwidth", "lowest latency"};
    if (kind == 0) {
        for (auto &x : M.n)
            if (r.chance(1, 2))
                nodes.push_back(x.os);
        if (nodes.empty())
            nodes.push_back(M.n[0].os);
        if (r.chance(1, 2))
            std::reverse(nodes.begin(), nodes.end());
        CHECK(umfMemspaceCreateFromNumaArray(nodes.data(), nodes.size(), &own) == 0, "C18:create", "creating a memory space failed");
        sp = own;
    } else {
        sp = kind == 1   ? umfMemspaceHostAllGet()
             : kind == 2 ? umfMemspaceHighestCapacityGet()
             : kind == 3 ? umfMemspaceHighestBandwidthGet()
                         : umfMemspaceLowestLatencyGet();
        if (!sp) {
            viol("C18:best-missing", "no memory space '%s'", kinds[kind]);
            umfTearDown();
            return;
        }
        nodes = contents(sp, kinds[kind]);
        if (kind == 2)
            nodes.resize(1); // a provider uses the node with the highest capacity only
        if (r.chance(1, 3)) { // a copy is an ordinary memory space
            CHECK(umfMemspaceClone(sp, &own) == 0, "C18:clone", "cloning '%s' failed", kinds[kind]);
            nodes = contents(own, "copy");
            sp = own;
            kind = 0;
        }
    }
    // the policy
    int pol = (int)r.below(5); // 4: none
    static const umf_mempolicy_membind_t pt[] = {UMF_MEMPOLICY_INTERLEAVE, UMF_MEMPOLICY_BIND, UMF_MEMPOLICY_PREFERRED,
                                                 UMF_MEMPOLICY_SPLIT};
    static const umf_numa_mode_t mt[] = {UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT};
    umf_mempolicy_handle_t hp = nullptr;
    umf_numa_mode_t mode = kind == 1 ? UMF_NUMA_MODE_DEFAULT : UMF_NUMA_MODE_BIND;
    size_t part = 0;
    std::vector<umf_mempolicy_split_partition_t> parts;
    bool badparts = false;
    if (pol < 4) {
        label("umfMempolicyCreate");
        CHECK(umfMempolicyCreate(pt[pol], &hp) == 0, "C18:policy", "creating a policy failed");
        mode = mt[pol];
        // settings for another kind of policy are refused
        umf_mempolicy_split_partition_t one = {1, nodes[0]};
        if (pol != 0)
            CHECK(umfMempolicySetInterleavePartSize(hp, PG) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C18:policy-wrong-setting",
                  "a part size was accepted for a policy of kind %d", pol);
        if (pol != 3)
            CHECK(umfMempolicySetCustomSplitPartitions(hp, &one, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                  "C18:policy-wrong-setting", "partitions were accepted for a policy of kind %d", pol);
        CHECK(umfMempolicySetInterleavePartSize(nullptr, PG) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                  umfMempolicySetCustomSplitPartitions(nullptr, &one, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                  umfMempolicyCreate(pt[pol], nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
              "C18:null-argument", "a null policy was accepted");
        if (pol == 0 && r.chance(2, 3)) {
            part = r.chance(1, 8) ? 0 : r.range(1, 4) * PG - (r.chance(1, 4) ? r.below(PG) : 0);
            CHECK(umfMempolicySetInterleavePartSize(hp, part) == 0, "C18:policy", "setting the part size failed");
        }
        if (pol == 3 && r.chance(2, 3)) {
            size_t n = r.range(1, 5);
            for (size_t i = 0; i < n; i++) {
                bool bad = r.chance(1, 25);
                badparts |= bad;
                parts.push_back({(unsigned)(bad && r.chance(1, 2) ? 0 : r.range(1, 5)),
                                 bad ? M.n[r.below(M.n.size())].os + 1 : nodes[r.below(nodes.size())]});
            }
            // other partitions first, which the last ones replace; the caller's array is gone when the call returns
            auto set = [&](const std::vector<umf_mempolicy_split_partition_t> &v) {
                auto *a = (umf_mempolicy_split_partition_t *)malloc(std::max<size_t>(1, v.size() * sizeof(v[0])));
                std::copy(v.begin(), v.end(), a);
                umf_result_t rc = umfMempolicySetCustomSplitPartitions(hp, v.empty() && r.chance(1, 2) ? nullptr : a, v.size());
                memset((void *)a, 0x5a, v.size() * sizeof(v[0]));
                free(a);
                return rc;
            };
            if (r.chance(1, 3)) {
                std::vector<umf_mempolicy_split_partition_t> other(r.below(6), umf_mempolicy_split_partition_t{3, nodes[0]});
                CHECK(set(other) == 0, "C18:policy", "setting partitions failed");
                cnt("partitions_replaced");
            }
            CHECK(set(parts) == 0, "C18:policy", "setting partitions failed");
            if (r.chance(1, 4))
                CHECK(umfMempolicySetCustomSplitPartitions(hp, nullptr, 2) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C18:null-argument",
                      "a null array of partitions was accepted");
            if (r.chance(1, 3)) { // a refused change leaves the policy as it was
                std::vector<umf_mempolicy_split_partition_t> other(1 + r.below(6), umf_mempolicy_split_partition_t{9, nodes.back()});
                uint64_t inj0 = ba::st.injected;
                ba::fail_at = 1;
                ba::enabled_failing = true;
                umf_result_t rc = set(other);
                arm(r, false);
                if (rc == UMF_RESULT_SUCCESS)
                    CHECK(set(parts) == 0, "C18:policy", "setting partitions failed");
                else
                    CHECK(ba::st.injected != inj0 && rc == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "C18:policy", "setting partitions = %d", rc);
            }
        }
    }
    // created directly
    umf_os_memory_provider_params_handle_t op = nullptr;
    umf_memory_provider_handle_t ref = nullptr, prov = nullptr;
    CHECK(umfOsMemoryProviderParamsCreate(&op) == 0, "C18:params", "no params");
    umfOsMemoryProviderParamsSetNumaMode(op, mode);
    if (mode != UMF_NUMA_MODE_DEFAULT)
        umfOsMemoryProviderParamsSetNumaList(op, nodes.data(), (unsigned)nodes.size());
    if (part)
        umfOsMemoryProviderParamsSetPartSize(op, part);
    if (!parts.empty()) {
        std::vector<umf_numa_split_partition_t> ps;
        for (auto &x : parts)
            ps.push_back({x.weight, x.target});
        umfOsMemoryProviderParamsSetPartitions(op, ps.data(), (unsigned)ps.size());
    }
    umf_result_t r1 = umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &ref);
    umfOsMemoryProviderParamsDestroy(op);
    label("umfMemoryProviderCreateFromMemspace");
    CHECK(umfMemoryProviderCreateFromMemspace(nullptr, hp, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
              umfMemoryProviderCreateFromMemspace(sp, hp, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
          "C18:null-argument", "a null argument was accepted");
    bool f = r.chance(1, 5);
    uint64_t inj = ba::st.injected;
    ba::fail_at = f ? (int64_t)r.range(1, 12) : -1;
    ba::enabled_failing = f;
    prov = nullptr;
    umf_result_t r2 = umfMemoryProviderCreateFromMemspace(sp, hp, &prov);
    arm(r, false);
    if (ba::st.injected != inj) {
        CHECK(r2 == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || r2 == r1, "C18:wrong-error",
              "out of memory reported as %d when creating a provider", r2);
        cnt("faulted_ops");
        if (r2 != UMF_RESULT_SUCCESS)
            r2 = umfMemoryProviderCreateFromMemspace(sp, hp, &prov);
    }
    // inputs are not used up
    if (own)
        CHECK(contents(own, "after creating a provider").size() >= nodes.size(), "C18:contents", "creating a provider changed the memory space");
    CHECK((r1 == 0) == (r2 == 0), "C18:provider-create", "%s, policy %d, part %zu, %zu partitions: created directly = %d, from the memory space = %d (%s)",
          kinds[kind], pol, part, parts.size(), r1, r2, M.synth.c_str());
    if (mode == UMF_NUMA_MODE_DEFAULT || (mode != UMF_NUMA_MODE_SPLIT && mode != UMF_NUMA_MODE_INTERLEAVE))
        CHECK(r2 == 0, "C18:provider-create", "%s, policy %d: %d", kinds[kind], pol, r2);
    Sig sg;
    sg.add(kind * 8 + pol).add(nodes.size()).add(part).add(parts.size()).add(r2);
    // the policy may go now, the partitions too
    if (hp) {
        CHECK(umfMempolicyDestroy(hp) == 0, "C18:policy", "destroying a policy failed");
        for (auto &x : parts)
            x = {7, 4321};
    }
    if (own && r.chance(1, 2)) {
        umfMemspaceDestroy(own);
        own = nullptr;
    }
    if (r1 == 0 && r2 == 0) {
        std::vector<size_t> sizes;
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++)
            sizes.push_back(r.range(1, 24) * PG);
        bool ok1, ok2;
        label("allocating");
        auto b1 = allocs(ref, sizes, &ok1), b2 = allocs(prov, sizes, &ok2);
        CHECK(b1 == b2, "C18:provider-differs", "%s, policy %d, part %zu, %zu partitions, nodes %s: directly %s, from the memory space %s",
              kinds[kind], pol, part, parts.size(), ids(nodes).c_str(), show(b1).c_str(), show(b2).c_str());
        std::set<unsigned> in(nodes.begin(), nodes.end());
        if (mode == UMF_NUMA_MODE_DEFAULT)
            CHECK(b2.empty(), "C18:default-binds", "the default memory space binds memory: %s", show(b2).c_str());
        else
            CHECK(!b2.empty(), "C18:not-bound", "%s, policy %d: nothing was bound", kinds[kind], pol);
        for (auto &b : b2) {
            bool sub = !b.nodes.empty() && std::includes(in.begin(), in.end(), b.nodes.begin(), b.nodes.end());
            CHECK(sub, "C18:bound-elsewhere", "%s, policy %d: memory bound outside %s: %s", kinds[kind], pol, ids(nodes).c_str(),
                  show(b2).c_str());
            sg.add(b.nodes.size() * 100 + b.policy);
        }
        // every page of every allocation is bound
        if (mode != UMF_NUMA_MODE_DEFAULT) {
            size_t sum = 0, want = 0;
            for (auto &b : b2)
                sum += b.len;
            for (auto s : sizes)
                want += s;
            CHECK(sum == want, "C18:bound-size", "%zu bytes were bound of %zu", sum, want);
        }
        cnt("binds", b2.size());
        cnt("providers");
    } else
        cnt("refused");
    if (ref)
        umfMemoryProviderDestroy(ref);
    if (prov)
        umfMemoryProviderDestroy(prov);
    if (own)
        umfMemspaceDestroy(own);
    // an empty memory space makes no provider and no pool
    umf_memspace_handle_t e = nullptr;
    if (r.chance(1, 4) && umfMemspaceNew(&e) == 0) {
        CHECK(umfMemoryProviderCreateFromMemspace(e, nullptr, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "C18:empty-provider",
              "a provider was made from an empty memory space");
        umfMemspaceDestroy(e);
    }
    umfTearDown();
    label("end");
    std::string l = ba::leaks(ser);
    CHECK(l.empty(), "C18:leak", "metadata left: %s", l.c_str());
    CHECK(topos == 0, "C18:leak-topology", "%d topologies left", topos.load());
    sig(sg.v);
}
#endif

static void mt_case(Rng &r) {
    CHECK(umfInit() == 0, "C18:init", "umfInit failed");
    newMachine(r);
    int nt = (int)r.range(2, 6);
    std::atomic<int> ready{0};
    std::vector<std::array<umf_const_memspace_handle_t, 4>> got(nt);
    auto seed = r.next();
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Rng q(mix(seed, t));
            ready++;
            while (ready < nt)
                ;
            int first = (int)q.below(4);
            for (int i = 0; i < 4; i++) {
                int k = (first + i) % 4;
                got[t][k] = k == 0   ? umfMemspaceHostAllGet()
                            : k == 1 ? umfMemspaceHighestCapacityGet()
                            : k == 2 ? umfMemspaceHighestBandwidthGet()
                                     : umfMemspaceLowestLatencyGet();
            }
            predef_checks(q);
            umf_memory_provider_handle_t p = nullptr;
            if (umfMemspaceHostAllGet() && umfMemoryProviderCreateFromMemspace(got[t][q.below(2)], nullptr, &p) == 0) {
                void *m = nullptr;
                if (umfMemoryProviderAlloc(p, PG, 0, &m) == 0) {
                    memset(m, 1, PG);
                    umfMemoryProviderFree(p, m, PG);
                }
                umfMemoryProviderDestroy(p);
            }
            progress();
        });
    for (auto &t : ts)
        t.join();
    for (int t = 1; t < nt; t++)
        CHECK(got[t] == got[0], "C18:predefined-changes", "two threads got different predefined memory spaces");
    umfTearDown();
    CHECK(topos == 0, "C18:leak-topology", "%d topologies left", topos.load());
    cnt("mt_users", nt);
    sig(mix(seed, nt));
}

void harness_begin() {
    umfTearDown(); // the use taken when the library was loaded
}
void run_case(uint64_t, Rng &r) {
#ifndef NO_BA
    if (ctx().mode == "space")
        return space_case(r);
    if (ctx().mode == "predef")
        return predef_case(r);
    if (ctx().mode == "policy")
        return policy_case(r);
#endif
    mt_case(r);
}
void harness_end() { umfInit(); }
