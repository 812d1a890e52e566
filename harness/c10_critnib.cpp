// C10: the ordered map from addresses to values.
#include "h.hpp"
#ifdef VARIANT_SCHED
#include "sched.hpp"
#endif
extern "C" {
#include "critnib.h"
}
#include <errno.h>
#ifdef WITH_BA
#include "ba.hpp"
#endif
using h::Rng;

static std::vector<uintptr_t> make_keys(Rng &r, size_t n) {
    std::vector<uintptr_t> k;
    int style = (int)r.below(7);
    uintptr_t base = r.next();
    while (k.size() < n) {
        uintptr_t x;
        switch (style) {
        case 0: x = r.next(); break;
        case 1: x = base + r.below(n * 2); break;                       // dense
        case 2: x = base ^ (1ull << r.below(64)); break;                // one bit off
        case 3: x = base ^ ((r.below(16)) << (4 * r.below(16))); break; // one nibble off
        case 4: x = (base & ~0xfffffull) + r.below(64) * 4096; break;   // pages
        case 5: {                                                       // extremes
            static const uintptr_t ex[] = {0, 1, 2, 15, 16, 17, ~0ull, ~0ull - 1, ~0ull - 15, ~0ull - 16, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 1ull << 60, (1ull << 60) - 1};
            x = ex[r.below(15)] + (r.chance(1, 3) ? r.below(5) - 2 : 0);
            break;
        }
        default: x = 0; // sparse in few nibbles
            for (int i = 0; i < 3; i++)
                x |= r.below(16) << (4 * r.below(16));
        }
        k.push_back(x);
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    return k;
}

typedef std::map<uintptr_t, void *> Map;
static bool model_find(const Map &m, uintptr_t key, int dir, uintptr_t &k, void *&v) {
    Map::const_iterator it;
    switch (dir) {
    case FIND_EQ: it = m.find(key); break;
    case FIND_GE: it = m.lower_bound(key); break;
    case FIND_G: it = m.upper_bound(key); break;
    case FIND_LE:
        it = m.upper_bound(key);
        if (it == m.begin()) return false;
        --it;
        break;
    default:
        it = m.lower_bound(key);
        if (it == m.begin()) return false;
        --it;
    }
    if (it == m.end()) return false;
    k = it->first;
    v = it->second;
    return true;
}

static void seq_case(uint64_t idx, Rng &r) {
#ifdef WITH_BA
    int64_t blocks0 = ba::st.live_blocks;
#endif
    critnib *c = critnib_new();
    Map m;
    auto keys = make_keys(r, 1 + r.below(r.chance(1, 4) ? 400 : 24));
    int nops = 50 + (int)r.below(600);
    uint64_t val = 1;
    unsigned delw = 1 + r.below(6);
    h::Sig s;
    for (int i = 0; i < nops; i++) {
        uintptr_t k = r.pick(keys);
        if (r.chance(1, 6)) k += r.below(3) - 1;
        unsigned op = r.below(16);
        if (op < 5) {
            void *v = (void *)(uintptr_t)(val++ * 16);
            int upd = r.below(2);
            bool had = m.count(k);
            int rc = critnib_insert(c, k, v, upd);
            int want = had && !upd ? EEXIST : 0;
            CHECK(rc == want, "seq:insert-rc", "insert(%lx, upd=%d) had=%d -> %d want %d", k, upd, had, rc, want);
            if (!had || upd) m[k] = v;
            s.add(1).add(k);
        } else if (op < 5 + delw) {
            void *want = m.count(k) ? m[k] : nullptr;
            void *got = critnib_remove(c, k);
            CHECK(got == want, "seq:remove", "remove(%lx) -> %p want %p", k, got, want);
            m.erase(k);
            s.add(2).add(k);
        } else if (op == 14) {
            uintptr_t lo = r.pick(keys) + r.below(3) - 1, hi = r.pick(keys) + r.below(3) - 1;
            if (r.chance(1, 4)) lo = 0;
            if (r.chance(1, 4)) hi = ~0ull;
            struct P { std::vector<std::pair<uintptr_t, void *>> got; size_t stop; } p;
            p.stop = r.chance(1, 3) ? r.below(5) + 1 : ~0ull;
            critnib_iter(c, lo, hi, [](uintptr_t k, void *v, void *pp) -> int {
                P *p = (P *)pp; p->got.push_back({k, v}); return p->got.size() >= p->stop; }, &p);
            std::vector<std::pair<uintptr_t, void *>> want;
            if (lo <= hi)
                for (auto it = m.lower_bound(lo); it != m.end() && it->first <= hi && want.size() < p.stop; ++it)
                    want.push_back(*it);
            CHECK(p.got == want, "seq:iter", "iter[%lx..%lx] visited %zu entries, want %zu", lo, hi, p.got.size(), want.size());
            h::stat("iters");
        } else {
            void *g = critnib_get(c, k);
            CHECK(g == (m.count(k) ? m[k] : nullptr), "seq:get", "get(%lx) -> %p", k, g);
            for (int dir = -2; dir <= 2; dir++) {
                uintptr_t rk = 0xdead, wk = 0;
                void *rv = (void *)0xdead, *wv = nullptr;
                bool null_k = r.chance(1, 10), null_v = r.chance(1, 10);
                int rc = critnib_find(c, k, (find_dir_t)dir, null_k ? nullptr : &rk, null_v ? nullptr : &rv);
                bool w = model_find(m, k, dir, wk, wv);
                CHECK(rc == (int)w, "seq:find-rc", "find(%lx,%d) -> %d want %d", k, dir, rc, w);
                if (rc && w) {
                    if (!null_k) CHECK(rk == wk, "seq:find-key", "find(%lx,%d) -> key %lx want %lx", k, dir, rk, wk);
                    if (!null_v) CHECK(rv == wv, "seq:find-val", "find(%lx,%d) -> %p want %p", k, dir, rv, wv);
                }
                if (dir == FIND_LE) {
                    void *le = critnib_find_le(c, k);
                    CHECK(le == (w ? wv : nullptr), "seq:find_le", "find_le(%lx) -> %p want %p", k, le, wv);
                }
            }
            h::stat("searches", 6);
        }
    }
    // full comparison at the end
    Map got;
    critnib_iter(c, 0, ~0ull, [](uintptr_t k, void *v, void *pp) -> int { (*(Map *)pp)[k] = v; return 0; }, &got);
    CHECK(got == m, "seq:final", "final contents differ: %zu vs %zu", got.size(), m.size());
    h::stat("ops", nops);
    h::sig(s.v);
    h::sample("sequential: %d ops over %zu keys, first %lx last %lx, final size %zu", nops, keys.size(), keys.front(), keys.back(), m.size());
    critnib_delete(c);
#ifdef WITH_BA
    CHECK(ba::st.live_blocks == blocks0, "seq:delete-leak", "%ld blocks of metadata left after critnib_delete() of a map of %zu", (long)(ba::st.live_blocks - blocks0), m.size());
#endif
}

// ---------------------------------------------------------------- concurrent
enum Op { INS, UPD, REM, GET, FIND };
struct Ev {
    Op op;
    int dir;
    uintptr_t key;
    uint64_t val;  // value written
    uint64_t rv;   // result value (0 = none)
    uintptr_t rk;  // result key for FIND
    int rc;
    uint64_t call, ret;
    int th;
};

static std::string dump(const std::vector<Ev> &h) {
    std::string s;
    std::vector<const Ev *> o;
    for (auto &e : h) o.push_back(&e);
    std::sort(o.begin(), o.end(), [](const Ev *a, const Ev *b) { return a->call < b->call; });
    static const char *n[] = {"ins", "upd", "rem", "get", "find"};
    char b[160];
    for (auto *e : o) {
        if (s.size() > 1100) { s += "..."; break; }
        snprintf(b, sizeof b, "t%d[%lu,%lu]%s%s(%lx%s)=%lx ", e->th, e->call, e->ret, n[e->op],
                 e->op == FIND ? (e->dir == -2 ? "<" : e->dir == -1 ? "<=" : e->dir == 0 ? "==" : e->dir == 1 ? ">=" : ">") : "",
                 e->key, e->op <= UPD ? (":" + std::to_string(e->val)).c_str() : "",
                 e->op <= UPD ? (unsigned long)e->rc : e->op == FIND ? (e->rc ? e->rk : 0) : e->rv);
        s += b;
    }
    return s;
}

// single-register linearizability (Wing & Gong with memo) for one key
struct Lin {
    std::vector<Ev> ev;
    std::unordered_set<uint64_t> seen;
    uint64_t iters = 0;
    bool go(uint64_t mask, uint64_t state) {
        if (mask == (ev.size() >= 64 ? ~0ull : (1ull << ev.size()) - 1)) return true;
        if (++iters > 2000000) return true; // give up: inconclusive, counted
        if (!seen.insert(h::mix(mask, state)).second) return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ev.size(); i++)
            if (!(mask >> i & 1)) minret = std::min(minret, ev[i].ret);
        for (size_t i = 0; i < ev.size(); i++) {
            if (mask >> i & 1 || ev[i].call > minret) continue;
            const Ev &e = ev[i];
            uint64_t ns = state;
            bool ok = true;
            switch (e.op) {
            case INS: ok = (e.rc == 0) == (state == 0); if (e.rc == 0) ns = e.val; break;
            case UPD: ok = e.rc == 0; ns = e.val; break;
            case REM: ok = e.rv == state; ns = 0; break;
            default: ok = e.rv == state;
            }
            if (ok && go(mask | 1ull << i, ns)) return true;
        }
        return false;
    }
};

static void check_history(const std::vector<Ev> &hist, const char *pfx) {
    std::map<uintptr_t, std::vector<Ev>> bykey;
    for (auto &e : hist)
        if (e.op != FIND) bykey[e.key].push_back(e);
        else if (e.dir == FIND_EQ) {
            Ev g = e; g.op = GET; g.rv = e.rc ? e.rv : 0; bykey[e.key].push_back(g);
        }
    uint64_t conc = 0;
    for (auto &kv : bykey) {
        Lin l;
        l.ev = kv.second;
        if (l.ev.size() > 60) { h::stat("lin_skipped"); continue; }
        std::sort(l.ev.begin(), l.ev.end(), [](const Ev &a, const Ev &b) { return a.call < b.call; });
        bool ok = l.go(0, 0);
        if (l.iters > 2000000) h::stat("lin_inconclusive");
        if (!ok) {
            std::string k = std::string(pfx) + ":not-linearizable";
            h::viol(k.c_str(), "key %lx: %s", kv.first, dump(l.ev).c_str());
        }
        conc++;
    }
    h::stat("keys_lin_checked", conc);
    // neighbour searches
    for (auto &f : hist) {
        if (f.op != FIND || f.dir == FIND_EQ) continue;
        h::stat("neighbour_checked");
        auto admissible = [&](uintptr_t k) {
            return f.dir == FIND_LE ? k <= f.key : f.dir == FIND_L ? k < f.key : f.dir == FIND_GE ? k >= f.key : k > f.key;
        };
        if (f.rc) {
            if (!admissible(f.rk)) {
                std::string k = std::string(pfx) + ":neighbour-side";
                h::viol(k.c_str(), "find(%lx,%d) returned %lx", f.key, f.dir, f.rk);
            }
            bool ok = false;
            for (auto &i : bykey[f.rk]) {
                if (i.op > UPD || i.rc != 0 || i.val != f.rv || i.call >= f.ret) continue;
                bool gone = false;
                for (auto &x : bykey[f.rk])
                    if (((x.op == REM && x.rv) || x.op == UPD) && x.call > i.ret && x.ret < f.call) gone = true;
                if (!gone) ok = true;
            }
            if (!ok) {
                std::string k = std::string(pfx) + ":neighbour-absent";
                h::viol(k.c_str(), "find(%lx,%d) at [%lu,%lu] returned %lx:%lu which was not present then; %s", f.key, f.dir, f.call, f.ret, f.rk, f.rv, dump(bykey[f.rk]).c_str());
            }
        }
        for (auto &kv : bykey) {
            if (!admissible(kv.first)) continue;
            bool better = !f.rc || (f.dir < 0 ? kv.first > f.rk : kv.first < f.rk);
            if (!better) continue;
            for (auto &i : kv.second) {
                if (i.op > UPD || i.rc != 0 || i.ret >= f.call) continue;
                bool stable = true;
                for (auto &x : kv.second)
                    if (x.op == REM && x.rv && x.ret > i.call && x.call < f.ret) stable = false;
                if (stable) {
                    std::string k = std::string(pfx) + ":neighbour-missed";
                    h::viol(k.c_str(), "find(%lx,%d) at [%lu,%lu] returned %lx (rc %d) although %lx was present throughout; %s", f.key, f.dir, f.call, f.ret, f.rk, f.rc, kv.first, dump(hist).c_str());
                    break;
                }
            }
        }
    }
}

static std::atomic<uint64_t> g_clk{1};
static inline uint64_t tick() {
#ifdef VARIANT_SCHED
    return sched::now();
#else
    return g_clk.fetch_add(1);
#endif
}

static void conc_case(uint64_t idx, Rng &r) {
    h::label("concurrent");
    critnib *c = critnib_new();
    std::atomic<uint64_t> val{1};
    std::vector<Ev> init;
#ifdef VARIANT_SCHED
    bool real = false;
#else
    bool real = true;
#endif
    auto keys = make_keys(r, 2 + r.below(7));
    auto doop = [&](Ev &e) {
        e.call = tick();
        switch (e.op) {
        case INS: case UPD: e.rc = critnib_insert(c, e.key, (void *)(e.val * 16), e.op == UPD); break;
        case REM: e.rv = (uint64_t)critnib_remove(c, e.key) / 16; break;
        case GET: e.rv = (uint64_t)critnib_get(c, e.key) / 16; break;
        case FIND: {
            void *v = nullptr; uintptr_t k = 0;
            e.rc = critnib_find(c, e.key, (find_dir_t)e.dir, &k, &v);
            e.rk = k; e.rv = (uint64_t)v / 16;
        }
        }
        e.ret = tick();
    };
    // pre-population, plus pre-aging of the deletion ring
    int pre = (int)r.below(keys.size() + 1);
    for (int i = 0; i < pre; i++) {
        Ev e{INS, 0, keys[r.below(keys.size())], val++, 0, 0, 0, 0, 0, 9};
        doop(e); init.push_back(e);
    }
    int age = r.chance(1, 2) ? (int)r.below(40) : 0;
    for (int i = 0; i < age; i++) { critnib_remove(c, keys[0] ^ 1 ^ r.next()); }
    // the random key above might be one of ours only with negligible probability; verify
    int nt = 2 + (int)r.below(2);
    int style = (int)r.below(3); // 0 mixed, 1 one long-running reader vs many writers, 2 churn on two keys
    std::vector<std::vector<Ev>> plan(nt);
    for (int t = 0; t < nt; t++) {
        int n = style == 1 ? (t == 0 ? 2 : 22) : style == 2 ? (t == 0 ? 3 : 20) : 3 + (int)r.below(8);
        uintptr_t ka = r.pick(keys), kb = r.pick(keys);
        for (int i = 0; i < n; i++) {
            Ev e{};
            e.th = t;
            e.key = r.pick(keys);
            e.val = val++;
            if (style != 0 && t > 0) {
                e.key = style == 2 ? (i / 2 % 2 ? ka : kb) : e.key;
                e.op = r.chance(1, 2) ? REM : r.chance(1, 3) ? UPD : INS;
                if (style == 2) e.op = i % 2 ? REM : INS;
            } else if (style != 0) {
                e.op = r.chance(1, 3) ? GET : FIND;
            } else
                e.op = (Op)r.below(5);
            e.dir = (int)r.below(5) - 2;
            if (e.op == FIND && r.chance(1, 3)) e.key += r.below(33) - 16;
            plan[t].push_back(e);
        }
    }
    std::vector<std::function<void()>> bodies;
    std::atomic<int> go{0};
    for (int t = 0; t < nt; t++)
        bodies.push_back([&, t] {
            if (real) { go++; while (go < nt) ; }
            for (auto &e : plan[t]) doop(e);
        });
    uint64_t hash;
#ifdef VARIANT_SCHED
    sched::Params p = sched::random_params(r);
    auto res = sched::run(bodies, r.next(), p);
    h::stat("sched_steps", res.steps);
    h::stat("sched_switches", res.switches);
    hash = h::mix(res.hash, h::mix(idx, 0));
#else
    std::vector<std::thread> ts;
    for (auto &b : bodies) ts.emplace_back(b);
    for (auto &t : ts) t.join();
    hash = 0;
    for (auto &p : plan) for (auto &e : p) hash = h::mix(hash, e.call * 4 + e.th);
#endif
    std::vector<Ev> hist = init;
    for (auto &p : plan) hist.insert(hist.end(), p.begin(), p.end());
    // final sequential reads pin the end state
    for (auto k : keys) {
        Ev e{GET, 0, k, 0, 0, 0, 0, 0, 0, 8};
        doop(e); hist.push_back(e);
        for (int d : {-1, 1}) { Ev f{FIND, d, k, 0, 0, 0, 0, 0, 0, 8}; doop(f); hist.push_back(f); }
    }
    check_history(hist, "conc");
    h::stat("histories");
    h::stat("conc_ops", hist.size());
    h::sig(hash);
    h::sample("history over %zu keys, %d threads, style %d: %s", keys.size(), nt, style, dump(hist).substr(0, 500).c_str());
    critnib_delete(c);
}

void harness_begin() {}
void harness_end() {}
void run_case(uint64_t idx, Rng &r) {
    if (h::ctx().mode == "seq") seq_case(idx, r);
    else {
        int reps = 1;
#ifndef VARIANT_SCHED
        reps = 40;
#endif
        for (int i = 0; i < reps; i++) conc_case(idx, r);
    }
}
