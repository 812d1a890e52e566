// C12: the ordered tree against std::set
#include "ba.hpp"
#include <errno.h>
extern "C" {
#include "ravl.h"
}
#include <math.h>
using h::Rng;
static uint64_t ncmp;
static int cmp_int(const void *a, const void *b) {
    ncmp++;
    uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
    return x < y ? -1 : x > y;
}
struct Pair { uint64_t k, payload[3]; };
static int cmp_pair(const void *a, const void *b) {
    ncmp++;
    uint64_t x = ((const Pair *)a)->k, y = ((const Pair *)b)->k;
    return x < y ? -1000 : x > y ? 7 : 0; // any negative/positive value
}
static void constr(void *data, size_t n, const void *arg) {
    Pair *p = (Pair *)data;
    p->k = *(const uint64_t *)arg;
    for (auto &x : p->payload) x = p->k * 3 + 1;
}
void harness_begin() {}
void harness_end() {}
void run_case(uint64_t idx, Rng &r) {
    bool ptr = r.chance(1, 2); // pointer based nodes or embedded data
    ravl *t = ptr ? ravl_new(cmp_int) : ravl_new_sized(cmp_pair, sizeof(Pair));
    int64_t base_blocks = ba::st.live_blocks;
    std::map<uint64_t, uint64_t *> m; // key -> storage (pointer based)
    uint64_t inserted = 0;            // since last empty
    unsigned range = 2 + r.below(r.chance(1, 3) ? 3000 : 60);
    int nops = 30 + r.below(r.chance(1, 10) ? 6000 : 500);
    int style = r.below(4); // 0 random 1 ascending 2 descending 3 zigzag
    uint64_t seq = 0;
    h::Sig s;
    auto key_of = [&](ravl_node *n) { return *(uint64_t *)ravl_data(n); };
    auto check_payload = [&](ravl_node *n) {
        if (!ptr) {
            Pair *p = (Pair *)ravl_data(n);
            for (auto x : p->payload) CHECK(x == p->k * 3 + 1, "payload", "payload of key %lu damaged", p->k);
        } else {
            auto it = m.find(key_of(n));
            CHECK(it != m.end() && it->second == ravl_data(n), "pointer", "node data pointer differs");
        }
    };
    auto full = [&] {
        std::vector<uint64_t> got, back, fe;
        for (ravl_node *n = ravl_first(t); n && got.size() <= m.size() + 2; n = ravl_node_successor(n)) { got.push_back(key_of(n)); check_payload(n); }
        for (ravl_node *n = ravl_last(t); n && back.size() <= m.size() + 2; n = ravl_node_predecessor(n)) back.push_back(key_of(n));
        struct A { std::vector<uint64_t> *v; bool ptr; } fa{&fe, ptr};
        // the callback gets the node's storage: the pointer itself for pointer-based nodes
        ravl_foreach(t, [](void *d, void *a) { A *x = (A *)a; x->v->push_back(x->ptr ? **(uint64_t **)d : *(uint64_t *)d); }, &fa);
        std::vector<uint64_t> want;
        for (auto &kv : m) want.push_back(kv.first);
        CHECK(got == want, "successor-order", "in-order traversal has %zu keys, want %zu", got.size(), want.size());
        CHECK(fe == want, "foreach-order", "foreach visited %zu keys, want %zu", fe.size(), want.size());
        std::reverse(want.begin(), want.end());
        CHECK(back == want, "predecessor-order", "reverse traversal has %zu keys, want %zu", back.size(), want.size());
        CHECK((ravl_empty(t) != 0) == m.empty(), "empty", "ravl_empty %d with %zu keys", ravl_empty(t), m.size());
        CHECK(ba::st.live_blocks - base_blocks == (int64_t)m.size(), "nodes", "%ld nodes allocated for %zu elements", (long)(ba::st.live_blocks - base_blocks), m.size());
        h::stat("full_checks");
    };
    for (int i = 0; i < nops; i++) {
        unsigned op = r.below(20);
        uint64_t k = style == 0 ? r.below(range) : style == 1 ? seq++ : style == 2 ? 1000000 - seq++ : (seq++, seq & 1 ? 500000 + seq : 500000 - seq);
        if (style && r.chance(1, 3)) k = m.empty() ? k : (r.chance(1, 2) ? m.begin()->first : m.rbegin()->first) + r.below(3) - 1;
        if (op < 9) {
            int rc;
            uint64_t *st = nullptr;
            Pair pp{k, {k * 3 + 1, k * 3 + 1, k * 3 + 1}};
            int how = r.below(2);
            if (ptr) { st = (uint64_t *)malloc(8); *st = k; rc = ravl_insert(t, st); }
            else if (how) rc = ravl_emplace_copy(t, &pp);
            else rc = ravl_emplace(t, constr, &k);
            bool had = m.count(k);
            CHECK((rc == 0) == !had, "insert-rc", "insert(%lu) -> %d, present before: %d", k, rc, had);
            if (had) { CHECK(errno == EEXIST, "insert-eexist", "errno %d after a duplicate insert", errno); free(st); }
            else { m[k] = st; inserted++; }
            s.add(1).add(k);
        } else if (op < 13 && !m.empty()) {
            uint64_t q = k;
            if (r.chance(3, 4)) { auto it = m.lower_bound(r.below(range)); if (style) it = m.begin(), std::advance(it, r.below(std::min<size_t>(m.size(), 20))); if (it != m.end()) q = it->first; }
            ravl_node *n = ravl_find(t, &q, RAVL_PREDICATE_EQUAL);
            CHECK((n != nullptr) == (m.count(q) > 0), "find-eq", "find(%lu) present %zu", q, m.count(q));
            if (n) {
                CHECK(key_of(n) == q, "find-eq-key", "found %lu for %lu", key_of(n), q);
                ravl_remove(t, n);
                free(m[q]);
                m.erase(q);
            }
            if (m.empty()) inserted = 0;
            s.add(2).add(q);
        } else if (op == 13 && r.chance(1, 20)) {
            ravl_clear(t);
            for (auto &kv : m) free(kv.second);
            m.clear();
            inserted = 0;
            full();
        } else {
            static const int preds[] = {1, 2, 4, 3, 5};
            int p = preds[r.below(5)];
            uint64_t q = k + r.below(3) - 1;
            ncmp = 0;
            ravl_node *n = ravl_find(t, &q, (ravl_predicate)p);
            double bound = 1.4405 * log2((double)inserted + 2) + 2;
            CHECK(ncmp <= bound, "depth", "find made %lu comparisons after %lu insertions (bound %.1f)", ncmp, inserted, bound);
            h::maxstat("max_comparisons", ncmp);
            std::map<uint64_t, uint64_t *>::iterator it = m.end();
            bool found = false;
            if ((p & 1) && m.count(q)) it = m.find(q), found = true;
            else if (p & 2) { it = m.upper_bound(q); found = it != m.end(); }
            else if (p & 4) { it = m.lower_bound(q); if (it != m.begin()) { --it; found = true; } }
            CHECK((n != nullptr) == found, "find-rc", "find(%lu, pred %d) found %d want %d", q, p, n != nullptr, found);
            if (n && found) { CHECK(key_of(n) == it->first, "find-key", "find(%lu, pred %d) -> %lu want %lu", q, p, key_of(n), it->first); check_payload(n); }
            h::stat("searches");
        }
        if (r.chance(1, 60)) full();
    }
    full();
    h::maxstat("max_size", m.size());
    h::stat("ops", nops);
    h::sig(s.v);
    h::sample("%s nodes, style %d, %d ops over %u keys, final size %zu", ptr ? "pointer" : "embedded", style, nops, range, m.size());
    size_t seen = 0;
    if (r.chance(1, 2)) {
        ravl_delete_cb(t, [](void *d, void *a) { ++*(size_t *)a; }, &seen);
        CHECK(seen == m.size(), "delete-cb", "delete callback ran %zu times for %zu elements", seen, m.size());
    } else
        ravl_delete(t);
    CHECK(ba::st.live_blocks == base_blocks - 1, "delete-leak", "%ld metadata blocks left", (long)(ba::st.live_blocks - base_blocks + 1));
    for (auto &kv : m) free(kv.second);
}
