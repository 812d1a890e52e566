// C19: a control query reaches exactly the node its path names, configuration
// texts are applied completely and in order, and everything else is an error
// that calls no handler, leaks nothing and damages nothing.
//
// The oracle is built before the query: the tree is generated, the path is
// walked through the model of it token by token, and every handler records
// what it was called with.
#include "h.hpp"
#include "provs.hpp"
#ifndef NO_BA
#include "ba.hpp"
#endif
#include <climits>
#include <umf.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
#include "ctl.h"
}
using namespace h;

// ------------------------------------------------------------------ handlers
struct Call {
    int id;
    int kind; // query type of the callback slot
    void *ctx;
    umf_ctl_query_source_t src;
    void *arg;
    std::string data; // what the argument holds
    std::vector<std::pair<std::string, long>> idx;
    std::string extra;
    umf_ctl_query_type_t type;
};
static std::vector<Call> calls;
static int result;                    // what the handlers return
static long fail_nth = -1;            // the n-th call fails
static std::function<size_t(int)> argsize; // of node id
static const int MAXID = 160;

static int handler(int id, int kind, void *ctx, umf_ctl_query_source_t src, void *arg, umf_ctl_index_utlist_t *ix,
                   const char *extra, umf_ctl_query_type_t type) {
    Call c;
    c.id = id;
    c.kind = kind;
    c.ctx = ctx;
    c.src = src;
    c.arg = arg;
    if (arg && argsize) {
        size_t n = argsize(id);
        if (n == SIZE_MAX)
            c.data = (char *)arg;
        else
            c.data.assign((char *)arg, n);
    }
    for (int k = 0; ix && k < 1000; ix = ix->next, k++)
        c.idx.push_back({ix->name ? ix->name : "(null)", ix->value});
    c.extra = extra ? extra : "";
    c.type = type;
    calls.push_back(c);
    if (fail_nth >= 0 && (long)calls.size() - 1 == fail_nth)
        return -1;
    return result;
}
template <int ID, int K>
int cb(void *ctx, umf_ctl_query_source_t s, void *a, umf_ctl_index_utlist_t *i, const char *e, umf_ctl_query_type_t t) {
    return handler(ID, K, ctx, s, a, i, e, t);
}
static node_callback cbs[MAXID][4];
template <int... I> static void fillcbs(std::integer_sequence<int, I...>) {
    ((cbs[I][0] = cb<I, 0>, cbs[I][1] = cb<I, 1>, cbs[I][2] = cb<I, 2>, cbs[I][3] = cb<I, 3>), ...);
}

// ------------------------------------------------------------------ trees
enum Field { FBOOL, FINT, FLL, FU8, FSTR };
struct ArgDef {
    std::vector<Field> f;
    std::vector<size_t> off, sz;
    size_t size = 0;
    struct ctl_argument *a = nullptr;
    ~ArgDef() { free(a); }
};
struct Node {
    std::string name;
    ctl_node_type type = CTL_NODE_NAMED;
    int id = -1;
    bool has[4] = {};
    std::unique_ptr<ArgDef> arg;
    std::vector<std::unique_ptr<Node>> kids;
    std::vector<umf_ctl_node_t> raw; // its children, ended
};
struct Tree {
    std::vector<std::unique_ptr<Node>> mods;
    std::vector<Node *> byid;
    struct ctl *c = nullptr;
    ~Tree() {
        if (c)
            ctl_delete(c);
    }
};
static std::string randname(Rng &r) {
    static const char *const words[] = {"debug", "heap", "stats", "params", "alloc", "a", "ab", "abc", "A", "log_level", "by_handle",
                                        "x-y", "peak_memory", "peak_memor", "peak", "inf", "nan", "e5", "_1", "provider", "pool"};
    if (r.chance(2, 3))
        return words[r.below(sizeof words / sizeof *words)];
    std::string s;
    size_t n = r.chance(1, 12) ? r.range(100, 600) : r.range(1, 12);
    for (size_t i = 0; i < n; i++)
        s += (char)((i && r.chance(1, 6)) ? '0' + r.below(10) : 'a' + r.below(26));
    return s;
}
static ArgDef *randarg(Rng &r) {
    ArgDef *d = new ArgDef;
    size_t n = r.chance(1, 2) ? 1 : r.range(1, 5);
    size_t off = 0;
    for (size_t i = 0; i < n; i++) {
        Field f = (Field)r.below(5);
        size_t sz = f == FBOOL || f == FINT ? 4 : f == FLL ? 8 : f == FU8 ? 1 : r.range(1, 40);
        size_t al = f == FSTR || f == FU8 ? 1 : sz;
        off = (off + al - 1) / al * al;
        if (r.chance(1, 4))
            off += 8 * r.below(3);
        d->f.push_back(f);
        d->off.push_back(off);
        d->sz.push_back(sz);
        off += sz;
    }
    d->size = off;
    d->a = (struct ctl_argument *)malloc(sizeof(struct ctl_argument) + (n + 1) * sizeof(struct ctl_argument_parser));
    d->a->dest_size = off;
    for (size_t i = 0; i <= n; i++) {
        if (i == n) {
            d->a->parsers[i] = CTL_ARG_PARSER_END;
            break;
        }
        ctl_arg_parser p = d->f[i] == FBOOL ? ctl_arg_boolean : d->f[i] == FSTR ? ctl_arg_string : ctl_arg_integer;
        d->a->parsers[i] = {d->off[i], d->sz[i], p};
    }
    return d;
}
static void gen(Rng &r, Tree &t, Node *n, int depth, bool conf) {
    size_t kids = r.chance(1, 10) ? 0 : r.range(1, depth ? 5 : 4);
    bool indexed = false;
    std::set<std::string> used;
    for (size_t i = 0; i < kids && t.byid.size() < (size_t)MAXID; i++) {
        auto k = std::make_unique<Node>();
        k->name = randname(r);
        if (!used.insert(k->name).second)
            continue;
        unsigned w = (unsigned)r.below(10);
        if (depth > 0 && w < 3)
            k->type = CTL_NODE_NAMED;
        else if (depth > 0 && w < 5 && !indexed) {
            k->type = CTL_NODE_INDEXED;
            k->name = "idx" + std::to_string(r.below(9));
            indexed = true;
        } else if (w < 7 && r.chance(1, 2))
            k->type = CTL_NODE_SUBTREE;
        else
            k->type = CTL_NODE_LEAF;
        k->id = (int)t.byid.size();
        t.byid.push_back(k.get());
        if (k->type == CTL_NODE_LEAF) {
            for (int q = 0; q < 3; q++)
                k->has[q] = r.chance(3, 5);
            if (conf && r.chance(2, 3))
                k->has[CTL_QUERY_WRITE] = true;
            if (k->has[CTL_QUERY_WRITE])
                k->arg.reset(randarg(r));
        } else if (k->type == CTL_NODE_SUBTREE)
            k->has[CTL_QUERY_SUBTREE] = true;
        else
            gen(r, t, k.get(), depth - 1, conf);
        n->kids.push_back(std::move(k));
    }
    // build
    for (auto &k : n->kids) {
        umf_ctl_node_t x;
        memset(&x, 0, sizeof x);
        x.name = k->name.c_str();
        x.type = k->type;
        for (int q = 0; q < 4; q++)
            x.cb[q] = k->has[q] ? cbs[k->id][q] : nullptr;
        x.arg = k->arg ? k->arg->a : nullptr;
        x.children = k->type == CTL_NODE_NAMED || k->type == CTL_NODE_INDEXED ? k->raw.data() : nullptr;
        n->raw.push_back(x);
    }
    umf_ctl_node_t end = CTL_NODE_END;
    n->raw.push_back(end);
}
static void mktree(Rng &r, Tree &t, bool conf) {
    t.c = ctl_new();
    if (!t.c)
        return;
    size_t n = r.chance(1, 15) ? r.range(20, 90) : r.range(1, 4);
    std::set<std::string> used = {"umf"};
    for (size_t i = 0; i < n; i++) {
        auto m = std::make_unique<Node>();
        m->name = randname(r);
        if (!used.insert(m->name).second)
            continue;
        m->id = -1;
        gen(r, t, m.get(), r.chance(1, 8) ? 9 : (int)r.range(0, 4), conf);
        t.mods.push_back(std::move(m));
        ctl_register_module_node(t.c, t.mods.back()->name.c_str(), (struct ctl_node *)t.mods.back()->raw.data());
    }
}

// ------------------------------------------------------------------ paths
struct Path {
    std::vector<std::string> tok;
    std::string str() const {
        std::string s;
        for (size_t i = 0; i < tok.size(); i++)
            s += (i ? "." : "") + tok[i];
        return s;
    }
};
static bool isnum(const std::string &s, long &v) { // canonical spellings only
    if (s.empty())
        return false;
    char *e;
    errno = 0;
    v = strtol(s.c_str(), &e, 0);
    return *e == 0 && errno == 0 && (isdigit((unsigned char)s[0]) || (s[0] == '-' && s.size() > 1));
}
static std::string numtok(Rng &r) {
    char b[40];
    switch (r.below(6)) {
    case 0:
        return std::to_string((int64_t)r.next() / 2);
    case 1:
        snprintf(b, sizeof b, "0x%lx", r.next() >> (1 + r.below(62)));
        return b;
    case 2:
        snprintf(b, sizeof b, "0%lo", r.next() >> (1 + r.below(62)));
        return b;
    case 3:
        return r.chance(1, 2) ? "9223372036854775807" : "-9223372036854775808";
    default:
        return std::to_string(r.below(100));
    }
}
struct Res { // what a path names
    Node *n = nullptr;
    std::vector<std::pair<std::string, long>> idx;
    std::string extra;
    bool judge_extra = false;
};
static Res resolve(Tree &t, const Path &p) {
    Res R;
    std::vector<std::unique_ptr<Node>> *lvl = &t.mods;
    Node *cur = nullptr;
    for (size_t i = 0; i < p.tok.size(); i++) {
        if (cur && cur->type == CTL_NODE_SUBTREE) {
            for (size_t j = i; j < p.tok.size(); j++)
                R.extra += (j > i ? "." : "") + p.tok[j];
            R.judge_extra = true;
            break;
        }
        if (!lvl)
            return Res();
        long v;
        bool num = isnum(p.tok[i], v);
        Node *f = nullptr;
        for (auto &k : *lvl)
            if (num ? k->type == CTL_NODE_INDEXED : k->type != CTL_NODE_INDEXED && k->name == p.tok[i]) {
                f = k.get();
                break;
            }
        if (!f)
            return Res();
        if (num)
            R.idx.insert(R.idx.begin(), {f->name, v});
        cur = f;
        lvl = f->type == CTL_NODE_LEAF || f->type == CTL_NODE_SUBTREE ? nullptr : &f->kids;
    }
    if (cur && (cur->type == CTL_NODE_LEAF || cur->type == CTL_NODE_SUBTREE))
        R.n = cur;
    else
        return Res();
    return R;
}
static Path randpath(Rng &r, Tree &t) {
    Path p;
    auto *lvl = &t.mods;
    while (lvl && !lvl->empty()) {
        Node *k = (*lvl)[r.below(lvl->size())].get();
        p.tok.push_back(k->type == CTL_NODE_INDEXED ? numtok(r) : k->name);
        if (k->type == CTL_NODE_SUBTREE) {
            for (size_t i = r.below(4); i--;)
                p.tok.push_back(r.chance(1, 3) ? numtok(r) : randname(r));
            break;
        }
        lvl = k->type == CTL_NODE_LEAF ? nullptr : &k->kids;
        if (r.chance(1, 40))
            break;
    }
    return p;
}
static void mutate(Rng &r, Path &p) {
    if (p.tok.empty()) {
        p.tok.push_back(randname(r));
        return;
    }
    size_t i = r.below(p.tok.size());
    switch (r.below(9)) {
    case 0:
        p.tok.erase(p.tok.begin() + i);
        break;
    case 1:
        p.tok.insert(p.tok.begin() + i, randname(r));
        break;
    case 2:
        p.tok.push_back(r.chance(1, 2) ? numtok(r) : randname(r));
        break;
    case 3:
        p.tok[i] = randname(r);
        break;
    case 4:
        p.tok[i] = numtok(r);
        break;
    case 5: // a prefix
        if (p.tok[i].size() > 1 && !isdigit((unsigned char)p.tok[i][0]) && p.tok[i][0] != '-')
            p.tok[i].pop_back();
        break;
    case 6: // an extension
        if (!isdigit((unsigned char)p.tok[i][0]) && p.tok[i][0] != '-')
            p.tok[i] += r.chance(1, 2) ? "s" : "1";
        break;
    case 7: // case
        for (char &c : p.tok[i])
            if (isalpha((unsigned char)c) && !isdigit((unsigned char)p.tok[i][0]) && p.tok[i][0] != '-') {
                c ^= 0x20;
                break;
            }
        break;
    case 8:
        std::swap(p.tok[i], p.tok[r.below(p.tok.size())]);
    }
}
struct Meta {
#ifndef NO_BA
    long b = ba::st.live_blocks;
    void same(const char *what, const std::string &q) {
        CHECK(ba::st.live_blocks == b, "C19:leak", "%s leaves %ld metadata blocks: %.200s", what, (long)(ba::st.live_blocks - b),
              q.c_str());
        b = ba::st.live_blocks;
    }
#else
    void same(const char *, const std::string &) {}
#endif
};
static std::string istr(const std::vector<std::pair<std::string, long>> &v) {
    std::string s;
    for (auto &x : v)
        s += x.first.substr(0, 30) + "=" + std::to_string(x.second) + " ";
    return s;
}
static const char *const tname[] = {"read", "write", "run", "subtree"};

// ------------------------------------------------------------------ query
static void queries(Rng &r) {
    Tree t;
    mktree(r, t, false);
    if (!t.c)
        return;
    argsize = nullptr;
    Sig sg;
    int steps = (int)r.range(10, 60);
    Meta m;
    for (int s = 0; s < steps; s++) {
        Path p = randpath(r, t);
        for (int k = r.chance(1, 2) ? 0 : (int)r.range(1, 3); k--;)
            mutate(r, p);
        std::string q = p.str();
        auto type = (umf_ctl_query_type_t)r.below(3);
        Res R = resolve(t, p);
        char argbuf[8];
        void *arg = r.chance(1, 12) ? nullptr : argbuf, *ctx = r.chance(1, 8) ? nullptr : (void *)(uintptr_t)(r.next() | 1);
        int slot = R.n ? (R.n->type == CTL_NODE_SUBTREE ? (int)CTL_QUERY_SUBTREE : (int)type) : 0;
        bool expect = R.n && R.n->has[slot];
        if (expect && !arg && (slot == CTL_QUERY_READ || slot == CTL_QUERY_WRITE))
            expect = false;
        result = r.chance(1, 5) ? -1 : 0;
        calls.clear();
        label("query %s", tname[type]);
        int rc = ctl_query(t.c, ctx, CTL_QUERY_PROGRAMMATIC, q.c_str(), type, arg);
        cnt("queries");
        m.same("a query", q);
        if (!expect) {
            cnt("not_found");
            if (rc == 0 || !calls.empty())
                viol("C19:reached", "%s of '%.200s' names nothing usable but returns %d and calls %zu handlers", tname[type], q.c_str(), rc,
                     calls.size());
            continue;
        }
        cnt(slot == CTL_QUERY_SUBTREE ? "found_subtree" : R.idx.empty() ? "found_leaf" : "found_indexed");
        sg.add(R.n->id * 8 + slot).add(R.idx.size());
        if (calls.size() != 1) {
            viol("C19:not-reached", "%s of '%.200s' calls %zu handlers and returns %d", tname[type], q.c_str(), calls.size(), rc);
            continue;
        }
        Call &c = calls[0];
        CHECK(c.id == R.n->id && c.kind == slot, "C19:wrong-node", "%s of '%.200s' reaches %s of '%s' instead of %s of '%s'", tname[type],
              q.c_str(), tname[c.kind], t.byid[c.id]->name.c_str(), tname[slot], R.n->name.c_str());
        CHECK(c.ctx == ctx && c.arg == arg && c.src == CTL_QUERY_PROGRAMMATIC, "C19:args", "'%.200s': context, argument or source differ",
              q.c_str());
        CHECK(c.idx == R.idx, "C19:indexes", "'%.200s': the handler sees the indexes %s instead of %s", q.c_str(), istr(c.idx).c_str(),
              istr(R.idx).c_str());
        if (slot == CTL_QUERY_SUBTREE) {
            CHECK(c.type == type, "C19:subtree-type", "'%.200s': the subtree sees query type %d instead of %d", q.c_str(), c.type, type);
            if (R.judge_extra)
                CHECK(c.extra == R.extra, "C19:subtree-name", "'%.200s': the subtree sees '%.100s' instead of '%.100s'", q.c_str(),
                      c.extra.c_str(), R.extra.c_str());
        }
        CHECK(rc == result, "C19:result", "'%.200s': the handler returned %d, the query %d", q.c_str(), result, rc);
    }
    // anything at all must be survivable
    for (int s = 0; s < 6; s++) {
        std::string q;
        static const char al[] = "..=;,#0189xabe-+ \n_%sn\xff\x80";
        for (size_t n = r.logsize(3000); n--;)
            q += r.chance(1, 30) && !t.mods.empty() ? t.mods[r.below(t.mods.size())]->name : std::string(1, al[r.below(sizeof al - 1)]);
        calls.clear();
        label("query of garbage");
        char argbuf[8];
        ctl_query(t.c, t.c, CTL_QUERY_PROGRAMMATIC, q.c_str(), (umf_ctl_query_type_t)r.below(3), argbuf);
        m.same("garbage", q);
        cnt("garbage");
    }
    CHECK(ctl_query(t.c, nullptr, CTL_QUERY_PROGRAMMATIC, nullptr, CTL_QUERY_READ, t.c) != 0, "C19:null", "a query of NULL succeeds");
    sig(sg.v);
}

// ------------------------------------------------------------------ configuration texts
struct Val {
    std::string text, data;
    bool ok;
};
static Val field(Rng &r, Field f, size_t sz, bool want) {
    Val v;
    v.ok = want;
    if (f == FBOOL) {
        static const char *const y[] = {"y", "Y", "1", "yes"}, *const n[] = {"n", "N", "0", "no"};
        bool b = r.chance(1, 2);
        v.text = b ? y[r.below(4)] : n[r.below(4)];
        int i = b;
        v.data.assign((char *)&i, 4);
        if (!want) {
            static const char *const bad[] = {"2", "t", "-1", "maybe", "9", "ok"};
            v.text = bad[r.below(6)];
        }
        return v;
    }
    if (f == FSTR) {
        size_t n = want ? r.range(1, sz > 1 ? sz - 1 : 1) : sz + r.below(20);
        if (r.chance(1, 3))
            n = want ? sz - 1 : sz;
        if (sz == 1)
            n = std::max<size_t>(n, 1);
        for (size_t i = 0; i < n; i++)
            v.text += (char)("abcXYZ019_-.+/:"[r.below(15)]);
        if (v.text.size() >= sz)
            v.ok = false; // nothing but an empty text fits
        v.data = v.text;
        v.data.resize(sz);
        return v;
    }
    long long lo = f == FINT ? INT_MIN : f == FU8 ? 0 : -LLONG_MAX, hi = f == FINT ? INT_MAX : f == FU8 ? 255 : LLONG_MAX;
    char b[64];
    if (want) {
        long long x = r.chance(1, 4)   ? lo
                      : r.chance(1, 4) ? hi
                      : r.chance(1, 2) ? (long long)r.below(100)
                                       : lo + (long long)(r.next() % ((unsigned long long)hi - (unsigned long long)lo + 1 ? (unsigned long long)hi - (unsigned long long)lo + 1 : 1));
        const char *fm = x >= 0 ? (r.chance(1, 5) ? "0x%llx" : r.chance(1, 5) ? "0%llo" : "%lld") : "%lld";
        snprintf(b, sizeof b, fm, x);
        v.text = b;
        if (f == FINT) {
            int i = (int)x;
            v.data.assign((char *)&i, 4);
        } else if (f == FU8)
            v.data.assign(1, (char)(unsigned char)x);
        else
            v.data.assign((char *)&x, 8);
        return v;
    }
    switch (r.below(4)) {
    case 0:
        v.text = "abc";
        break;
    case 1:
        v.text = f == FLL ? "9223372036854775808" : f == FINT ? "2147483648" : "256";
        break;
    case 2:
        v.text = f == FLL ? "-9223372036854775809" : f == FINT ? "-2147483649" : "-1";
        break;
    default:
        v.text = f == FLL ? "99999999999999999999999" : f == FINT ? (r.chance(1, 2) ? "4294967297" : "-99999999999") : (r.chance(1, 2) ? "257" : "4294967296");
    }
    return v;
}
struct Exp {
    Node *n;
    std::vector<std::pair<std::string, long>> idx;
    std::string extra, data; // data: fields one after the other
};
static void configs(Rng &r, bool file) {
    Tree t;
    mktree(r, t, true);
    if (!t.c || t.mods.empty())
        return;
    argsize = [&](int id) { return t.byid[id]->arg ? t.byid[id]->arg->size : t.byid[id]->type == CTL_NODE_SUBTREE ? SIZE_MAX : 0; };
    result = 0;
    Sig sg;
    for (int round = 0; round < 8; round++) {
        void *ctx = r.chance(1, 5) ? nullptr : (void *)(uintptr_t)(r.next() | 1);
        bool clean = r.chance(1, 2); // nothing is wrong with it
        size_t n = r.chance(1, 20) ? r.range(50, 400) : r.below(8);
        std::string text;
        std::vector<Exp> exp;
        int want = 0;
        bool stopped = false;
        fail_nth = clean || r.chance(3, 4) ? -1 : (long)r.below(6);
        for (size_t i = 0; i < n; i++) {
            Path p;
            Res R;
            for (int tries = 0; tries < 40; tries++) {
                p = randpath(r, t);
                if (!clean && r.chance(1, 8))
                    mutate(r, p);
                // '=' ';' ',' and white space do not occur in tokens
                R = resolve(t, p);
                bool okw = R.n && (R.n->type == CTL_NODE_SUBTREE ? R.judge_extra : R.n->has[CTL_QUERY_WRITE]);
                if (okw || (!clean && !p.tok.empty() && r.chance(1, 10)))
                    break;
            }
            bool good = R.n && R.n->has[R.n->type == CTL_NODE_SUBTREE ? CTL_QUERY_SUBTREE : CTL_QUERY_WRITE];
            if (R.n && R.n->type == CTL_NODE_SUBTREE && !R.judge_extra)
                continue; // what the subtree is told then is not judged
            if ((clean && !good) || p.tok.empty())
                continue;
            std::string val, data;
            bool valok = true;
            if (good && R.n->arg) {
                auto &A = *R.n->arg;
                bool bad = !clean && r.chance(1, 8);
                size_t badat = r.below(A.f.size());
                bool missing = bad && r.chance(1, 4) && A.f.size() > 1;
                for (size_t k = 0; k < (missing ? A.f.size() - 1 : A.f.size()); k++) {
                    Val v = field(r, A.f[k], A.sz[k], !(bad && !missing && k == badat));
                    valok = valok && v.ok;
                    val += (k ? "," : "") + v.text;
                    data += v.data;
                }
                if (missing)
                    valok = false;
            } else
                val = r.chance(1, 2) ? std::to_string(r.below(1000)) : "v" + std::to_string(r.below(1000)) + (r.chance(1, 3) ? ",2" : "");
            if (clean && !valok)
                continue;
            std::string q = p.str() + "=" + val;
            bool malformed = false;
            if (!clean && r.chance(1, 25)) {
                malformed = true;
                switch (r.below(4)) {
                case 0:
                    q = p.str();
                    break;
                case 1:
                    q = p.str() + "=";
                    break;
                case 2:
                    q = "=" + val;
                    break;
                default:
                    q += "=1";
                }
            }
            if (!text.empty() || r.chance(1, 10))
                text += r.chance(1, 12) ? ";;" : ";";
            text += q;
            if (stopped)
                continue;
            if (malformed) {
                stopped = true;
                want = -1;
                cnt("malformed");
                continue;
            }
            bool ok = good && valok;
            if (ok) {
                exp.push_back({R.n, R.idx, R.extra, R.n->type == CTL_NODE_SUBTREE ? val : data});
                if (fail_nth >= 0 && (long)exp.size() - 1 == fail_nth)
                    ok = false;
            } else
                cnt(good ? "bad_values" : "bad_paths");
            if (!ok && ctx) {
                stopped = true;
                want = -1;
            }
        }
        if (!text.empty() && r.chance(1, 2))
            text += ";";
        calls.clear();
        Meta m;
        int rc;
        if (!file) {
            label("configuration string");
            rc = ctl_load_config_from_string(t.c, ctx, text.c_str());
            cnt("strings");
        } else {
            std::string body;
            size_t pad = r.chance(1, 30) ? (1u << 20) : 0;
            for (char c : text) {
                while (r.chance(1, 12))
                    body += " \t\n\r\v\f"[r.below(6)];
                if (r.chance(1, 25)) {
                    body += "#";
                    for (size_t k = r.below(30); k--;)
                        body += (char)("#=;., abc01\t"[r.below(12)]);
                    body += "\n";
                }
                body += c;
            }
            bool toobig = false;
            if (pad && body.size() + 2 < pad) { // exactly the largest file, or one more
                toobig = r.chance(1, 2);
                body += "\n#";
                body.resize(pad + toobig, '=');
            }
            const char *sc = getenv("VERIF_SCRATCH");
            std::string fn = std::string(sc ? sc : "/tmp") + "/conf" + std::to_string(getpid());
            FILE *f = fopen(fn.c_str(), "w");
            if (!f || fwrite(body.data(), 1, body.size(), f) != body.size())
                exit(77);
            fclose(f);
            int f0 = openFds();
            label("configuration file");
            rc = ctl_load_config_from_file(t.c, ctx, fn.c_str());
            CHECK(openFds() == f0, "C19:leak-fd", "a configuration file stays open");
            unlink(fn.c_str());
            cnt("files");
            if (toobig) {
                cnt("files_too_big");
                exp.clear();
                want = -1;
            }
            if (r.chance(1, 10)) {
                size_t c0 = calls.size();
                static const char *const odd[] = {"/proc/self/status", "/proc/cpuinfo", "/dev/zero", "/dev/urandom", "/proc/self/maps"};
                const char *o = odd[r.below(5)];
                label("configuration file %s", o);
                std::vector<Call> keep = calls;
                ctl_load_config_from_file(t.c, ctx, o); // its size is not known in advance
                calls = keep;
                c0 = calls.size();
                CHECK(ctl_load_config_from_file(t.c, ctx, fn.c_str()) == -1 && ctl_load_config_from_file(t.c, ctx, "/tmp") == -1 && ctl_load_config_from_file(t.c, ctx, "/proc/self/") == -1 &&
                          calls.size() == c0,
                      "C19:file", "a missing file or a directory is accepted as configuration");
            }
        }
        m.same("a configuration", text);
        CHECK(rc == want, "C19:config-result", "loading the configuration returns %d instead of %d: %.400s", rc, want, text.c_str());
        if (calls.size() != exp.size()) {
            viol("C19:config-count", "%zu of %zu settings are applied: %.400s", calls.size(), exp.size(), text.c_str());
            continue;
        }
        for (size_t i = 0; i < calls.size(); i++) {
            Call &c = calls[i];
            Exp &e = exp[i];
            bool sub = e.n->type == CTL_NODE_SUBTREE;
            CHECK(c.id == e.n->id && c.kind == (sub ? CTL_QUERY_SUBTREE : CTL_QUERY_WRITE), "C19:config-node",
                  "setting %zu reaches the wrong node: %.400s", i, text.c_str());
            if (c.id != e.n->id)
                break;
            CHECK(c.ctx == ctx && c.src == CTL_QUERY_CONFIG_INPUT && c.idx == e.idx, "C19:config-args",
                  "setting %zu: context, source or indexes differ: %.400s", i, text.c_str());
            std::string got = c.data;
            if (!sub) {
                got.clear();
                for (size_t k = 0; k < e.n->arg->f.size(); k++)
                    got += c.data.substr(e.n->arg->off[k], e.n->arg->sz[k]);
            } else
                CHECK(c.extra == e.extra, "C19:subtree-name", "setting %zu: the subtree sees '%.100s' instead of '%.100s'", i, c.extra.c_str(),
                      e.extra.c_str());
            CHECK(got == e.data, "C19:config-value", "setting %zu delivers another value: %.400s", i, text.c_str());
            cnt("settings");
            sg.add(c.id).add(c.data.size());
        }
        fail_nth = -1;
    }
    // garbage
    for (int s = 0; s < 4; s++) {
        std::string q;
        static const char al[] = "..==;;,,#0189xabe-+ \n_%sn\xff\x80";
        for (size_t n = r.logsize(3000); n--;)
            q += r.chance(1, 10) ? randpath(r, t).str() : std::string(1, al[r.below(sizeof al - 1)]);
        Meta m;
        label("configuration of garbage");
        ctl_load_config_from_string(t.c, r.chance(1, 2) ? t.c : nullptr, q.c_str());
        m.same("garbage", q);
        cnt("garbage");
    }
    sig(sg.v);
}

// ------------------------------------------------------------------ public functions
struct CtlSeen {
    std::mutex mu;
    void *priv = nullptr;
    std::string name;
    void *arg = nullptr;
    umf_ctl_query_type_t type{};
    int n = 0;
    umf_result_t rc = UMF_RESULT_SUCCESS;
};
struct CProv : pv::Prov {
    CtlSeen seen;
};
static umf_result_t provctl(void *p, int, const char *n, void *arg, umf_ctl_query_type_t t) {
    CtlSeen &s = static_cast<CProv *>((pv::Prov *)p)->seen;
    std::lock_guard<std::mutex> g(s.mu);
    s.n++;
    s.priv = p;
    s.name = n;
    s.arg = arg;
    s.type = t;
    return s.rc;
}
static CtlSeen poolseen;
static umf_result_t poolctl(void *p, int, const char *n, void *arg, umf_ctl_query_type_t t) {
    CtlSeen &s = poolseen;
    std::lock_guard<std::mutex> g(s.mu);
    s.n++;
    s.priv = p;
    s.name = n;
    s.arg = arg;
    s.type = t;
    return s.rc;
}
static umf_result_t query(int k, const char *n, void *ctx, void *arg) {
    return k == 0 ? umfCtlGet(n, ctx, arg) : k == 1 ? umfCtlSet(n, ctx, arg) : umfCtlExec(n, ctx, arg);
}
static umf_memory_provider_handle_t osprov(bool shared) {
    umf_os_memory_provider_params_handle_t p = nullptr;
    umf_memory_provider_handle_t h = nullptr;
    umfOsMemoryProviderParamsCreate(&p);
    if (shared)
        umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
    umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &h);
    umfOsMemoryProviderParamsDestroy(p);
    return h;
}
static void api(Rng &r) {
    CProv P;
    P.arena = 1 << 20;
    P.start();
    umf_memory_provider_ops_t ops = *pv::ops(true, true), bare = ops;
    ops.ctl = provctl;
    bare.ctl = nullptr;
    umf_memory_provider_handle_t pr = nullptr, pb = nullptr, po = nullptr, ps = nullptr;
    umfMemoryProviderCreate(&ops, (pv::Prov *)&P, &pr);
    umfMemoryProviderCreate(&bare, (pv::Prov *)&P, &pb);
    po = osprov(false);
    ps = osprov(true);
    umf_memory_pool_ops_t pops = *pv::passOps();
    pops.ctl = poolctl;
    pv::PassPool pass1, pass2;
    umf_memory_pool_handle_t plq = nullptr, plb = nullptr, scal[2] = {nullptr, nullptr};
    umf_memory_pool_ops_t pbare = *pv::passOps();
    pbare.ctl = nullptr;
    umfPoolCreate(&pops, pr, &pass1, 0, &plq);
    umfPoolCreate(&pbare, pr, &pass2, 0, &plb);
#ifndef VARIANT_SCHED
    umf_scalable_pool_params_handle_t sp = nullptr;
    umfScalablePoolParamsCreate(&sp);
    for (int k = 0; k < 2; k++)
        umfPoolCreate(umfScalablePoolOps(), po, sp, k ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0, &scal[k]);
    umfScalablePoolParamsDestroy(sp);
#endif
    if (!pr || !pb || !po || !ps || !plq || !plb) {
        viol("C19:setup", "creation fails");
        return;
    }
    Meta m;
    Sig sg;
    for (int s = 0; s < 40; s++) {
        int k = (int)r.below(3);
        char arg[64];
        memset(arg, 0x5a, sizeof arg);
        std::string rest;
        for (size_t i = r.range(1, 5); i--;)
            rest += (r.chance(1, 4) ? numtok(r) : randname(r)) + (i ? "." : "");
        bool pool = r.chance(1, 2);
        std::string q = std::string("umf.") + (pool ? "pool" : "provider") + ".by_handle." + rest;
        CtlSeen &S = pool ? poolseen : P.seen;
        P.seen.n = poolseen.n = 0;
        static const umf_result_t codes[] = {UMF_RESULT_SUCCESS, UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_NOT_SUPPORTED,
                                             UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY};
        S.rc = codes[r.below(5)];
        void *h = pool ? (void *)plq : (void *)pr;
        label("public query by handle");
        unsigned w = (unsigned)r.below(10);
        umf_result_t rc;
        if (w < 5) {
            rc = query(k, q.c_str(), h, arg);
            CHECK((rc == UMF_RESULT_SUCCESS) == (S.rc == UMF_RESULT_SUCCESS), "C19:api-result", "'%.200s': the handler returned %d, the query %d",
                  q.c_str(), S.rc, rc);
            CHECK(P.seen.n + poolseen.n == 1 && S.n == 1 && S.priv == (pool ? (void *)plq : (void *)(pv::Prov *)&P) && S.arg == arg &&
                      S.name == rest && (int)S.type == k,
                  "C19:api-forward", "'%.200s' reaches the %s %d times as '%.100s' with type %d", q.c_str(), pool ? "pool" : "provider", S.n,
                  S.name.c_str(), S.type);
            cnt("api_forwarded");
            sg.add(k).add(pool);
        } else if (w < 7) { // paths that name nothing
            static const char *const bad[] = {"",          ".",     "umf",       "umf.",         "umf.provider",   "umf.pool",
                                              "provider",  "by_handle", "umf.by_handle", "umf.provider.by_handl", "umf.pool.by_handles.x",
                                              "umf.provider.by_handle2.x", "Umf.provider.by_handle.x", "umf.5.by_handle.x", "0", "umf.pool.0",
                                              "umf.provider.default", "umf.umf.provider.by_handle.x"};
            const char *b = bad[r.below(sizeof bad / sizeof *bad)];
            rc = query(k, b, h, arg);
            CHECK(rc != UMF_RESULT_SUCCESS && P.seen.n + poolseen.n == 0, "C19:reached", "'%s' returns %d and calls %d handlers", b, rc,
                  P.seen.n + poolseen.n);
            cnt("not_found");
        } else if (w < 8) { // missing arguments
            umf_result_t a = query(k, nullptr, h, arg), b = query(k, q.c_str(), nullptr, arg), c = query(k, q.c_str(), h, nullptr);
            CHECK(a == UMF_RESULT_ERROR_INVALID_ARGUMENT && b == a && c == a && P.seen.n + poolseen.n == 0, "C19:api-null",
                  "a missing argument gives %d %d %d", a, b, c);
            cnt("not_found");
        } else if (w < 9) { // objects without handlers
            rc = query(k, q.c_str(), pool ? (void *)plb : (void *)pb, arg);
            CHECK(rc != UMF_RESULT_SUCCESS, "C19:reached", "an object without control functions accepts '%.100s'", q.c_str());
            cnt("not_found");
        } else { // built-in trees
            bool sh = r.chance(1, 2);
            static const char *const ros[] = {"umf.provider.by_handle.params.ipc_enabled", "umf.provider.by_handle.stats.allocated_memory",
                                              "umf.provider.by_handle.stats.peak_memory"};
            int i = (int)r.below(3);
            rc = query(k, ros[i], sh ? ps : po, arg);
            CHECK((rc == UMF_RESULT_SUCCESS) == (k == 0), "C19:access", "%s: query of kind %d gives %d", ros[i], k, rc);
            if (k == 0 && i == 0)
                CHECK(*(int *)arg == (int)sh, "C19:value", "%s = %d", ros[i], *(int *)arg);
            static const char all5a[64] = {0x5a};
            (void)all5a;
            bool touched = false;
            for (size_t j = k == 0 ? 8 : 0; j < sizeof arg; j++)
                touched |= arg[j] != 0x5a;
            CHECK(!touched, "C19:overrun", "%s: bytes of the argument that do not belong to the value change", ros[i]);
            static const char *const bad[] = {
                "umf.provider.by_handle.params", "umf.provider.by_handle.stats.allocated", "umf.provider.by_handle.stats.peak_memory.x",
                "umf.provider.by_handle.tracking_enabled", "umf.provider.by_handle.params.tracking_enabled",
                "umf.provider.by_handle.stats", "umf.provider.by_handle.params.0", "umf.provider.by_handle.5.peak_memory",
                // the tree of a provider does not lead back to the tree of the library
                "umf.provider.by_handle.umf.provider.by_handle.stats.peak_memory",
                "umf.provider.by_handle.umf.pool.by_handle.params.tracking_enabled"};
            const char *b = bad[r.below(sizeof bad / sizeof *bad)];
            label("unknown name of a built-in provider");
            rc = query(k, b, sh ? ps : po, arg);
            CHECK(rc != UMF_RESULT_SUCCESS, "C19:reached", "'%s' returns %d", b, rc);
            rc = umfCtlExec("umf.provider.by_handle.stats.reset", po, arg);
            CHECK(rc == UMF_RESULT_SUCCESS, "C19:access", "stats.reset = %d", rc);
            CHECK(umfCtlGet("umf.provider.by_handle.stats.reset", po, arg) != UMF_RESULT_SUCCESS &&
                      umfCtlSet("umf.provider.by_handle.stats.reset", po, arg) != UMF_RESULT_SUCCESS,
                  "C19:access", "stats.reset can be read or written");
            for (int z = 0; z < 2; z++)
                if (scal[z]) {
                    memset(arg, 0x5a, sizeof arg);
                    rc = query(k, "umf.pool.by_handle.params.tracking_enabled", scal[z], arg);
                    CHECK((rc == UMF_RESULT_SUCCESS) == (k == 0), "C19:access", "tracking_enabled: query of kind %d gives %d", k, rc);
                    if (k == 0)
                        CHECK(*(int *)arg == !z, "C19:value", "tracking_enabled = %d of a pool created %s tracking", *(int *)arg,
                              z ? "without" : "with");
                    static const char *const badp[] = {"umf.pool.by_handle.params.ipc_enabled", "umf.pool.by_handle.params.tracking_enabled.1",
                                                       "umf.pool.by_handle.umf.pool.by_handle.params.tracking_enabled",
                                                       "umf.pool.by_handle.umf.provider.by_handle.stats.peak_memory"};
                    b = badp[r.below(4)];
                    label("unknown name of a built-in pool");
                    rc = query(k, b, scal[z], arg);
                    CHECK(rc != UMF_RESULT_SUCCESS, "C19:reached", "'%s' returns %d", b, rc);
                }
            cnt("api_builtin");
        }
        m.same("a public query", q);
    }
    umfPoolDestroy(plq);
    umfPoolDestroy(plb);
    for (auto p : scal)
        if (p)
            umfPoolDestroy(p);
    umfMemoryProviderDestroy(pr);
    umfMemoryProviderDestroy(pb);
    umfMemoryProviderDestroy(po);
    umfMemoryProviderDestroy(ps);
    sig(sg.v);
}

// ------------------------------------------------------------------ several threads
static void threads(Rng &r) {
    umfTearDown(); // so that the trees are built again, by several threads
    umfInit();
    umf_memory_provider_handle_t shared = osprov(true);
    size_t sz = 4096 * r.range(1, 8);
    void *keep = nullptr;
    umfMemoryProviderAlloc(shared, sz, 0, &keep);
    int nt = (int)r.range(2, 5);
    std::vector<std::thread> th;
    std::atomic<int> go{0};
    uint64_t seed = r.next();
    for (int i = 0; i < nt; i++)
        th.emplace_back([&, i] {
            Rng q(mix(seed, i));
            go++;
            while (go < nt)
                ;
            umf_memory_provider_handle_t own = osprov(i & 1);
            for (int s = 0; s < 15; s++) {
                progress();
                char arg[16] = {0};
                size_t v = 0;
                int f = 7;
                switch (q.below(5)) {
                case 0:
                    CHECK(umfCtlGet("umf.provider.by_handle.params.ipc_enabled", own, &f) == UMF_RESULT_SUCCESS && f == (i & 1), "C19:value",
                          "ipc_enabled = %d in thread %d", f, i);
                    break;
                case 1:
                    CHECK(umfCtlGet("umf.provider.by_handle.stats.allocated_memory", shared, &v) == UMF_RESULT_SUCCESS && v == sz, "C19:value",
                          "allocated_memory = %zu instead of %zu", v, sz);
                    break;
                case 2:
                    CHECK(umfCtlGet("umf.provider.by_handle.stats.peak_memory", shared, &v) == UMF_RESULT_SUCCESS && v == sz, "C19:value",
                          "peak_memory = %zu instead of %zu", v, sz);
                    break;
                case 3: {
                    void *p = nullptr;
                    size_t n = 4096 * q.range(1, 4);
                    if (umfMemoryProviderAlloc(own, n, 0, &p) == UMF_RESULT_SUCCESS) {
                        CHECK(umfCtlGet("umf.provider.by_handle.stats.allocated_memory", own, &v) == UMF_RESULT_SUCCESS && v == n,
                              "C19:value", "allocated_memory = %zu instead of %zu", v, n);
                        umfMemoryProviderFree(own, p, n);
                        umfCtlExec("umf.provider.by_handle.stats.reset", own, arg);
                        CHECK(umfCtlGet("umf.provider.by_handle.stats.peak_memory", own, &v) == UMF_RESULT_SUCCESS && v == 0, "C19:value",
                              "peak_memory = %zu after a reset", v);
                    }
                    break;
                }
                default:
                    CHECK(umfCtlGet("umf.provider.by_handle.stats.nothing", shared, arg) != UMF_RESULT_SUCCESS, "C19:reached",
                          "an unknown name is found");
                }
                cnt("queries");
                cnt("mt_queries");
            }
            umfMemoryProviderDestroy(own);
        });
    for (auto &t : th)
        t.join();
    umfMemoryProviderFree(shared, keep, sz);
    umfMemoryProviderDestroy(shared);
    sig(seed);
}

void run_case(uint64_t, Rng &r) {
    calls.clear();
    fail_nth = -1;
    result = 0;
    const std::string &m = ctx().mode;
    if (m == "query")
        queries(r);
    else if (m == "config")
        configs(r, false);
    else if (m == "file")
        configs(r, true);
    else if (m == "api")
        api(r);
    else
        threads(r);
}
void harness_begin() {
    fillcbs(std::make_integer_sequence<int, MAXID>());
    // load what is loaded on first use
    umf_memory_provider_handle_t p = osprov(false);
    size_t v;
    umfCtlGet("umf.provider.by_handle.stats.peak_memory", p, &v);
    umfMemoryProviderDestroy(p);
}
void harness_end() {}
