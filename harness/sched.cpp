#include "sched.hpp"
#include <linux/futex.h>
#include <pthread.h>
#include <cerrno>
#include <sys/syscall.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
}

namespace sched {
static thread_local int tid = -1;
static thread_local int nopreempt = 0;
struct Th {
    int state; // 0 runnable 1 blocked 2 finished
    void *on;
    int prio;
    uint32_t futex;
};
static Th th[64];
static int nth, cur;
static h::Rng rng;
static Params par;
static Result res;
static int64_t budget;
static std::vector<uint64_t> changepts;
static size_t nextchange;
static std::atomic<uint64_t> clk{1};
static std::atomic<uint32_t> alldone;
static bool active;

static void fwait(uint32_t *f, uint32_t v) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) != v)
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, __atomic_load_n(f, __ATOMIC_ACQUIRE) == v ? !v : 0, 0, 0, 0);
}
static void fwake(uint32_t *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

uint64_t now() { return clk.fetch_add(1); }
int self() { return tid; }

static int64_t draw() {
    if (par.policy == PCT)
        return 1;
    // geometric with the given mean
    uint64_t m = par.mean;
    return 1 + (int64_t)rng.below(2 * m);
}

static int choose(bool mustswitch) {
    int cand[64], n = 0;
    for (int i = 0; i < nth; i++)
        if (th[i].state == 0 && !(mustswitch && i == cur))
            cand[n++] = i;
    if (!n)
        return -1;
    if (par.policy == PCT) {
        int b = cand[0];
        for (int i = 1; i < n; i++)
            if (th[cand[i]].prio > th[b].prio)
                b = cand[i];
        return b;
    }
    return cand[rng.below(n)];
}

static void switch_to(int t) {
    int me = tid;
    if (t == me)
        return;
    int err = errno; // a step hidden between a system call and the look at errno must not change it
    res.switches++;
    res.hash = h::mix(res.hash, res.steps * 64 + t);
    cur = t;
    th[me].futex = 0;
    fwake(&th[t].futex);
    if (th[me].state != 2)
        fwait(&th[me].futex, 1);
    errno = err;
}

static void dead(const char *why) {
    nopreempt = 1;
    h::viol(why, "no runnable thread: threads wait for each other (step %lu)", res.steps);
    char b[64];
    // cannot unwind threads that are blocked: end the process, the runner goes on
    fflush(stdout);
    _exit(3);
}

static inline void step() {
    if (tid < 0 || nopreempt)
        return;
    res.steps++;
    if (res.steps > par.max_steps) {
        nopreempt = 1;
        h::viol("livelock", "no completion after %lu steps", res.steps);
        fflush(stdout);
        _exit(3);
    }
    if (par.policy == PCT) {
        if (nextchange < changepts.size() && res.steps >= changepts[nextchange]) {
            th[tid].prio = -(int)nextchange - 1;
            nextchange++;
            int t = choose(false);
            if (t >= 0)
                switch_to(t);
        } else if (res.steps % 20000 == 0) { // fairness for spin loops
            th[tid].prio = -100 - (int)(res.steps / 20000);
            int t = choose(false);
            if (t >= 0)
                switch_to(t);
        }
        return;
    }
    if (--budget > 0)
        return;
    budget = draw();
    int t = choose(false);
    if (t >= 0)
        switch_to(t);
}
void point() { step(); }

static void block_on(void *o) {
    th[tid].state = 1;
    th[tid].on = o;
    res.blocked_waits++;
    int t = choose(true);
    if (t < 0)
        dead("deadlock");
    switch_to(t);
}
static void wake(void *o) {
    for (int i = 0; i < nth; i++)
        if (th[i].state == 1 && th[i].on == o) {
            th[i].state = 0;
            th[i].on = nullptr;
        }
}

Params random_params(h::Rng &r) {
    Params p;
    if (r.chance(1, 2)) {
        static const unsigned ms[] = {1, 3, 8, 20, 60, 200, 600};
        p.policy = RANDOM_WALK;
        p.mean = ms[r.below(7)];
    } else {
        p.policy = PCT;
        p.changes = 1 + r.below(5);
        static const uint64_t hs[] = {100, 300, 1000, 3000, 10000};
        p.horizon = hs[r.below(5)];
    }
    return p;
}

Result run(std::vector<std::function<void()>> bodies, uint64_t seed, const Params &p) {
    rng = h::Rng(seed);
    par = p;
    res = Result();
    nth = (int)bodies.size();
    budget = draw();
    changepts.clear();
    nextchange = 0;
    for (int i = 0; i < nth; i++)
        th[i] = Th{0, nullptr, 0, 0};
    if (p.policy == PCT) {
        std::vector<int> pr;
        for (int i = 0; i < nth; i++)
            pr.push_back(i + 1);
        for (int i = nth - 1; i > 0; i--)
            std::swap(pr[i], pr[rng.below(i + 1)]);
        for (int i = 0; i < nth; i++)
            th[i].prio = pr[i];
        for (unsigned i = 0; i < p.changes; i++)
            changepts.push_back(1 + rng.below(p.horizon));
        std::sort(changepts.begin(), changepts.end());
    }
    alldone = 0;
    active = true;
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int i = 0; i < nth; i++)
        ts.emplace_back([&, i] {
            ready++;
            fwait(&th[i].futex, 1);
            tid = i;
            bodies[i]();
            // finished: hand the token over
            nopreempt = 1;
            th[i].state = 2;
            int t = choose(true);
            if (t >= 0) {
                switch_to(t);
            } else {
                for (int k = 0; k < nth; k++)
                    if (th[k].state == 1)
                        dead("deadlock");
                alldone = 1;
            }
            tid = -1;
            nopreempt = 0;
        });
    while (ready < nth)
        std::this_thread::yield();
    cur = choose(false);
    fwake(&th[cur].futex);
    for (auto &t : ts)
        t.join();
    active = false;
    h::progress();
    return res;
}
} // namespace sched

using namespace sched;
extern "C" {
#define NI __attribute__((no_sanitize("address")))
void NI __sanitizer_cov_trace_pc_guard(uint32_t *) { step(); }
void NI verif_atomic_point(void) { step(); }
void NI __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void NI __sanitizer_cov_load1(uint8_t *) { step(); }
void NI __sanitizer_cov_load2(uint16_t *) { step(); }
void NI __sanitizer_cov_load4(uint32_t *) { step(); }
void NI __sanitizer_cov_load8(uint64_t *) { step(); }
void NI __sanitizer_cov_load16(__uint128_t *) { step(); }
void NI __sanitizer_cov_store1(uint8_t *) { step(); }
void NI __sanitizer_cov_store2(uint16_t *) { step(); }
void NI __sanitizer_cov_store4(uint32_t *) { step(); }
void NI __sanitizer_cov_store8(uint64_t *) { step(); }
void NI __sanitizer_cov_store16(__uint128_t *) { step(); }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (tid < 0 || nopreempt)
        return __real_pthread_mutex_lock(m);
    step();
    while (pthread_mutex_trylock(m) != 0)
        block_on(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = __real_pthread_mutex_unlock(m);
    if (tid >= 0) {
        wake(m);
        step();
    }
    return r;
}
// one-time initializers may be preempted; the others wait in the scheduler
static pthread_once_t *onces[64];
static int nonce;
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (tid < 0 || nopreempt)
        return __real_pthread_once(o, f);
    step();
    for (;;) {
        bool running = false;
        for (int i = 0; i < nonce; i++)
            running |= onces[i] == o;
        if (!running)
            break;
        block_on(o);
    }
    onces[nonce++] = o;
    int r = __real_pthread_once(o, f);
    for (int i = 0; i < nonce; i++)
        if (onces[i] == o) {
            onces[i] = onces[--nonce];
            break;
        }
    wake(o);
    step();
    return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (tid < 0 || nopreempt)
        return __real_pthread_rwlock_rdlock(m);
    step();
    while (pthread_rwlock_tryrdlock(m) != 0)
        block_on(m);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (tid < 0 || nopreempt)
        return __real_pthread_rwlock_wrlock(m);
    step();
    while (pthread_rwlock_trywrlock(m) != 0)
        block_on(m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    int r = __real_pthread_rwlock_unlock(m);
    if (tid >= 0) {
        wake(m);
        step();
    }
    return r;
}
}
