#include "ba.hpp"
#include <malloc.h>
namespace ba {
Stats st;
std::atomic<int64_t> fail_at{0}, fail_every{0};
std::atomic<bool> enabled_failing{true};
bool (*fail_hook)() = nullptr;
bool log_leaks = false;
static std::atomic<uint64_t> ser{1};
uint64_t serial() { return ser; }

struct Hdr {
    uint64_t size, serial;
    void *caller, *base;
    Hdr *prev, *next;
    uint64_t magic, pad;
};
static Hdr head{0, 0, 0, 0, &head, &head, 0, 0};
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *) __attribute__((weak));
static std::atomic_flag spin = ATOMIC_FLAG_INIT;
struct G {
    G() { while (spin.test_and_set(std::memory_order_acquire)) ; }
    ~G() { spin.clear(std::memory_order_release); }
};

static bool should_fail() {
    if (fail_hook && fail_hook()) { st.injected++; return true; }
    if (!enabled_failing) return false;
    if (fail_at > 0 && --fail_at == 0) { st.injected++; return true; }
    int64_t e = fail_every;
    if (e > 0 && st.allocs % (uint64_t)e == (uint64_t)e - 1) { st.injected++; return true; }
    return false;
}
static void *get(size_t size, size_t align, void *caller) {
    st.allocs++;
    if (size == 0) return nullptr; // as the original
    if (should_fail()) return nullptr;
    if (size > (1ull << 40)) return nullptr;
    size_t a = align < 16 ? 16 : align;
    size_t off = (sizeof(Hdr) + a - 1) / a * a;
    void *b = aligned_alloc(a, (off + size + a - 1) / a * a);
    if (!b) return nullptr;
    // the tail beyond the requested size is real slack up to alignment: keep exact for ASan
    char *u = (char *)b + off;
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->size = size; h->caller = caller; h->base = b; h->magic = 0x5afe5afe5afeull; h->serial = ser++;
    memset(u, 0xA7, size); // fresh metadata memory is not zero
    { G g; h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h; }
    st.live_blocks++; st.live_bytes += (int64_t)size;
    return u;
}
static void put(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (h->magic != 0x5afe5afe5afeull) {
        h::viol("metadata:bad-free", "library freed metadata pointer %p it does not own (or twice)", p);
        return;
    }
    h->magic = 0xdead;
    { G g; h->prev->next = h->next; h->next->prev = h->prev; }
    st.live_blocks--; st.live_bytes -= (int64_t)h->size;
    memset(p, 0xD7, h->size);
    free(h->base);
}
std::string leaks(uint64_t since) {
    std::string s; int n = 0; char b[120];
    G g;
    for (Hdr *h = head.next; h != &head; h = h->next)
        if (h->serial >= since && n++ < 12) {
            snprintf(b, sizeof b, "[%lu bytes serial %lu caller %p] ", h->size, h->serial, h->caller);
            s += b;
        }
    return s;
}
struct Pool { uint64_t magic; size_t size; std::atomic<int64_t> live; std::set<void *> *blocks; std::atomic_flag lk; };
} // namespace ba
using namespace ba;

extern "C" {
void *__wrap_umf_ba_global_alloc(size_t size) { return get(size, 8, __builtin_return_address(0)); }
void *__wrap_umf_ba_global_aligned_alloc(size_t size, size_t al) { return get(size, al < 8 ? 8 : al, __builtin_return_address(0)); }
void __wrap_umf_ba_global_free(void *p) { put(p); }
size_t __wrap_umf_ba_global_malloc_usable_size(void *p) { return p ? ((Hdr *)((char *)p - sizeof(Hdr)))->size : 0; }

bool __wrap_umf_ba_global_is_destroyed(void) { return false; } // this allocator never is

void *__wrap_umf_ba_create(size_t size) {
    if (should_fail()) return nullptr;
    Pool *p = (Pool *)malloc(sizeof(Pool));
    new (p) Pool{0xba9001ull, size, {0}, new std::set<void *>, ATOMIC_FLAG_INIT};
    st.live_pools++;
    return p;
}
void *__wrap_umf_ba_alloc(void *pp) {
    Pool *p = (Pool *)pp;
    if (p->magic != 0xba9001ull) { h::viol("metadata:dead-pool", "umf_ba_alloc on a destroyed pool"); return nullptr; }
    void *r = get((p->size + 7) & ~7ull, 8, __builtin_return_address(0));
    if (!r) return r;
    while (p->lk.test_and_set()) ;
    p->blocks->insert(r);
    p->lk.clear();
    return r;
}
void __wrap_umf_ba_free(void *pp, void *b) {
    if (!b) return;
    Pool *p = (Pool *)pp;
    if (p->magic != 0xba9001ull) { h::viol("metadata:dead-pool", "umf_ba_free on a destroyed pool"); return; }
    while (p->lk.test_and_set()) ;
    bool own = p->blocks->erase(b);
    p->lk.clear();
    if (!own) { h::viol("metadata:foreign-free", "umf_ba_free of %p not allocated from this pool (or freed twice)", b); return; }
    put(b);
}
void __wrap_umf_ba_destroy(void *pp) {
    Pool *p = (Pool *)pp;
    if (p->magic != 0xba9001ull) { h::viol("metadata:dead-pool", "umf_ba_destroy twice"); return; }
    if (log_leaks && !p->blocks->empty())
        h::stat("ba_pool_leaks", p->blocks->size());
    for (void *b : *p->blocks) put(b);
    delete p->blocks;
    p->magic = 0;
    st.live_pools--;
    free(p);
}
}
