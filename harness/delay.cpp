// In the variants with injected delays, basic blocks of the library now and then give the processor away or sleep
// for a moment, so that real threads meet inside the library in more ways.
#include <cerrno>
#include <cstdint>
#include <sched.h>
#include <time.h>
#define NI __attribute__((noinline, no_sanitize("thread"), no_sanitize("address"), no_sanitize("coverage"), disable_sanitizer_instrumentation))
// 0 off; else about one block in that many is delayed
extern "C" { volatile unsigned verif_delay_every = 0; volatile uint64_t verif_delay_seed = 1; }
static thread_local uint64_t st;
extern "C" {
void NI __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void NI __sanitizer_cov_trace_pc_guard(uint32_t *);
void NI verif_atomic_point(void) { __sanitizer_cov_trace_pc_guard(nullptr); }
void NI __sanitizer_cov_trace_pc_guard(uint32_t *) {
    unsigned e = verif_delay_every;
    if (!e)
        return;
    uint64_t x = st;
    if (!x)
        x = verif_delay_seed ^ (uint64_t)(uintptr_t)&st;
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    st = x ? x : 1;
    if ((x >> 20) % e)
        return;
    int err = errno;
    if ((x >> 8) & 3)
        sched_yield();
    else {
        timespec t{0, (long)((x >> 40) & 0x7fff)};
        nanosleep(&t, nullptr);
    }
    errno = err;
}
}
