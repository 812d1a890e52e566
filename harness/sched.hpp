// Seeded deterministic scheduler.  In the "sched" variant every basic block,
// load and store of the library calls into it; exactly one registered thread
// runs at a time and the seed decides where it is pre-empted.
#pragma once
#include "h.hpp"
namespace sched {
enum Policy { RANDOM_WALK, PCT };
struct Params {
    Policy policy = RANDOM_WALK;
    unsigned mean = 16;      // RANDOM_WALK: mean points between switches
    unsigned changes = 3;    // PCT: number of priority changes
    uint64_t horizon = 2000; // PCT: steps over which changes are spread
    uint64_t max_steps = 3000000;
};
struct Result {
    uint64_t steps = 0, switches = 0, hash = 0;
    bool deadlock = false, livelock = false;
    uint64_t blocked_waits = 0;
};
#ifdef VARIANT_SCHED
Params random_params(h::Rng &r);
Result run(std::vector<std::function<void()>> bodies, uint64_t seed, const Params &p);
#else // not linked in other variants
inline Params random_params(h::Rng &) { return Params(); }
inline Result run(std::vector<std::function<void()>>, uint64_t, const Params &) { abort(); }
#endif
void point();   // explicit scheduling point for harness code
int self();     // index of the scheduled thread or -1
uint64_t now(); // logical time: strictly increasing event counter
} // namespace sched
#define SCHED_WRAPS                                                            \
    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",     \
        "pthread_rwlock_wrlock", "pthread_rwlock_unlock"
