// Replacement (by --wrap) of the library's metadata allocators with malloc:
// ASan then sees misuse of metadata, every block is accounted for, and the
// k-th allocation can be made to fail.
#pragma once
#include "h.hpp"
namespace ba {
struct Stats {
    std::atomic<int64_t> live_blocks{0}, live_bytes{0}, live_pools{0};
    std::atomic<uint64_t> allocs{0}, injected{0};
};
extern Stats st;
extern std::atomic<int64_t> fail_at;      // fail when it counts down to 0 (1 = next), <=0 off
extern std::atomic<int64_t> fail_every;   // fail every n-th
extern std::atomic<bool> enabled_failing; // gate
extern bool (*fail_hook)();                // asked at every allocation
extern bool log_leaks;
void snapshot_begin();               // start listing blocks
std::string leaks(uint64_t since);   // blocks allocated at/after serial and still live
uint64_t serial();
} // namespace ba
