// Stand-in for jemalloc: arenas whose memory comes from the extent hooks only,
// which are called in every way their documentation allows.
#pragma once
#include <jemalloc/jemalloc.h>
#include <atomic>
namespace je {
extern std::atomic<int> fail_create, fail_hooks; // that many calls fail from now on
extern std::atomic<bool> ask_addresses;            // extents at given addresses
size_t arenas();                                 // that exist
}
