// Declarations of jemalloc's non-standard API for je_fake.cpp (no jemalloc here);
// the values are those of jemalloc 5.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <strings.h>
#include <limits.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MALLOCX_LG_ALIGN(la) ((int)(la))
#define MALLOCX_ALIGN(a) ((int)(((size_t)(a) < (size_t)INT_MAX) ? ffs((int)(a)) - 1 : ffs((int)(((size_t)(a)) >> 32)) + 31))
#define MALLOCX_ZERO ((int)0x40)
#define MALLOCX_TCACHE(tc) ((int)(((tc) + 2) << 8))
#define MALLOCX_TCACHE_NONE MALLOCX_TCACHE(-1)
#define MALLOCX_ARENA(a) ((((int)(a)) + 1) << 20)
#define MALLCTL_ARENAS_ALL 4096
#define MALLCTL_ARENAS_DESTROYED 4097

typedef struct extent_hooks_s extent_hooks_t;
struct extent_hooks_s {
    void *(*alloc)(extent_hooks_t *, void *, size_t, size_t, bool *, bool *, unsigned);
    bool (*dalloc)(extent_hooks_t *, void *, size_t, bool, unsigned);
    void (*destroy)(extent_hooks_t *, void *, size_t, bool, unsigned);
    bool (*commit)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
    bool (*decommit)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
    bool (*purge_lazy)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
    bool (*purge_forced)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
    bool (*split)(extent_hooks_t *, void *, size_t, size_t, size_t, bool, unsigned);
    bool (*merge)(extent_hooks_t *, void *, size_t, void *, size_t, bool, unsigned);
};
void *je_mallocx(size_t size, int flags);
void *je_rallocx(void *ptr, size_t size, int flags);
void je_dallocx(void *ptr, int flags);
size_t je_malloc_usable_size(void *ptr);
int je_mallctl(const char *name, void *oldp, size_t *oldlenp, void *newp, size_t newlen);
#ifdef __cplusplus
}
#endif
