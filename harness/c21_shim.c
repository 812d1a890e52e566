// Runs before and after the constructor and destructor of the proxy library in the module.
#include "c21_api.h"
extern void *px_malloc(size_t);
extern void *px_calloc(size_t, size_t);
extern void *px_realloc(void *, size_t);
extern void px_free(void *);
extern void *px_aligned_alloc(size_t, size_t);
extern size_t px_malloc_usable_size(void *);
extern void px_hook(int, const struct px_api *);
static const struct px_api api = {px_malloc, px_calloc, px_realloc, px_free, px_aligned_alloc, px_malloc_usable_size};
__attribute__((constructor(101))) static void early(void) { px_hook(0, &api); }
__attribute__((destructor(101))) static void late(void) { px_hook(1, &api); }
