#pragma once
#include <stddef.h>
struct px_api {
    void *(*malloc)(size_t);
    void *(*calloc)(size_t, size_t);
    void *(*realloc)(void *, size_t);
    void (*free)(void *);
    void *(*aligned_alloc)(size_t, size_t);
    size_t (*malloc_usable_size)(void *);
};
