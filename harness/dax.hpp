// A device DAX stand-in: a scratch file whose path contains "fakedax" is mapped
// without MAP_SYNC but, like a device, in whole 2 MB pages.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>
#ifndef MAP_SYNC
#define MAP_SYNC 0x80000
#endif
#ifndef MAP_SHARED_VALIDATE
#define MAP_SHARED_VALIDATE 0x03
#endif
inline bool dax_request(int f, int fd) {
    if (fd < 0 || !(f & MAP_SYNC) || (f & MAP_SHARED_VALIDATE) != MAP_SHARED_VALIDATE)
        return false;
    char link[64], path[512];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0)
        return false;
    path[n] = 0;
    return strstr(path, "fakedax") != nullptr;
}
// `map`, `unmap`: the real functions
template <class M, class U> void *dax_map(M map, U unmap, size_t l, int p, int f, int fd, off_t o) {
    const size_t A = 2 << 20;
    char *z = (char *)map(nullptr, l + A, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (z == (char *)MAP_FAILED)
        return MAP_FAILED;
    char *al = (char *)(((uintptr_t)z + A - 1) & ~(uintptr_t)(A - 1));
    void *r = map(al, l, p, MAP_FIXED | (f & ~(MAP_SYNC | MAP_SHARED_VALIDATE)) | MAP_SHARED, fd, o);
    if (r == MAP_FAILED) {
        unmap(z, l + A);
        return r;
    }
    size_t ll = (l + 4095) & ~(size_t)4095;
    if (al > z)
        unmap(z, al - z);
    if (z + ((l + A + 4095) & ~(size_t)4095) > al + ll)
        unmap(al + ll, z + ((l + A + 4095) & ~(size_t)4095) - (al + ll));
    return r;
}
