// Preloaded after the proxy library, so that its constructor runs before that of the proxy library.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <unistd.h>
static const int N = 60;
static char *blk[N];
static size_t len[N];
static bool early;
static const char *bad;
static void put(int i) { memset(blk[i], 'A' + i % 26, len[i]); }
static bool good(int i, size_t n) {
    for (size_t k = 0; k < n; k++)
        if (blk[i][k] != 'A' + i % 26)
            return false;
    return true;
}
__attribute__((constructor)) static void begin(void) {
    for (int i = 0; i < N; i++) {
        len[i] = 1 + (i * 7919) % (i % 10 ? 300 : 20000);
        switch (i % 3) {
        case 0:
            blk[i] = (char *)malloc(len[i]);
            break;
        case 1:
            blk[i] = (char *)calloc(1, len[i]);
            for (size_t k = 0; blk[i] && k < len[i]; k++)
                if (blk[i][k])
                    bad = "early calloc is not zero";
            break;
        case 2:
            blk[i] = (char *)aligned_alloc(64, len[i]);
            if ((uintptr_t)blk[i] & 63)
                bad = "early aligned_alloc is not aligned";
            break;
        }
        if (!blk[i]) {
            bad = "early allocation failed";
            return;
        }
        put(i);
    }
    early = malloc_usable_size(blk[0]) == 0;
    for (int i = 0; i < N; i += 5) { // grow and shrink some
        size_t n = i % 2 ? len[i] / 2 + 1 : len[i] * 2;
        char *p = (char *)realloc(blk[i], n);
        if (!p) {
            bad = "early realloc failed";
            return;
        }
        blk[i] = p;
        if (!good(i, n < len[i] ? n : len[i]))
            bad = "early realloc lost the contents";
        len[i] = n;
        put(i);
    }
    for (int i = 3; i < N; i += 5) {
        free(blk[i]);
        blk[i] = nullptr;
    }
}
// the rest is used by the program much later
extern "C" const char *early_check(unsigned long *n) {
    for (int i = 0; i < N && !bad; i++) {
        if (!blk[i])
            continue;
        if (!good(i, len[i]))
            return "the contents of an early block changed";
        if (i % 4 == 0) {
            char *p = (char *)realloc(blk[i], len[i] + 500);
            if (!p)
                return "realloc of an early block failed";
            blk[i] = p;
            if (!good(i, len[i]))
                return "realloc of an early block lost the contents";
        }
        free(blk[i]);
        blk[i] = nullptr;
        ++*n;
    }
    if (!early)
        *n = 0;
    return bad;
}
static struct Last { // after main
    char *p = nullptr;
    Last() { p = (char *)malloc(1000); }
    ~Last() {
        char *q = (char *)realloc(p, 3000);
        if (!q)
            _exit(66);
        free(q);
    }
} last;
