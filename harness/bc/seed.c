/* Replaces the randomness of a process by a chosen seed. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    const char *s = getenv("MC_SEED");
    unsigned long long x = s ? strtoull(s, 0, 10) : 0;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        p[i] = (unsigned char)(x >> 56);
    }
    return (ssize_t)n;
}
