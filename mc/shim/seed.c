/* Preloaded into the command line program: std asks getrandom for the keys of its hash maps, so that the order in
 * which they are iterated becomes a function of MC_SEED. */
#include <stddef.h>
#include <stdlib.h>
#include <sys/types.h>
static unsigned long long s;
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    if (!s) {
        const char *e = getenv("MC_SEED");
        s = (e ? strtoull(e, 0, 10) : 0) * 2 + 1;
    }
    for (size_t i = 0; i < len; i++) {
        s += 0x9E3779B97F4A7C15ull;
        unsigned long long z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        ((unsigned char *)buf)[i] = (z ^ (z >> 31)) >> 24;
    }
    return (ssize_t)len;
}
