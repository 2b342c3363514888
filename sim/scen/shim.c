// Seams for nondeterminism that enters below the Rust code under test: hash-map seeds and the CPU
// count (which fixes the number of shards of the concurrent maps).
#define _GNU_SOURCE
#include <sched.h>
#include <string.h>
#include <sys/types.h>

ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    memset(b, 7, n);
    return (ssize_t)n;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    (void)p;
    memset(s, 0, n);
    CPU_SET(0, s);
    return 0;
}
