// Seams below the Rust code: scheduling points, futexes, yields, the clock, hash-map seeds and the CPU
// count. Only threads registered with the simulator (sim_tid >= 0) are affected.
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdarg.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <linux/futex.h>

static __thread int tid __attribute__((tls_model("initial-exec"))) = -1;
static __thread int busy __attribute__((tls_model("initial-exec"))) = 0;
static long countdown;

extern void sim_expired(void);
extern void sim_yield(void);
extern long sim_futex_wait(unsigned *addr, unsigned val, int timed);
extern long sim_futex_wake(unsigned *addr, unsigned n);

void sim_set_tid(int t) { tid = t; busy = 0; }
int sim_get_tid(void) { return tid; }
void sim_busy_add(int d) { busy += d; }
void sim_set_countdown(long c) { countdown = c; }
long sim_get_countdown(void) { return countdown; }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
long sim_raw_futex(unsigned *addr, int op, unsigned val) { return raw(SYS_futex, (long)addr, op | FUTEX_PRIVATE_FLAG, val, 0, 0, 0); }

// Edges whose guard is set are the scheduling points proper (those within atomic operations); the others are
// only counted, so that a thread that runs for ever without any is noticed.
unsigned *sim_guards, *sim_guards_end;
const unsigned long *sim_pcs, *sim_pcs_end;
static long coarse;
extern void sim_coarse(void);

void sim_set_coarse(long c) { coarse = c; }
long sim_get_coarse(void) { return coarse; }
void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) {
    sim_guards = a;
    sim_guards_end = b;
}
void __sanitizer_cov_pcs_init(const unsigned long *a, const unsigned long *b) {
    sim_pcs = a;
    sim_pcs_end = b;
}

void __sanitizer_cov_trace_pc_guard(unsigned *g) {
    if (tid < 0 || busy) return;
    if (*g) {
        if (--countdown > 0) return;
        busy++;
        sim_expired();
        busy--;
    } else {
        if (--coarse > 0) return;
        busy++;
        sim_coarse();
        busy--;
    }
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (n == SYS_futex && tid >= 0) {
        int op = (int)b & FUTEX_CMD_MASK;
        busy++;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            r = sim_futex_wait((unsigned *)a, (unsigned)c, d != 0);
        else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            r = sim_futex_wake((unsigned *)a, (unsigned)c);
        else
            r = -ENOSYS;
        busy--;
    } else {
        r = raw(n, a, b, c, d, e, f);
    }
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int sched_yield(void) {
    if (tid >= 0) {
        busy++;
        sim_yield();
        busy--;
        return 0;
    }
    return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    if (tid >= 0) {
        t->tv_sec = 1000;
        t->tv_nsec = 0;
        return 0;
    }
    return (int)raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    memset(b, 7, n);
    return (ssize_t)n;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    (void)p;
    memset(s, 0, n);
    CPU_SET(0, s);
    return 0;
}
