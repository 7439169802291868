/* LD_PRELOAD seam: simulated wall clock and simulated entropy.
 *
 * Both are off until the simulator switches them on through the exported setters, so the interpreter starts
 * up unaffected.  Only CLOCK_REALTIME, time() and gettimeofday() are simulated: the monotonic clock belongs to the
 * simulator's own watchdog.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int clock_on = 0;
static volatile int64_t clock_ns = 0;   /* simulated CLOCK_REALTIME, ns since the epoch */
static volatile int64_t clock_step = 0; /* added after every read */
static volatile uint64_t clock_reads = 0;

static volatile int rand_on = 0;
static volatile uint64_t rand_state = 0;
static volatile uint64_t rand_reads = 0;

void sim_clock(int on, int64_t ns, int64_t step) {
    clock_on = on;
    clock_ns = ns;
    clock_step = step;
}
int64_t sim_clock_now(void) { return clock_ns; }
uint64_t sim_clock_reads(void) { return clock_reads; }
void sim_rand(int on, uint64_t seed) {
    rand_on = on;
    rand_state = seed;
}
uint64_t sim_rand_reads(void) { return rand_reads; }

static int64_t sim_now(void) {
    int64_t t = clock_ns;
    clock_ns = t + clock_step;
    clock_reads++;
    return t;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t t = sim_now();
        int64_t s = t / 1000000000, n = t % 1000000000;
        if (n < 0) {
            n += 1000000000;
            s--;
        }
        ts->tv_sec = s;
        ts->tv_nsec = n;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (r == 0 && tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return r;
}

time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

static uint64_t splitmix(void) {
    uint64_t z = (rand_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
    if (!rand_on) return syscall(SYS_getrandom, buf, len, flags);
    rand_reads++;
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) {
        p[i] = (unsigned char)(splitmix() >> 24);
    }
    return (ssize_t)len;
}

/* entropy from the environment, so that it also covers start-up (hash seeds are drawn at the first map) */
__attribute__((constructor)) static void sim_init(void) {
    const char *s = getenv("SIM_ENTROPY");
    if (s && *s) {
        rand_state = strtoull(s, NULL, 10);
        rand_on = 1;
    }
}

/* Live allocations: conservation of memory is counted exactly, without the noise of the allocator's own caches. */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int64_t live_blocks = 0;

int64_t sim_live_blocks(void) { return __atomic_load_n(&live_blocks, __ATOMIC_RELAXED); }

static inline void *counted(void *p) {
    if (p) __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    return p;
}

void *malloc(size_t n) { return counted(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return counted(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) {
    void *p = counted(__libc_memalign(a, n));
    if (!p) return 12; /* ENOMEM */
    *out = p;
    return 0;
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!n) {
        __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
        __libc_free(p);
        return 0;
    }
    return __libc_realloc(p, n);
}
void free(void *p) {
    if (p) __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    __libc_free(p);
}
