/* Simulated wall clock: interposed before libc, controlled by the simulator through ctypes. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static volatile int on;
static volatile long long base, step, reads;

void dst_clock_set(int o, long long b, long long s) { on = o; base = b; step = s; reads = 0; }
long long dst_clock_reads(void) { return reads; }

static long long now(void) { return base + step * reads++; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) {
        long long v = now();
        ts->tv_sec = v / 1000000000LL;
        ts->tv_nsec = v % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
