/* LD_PRELOAD: the wall clock stands at WB_FAKE_TIME (seconds since 1970, may be negative). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int fake(long long *t) {
    const char *s = getenv("WB_FAKE_TIME");
    if (!s || !*s) return 0;
    *t = atoll(s);
    return 1;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    long long t;
    if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && fake(&t)) {
        ts->tv_sec = t;
        ts->tv_nsec = 123456789;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (r == 0 && tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return r;
}

time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
