/* LD_PRELOAD clock: while sim_on is set, every read of the wall clock or of a
 * monotonic clock in this process returns simulated time.  Each read costs
 * sim_step microseconds of simulated time, so code that spins on the clock
 * still sees it move.  CLOCK_MONOTONIC_RAW and the CPU clocks stay real (the
 * harness uses them to measure its own cost). */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

int sim_on = 0;
long long sim_mono_us = 0;   /* simulated monotonic time */
long long sim_off_us = 0;    /* wall = mono + off */
long long sim_step = 1;
long long sim_reads = 0;

static void put(struct timespec *ts, long long us) {
    ts->tv_sec = us / 1000000LL;
    ts->tv_nsec = (us % 1000000LL) * 1000LL;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (sim_on && ts) {
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) {
            sim_reads++; sim_mono_us += sim_step;
            put(ts, sim_mono_us + sim_off_us);
            return 0;
        }
        if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) {
            /* (free: the interpreter also reads it for itself, the first time it
             * calls a function or another; time.monotonic() costs, see seams.py) */
            put(ts, sim_mono_us);
            return 0;
        }
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
