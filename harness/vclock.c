// Link-time interposition (ld --wrap) of the clock and of the two calls with
// which an idle scheduler waits. The harness owns time: reading the monotonic
// clock advances it by a fixed tick, an idle wait advances it by the requested
// amount, and nothing else does.
#define _GNU_SOURCE
#include <time.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <sched.h>
#include <sys/syscall.h>
#include <errno.h>
#include "vclock.h"
volatile int vc_on; int64_t vc_t = INT64_C(1000000000000); int64_t vc_tick = 1;
uint64_t vc_budget, vc_reads, vc_sleeps, vc_polls; void (*vc_hang)(void); int vc_pollreal_ms; int (*vc_epoll_inject)(int *);
static __thread int is_main = -1;
static int mainthr(void) {
    if (is_main < 0) is_main = getpid() == (pid_t)syscall(SYS_gettid);
    return is_main;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __real_epoll_wait(int e, struct epoll_event *ev, int n, int t);
int64_t real_now(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * INT64_C(1000000000) + t.tv_nsec; }
int64_t vc_now(void) { return vc_on ? vc_t : real_now(); }
void vc_progress(void) { vc_reads = 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (!vc_on || c != CLOCK_MONOTONIC || !mainthr()) return __real_clock_gettime(c, ts);
    vc_t += vc_tick; if (!vc_tick && (vc_reads & 63) == 63) vc_t++;
    ts->tv_sec = vc_t / 1000000000; ts->tv_nsec = vc_t % 1000000000;
    vc_reads++;
    if (vc_budget) { if (vc_reads > vc_budget && vc_hang) vc_hang(); }
    else if ((vc_reads & 63) == 0) sched_yield();
    return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
    if (!vc_on || !mainthr()) return __real_nanosleep(a, b);
    vc_t += a->tv_sec * INT64_C(1000000000) + a->tv_nsec + !vc_tick;
    vc_sleeps++;
    if (vc_pollreal_ms) { struct timespec s = {0, 200000}; __real_nanosleep(&s, 0); }
    return 0;
}
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int t) {
    if (vc_epoll_inject && mainthr()) { int k = vc_epoll_inject(&n); if (k < 0) { errno = EINTR; return -1; } }
    if (!vc_on || !mainthr()) return __real_epoll_wait(e, ev, n, t);
    vc_polls++;
    int r = __real_epoll_wait(e, ev, n, 0);
    if (r != 0) return r;
    if (t > 0 && vc_pollreal_ms) { r = __real_epoll_wait(e, ev, n, vc_pollreal_ms); if (r != 0) return r; }
    vc_t += t > 0 ? (int64_t)t * 1000000 : 20000;
    return 0;
}
// The same for the other spellings of these calls.
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    extern int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
    if (!vc_on || !mainthr()) return __real_clock_nanosleep(c, fl, a, b);
    if (fl & TIMER_ABSTIME) { int64_t t = a->tv_sec * INT64_C(1000000000) + a->tv_nsec - vc_t; struct timespec d = {t > 0 ? t / 1000000000 : 0, t > 0 ? t % 1000000000 : 0}; return __wrap_nanosleep(&d, 0); }
    return __wrap_nanosleep(a, b);
}
int __wrap_epoll_pwait(int e, struct epoll_event *ev, int n, int t, const sigset_t *s) { extern int __real_epoll_pwait(int, struct epoll_event *, int, int, const sigset_t *); if (!vc_on || !mainthr()) return __real_epoll_pwait(e, ev, n, t, s); return __wrap_epoll_wait(e, ev, n, t); }
