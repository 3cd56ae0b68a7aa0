// Preloaded into subjects: time passes $WARP times as fast for them, so that
// hours can be waited for. (Only what the Rust libraries use for waiting: the
// monotonic clock, futexes, the sleeping calls, poll.)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef long long ns;
static ns t0, k = 1;
static long (*real_syscall)(long, ...);

static ns get(const struct timespec *t) {
    if (t->tv_sec > LLONG_MAX / 1000000000 - 1) return LLONG_MAX;
    return t->tv_sec * 1000000000ll + t->tv_nsec;
}
static void put(struct timespec *t, ns v) {
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
}
static ns now(void) {
    struct timespec t;
    real_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return get(&t);
}
__attribute__((constructor)) static void init(void) {
    if (real_syscall) return;
    real_syscall = dlsym(RTLD_NEXT, "syscall");
    t0 = now();
    const char *w = getenv("WARP");
    if (w && atoll(w) > 0) k = atoll(w);
}
// a moment or a length of the subject's time in real time (rounded up)
static ns moment(ns v) { return v <= t0 ? v : t0 + ((v - t0) / k) + ((v - t0) % k != 0); }
static ns length(ns v) { return v / k + (v % k != 0); }

int clock_gettime(clockid_t c, struct timespec *t) {
    init();
    int r = real_syscall(SYS_clock_gettime, c, t);
    if (r == 0 && c == CLOCK_MONOTONIC) put(t, t0 + (get(t) - t0) * k);
    return r;
}
long syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
    va_end(l);
    init();
    if (n == SYS_futex && d) {
        struct timespec t;
        int op = b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT_BITSET && !(b & FUTEX_CLOCK_REALTIME)) {
            put(&t, moment(get((struct timespec *)d)));
            return real_syscall(n, a, b, c, &t, e, f);
        }
        if (op == FUTEX_WAIT) {
            put(&t, length(get((struct timespec *)d)));
            return real_syscall(n, a, b, c, &t, e, f);
        }
    }
    return real_syscall(n, a, b, c, d, e, f);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *want, struct timespec *rest) {
    init();
    struct timespec t;
    int abs = flags & TIMER_ABSTIME;
    if (c == CLOCK_MONOTONIC || !abs) put(&t, abs ? moment(get(want)) : length(get(want)));
    else t = *want;
    if (real_syscall(SYS_clock_nanosleep, c, flags, &t, rest) == 0) return 0;
    if (errno == EINTR && !abs && rest) put(rest, get(rest) * k);
    return errno;
}
int nanosleep(const struct timespec *want, struct timespec *rest) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, want, rest);
    if (r == 0) return 0;
    errno = r;
    return -1;
}
int poll(struct pollfd *p, nfds_t n, int ms) {
    init();
    struct timespec t;
    if (ms >= 0) put(&t, length(ms * 1000000ll));
    return real_syscall(SYS_ppoll, p, n, ms >= 0 ? &t : 0, 0, 8);
}
