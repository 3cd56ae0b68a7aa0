// Preloaded into subjects. Two things:
// - random delays around library calls that matter for interleavings (locks and
//   wake-ups go through syscall(); pipes, terminal, descriptors, signals), as
//   told by $CHAOS: seed, one in how many calls, longest delay in microseconds;
// - a monitor of descriptors: closing or using one that isn't open, closing or
//   replacing a standard one that is not ours to replace. Findings are appended
//   to the file $CHAOS_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

static unsigned long long seed;
static int one_in, longest;
static int logfd = -1;
static long (*real_syscall)(long, ...);
static int (*real_close)(int);
static int (*real_dup2)(int, int);
static int (*real_dup)(int);
static int (*real_pipe)(int *);
static int (*real_pipe2)(int *, int);
static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*real_pthread_kill)(pthread_t, int);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static unsigned long long delays;

__attribute__((constructor)) static void init(void) {
#define R(n) real_##n = dlsym(RTLD_NEXT, #n)
    R(syscall); R(close); R(dup2); R(dup); R(pipe); R(pipe2); R(read); R(write);
    R(sigaction); R(pthread_kill); R(pthread_join); R(pthread_create);
    const char *c = getenv("CHAOS");
    if (c) sscanf(c, "%llu,%d,%d", &seed, &one_in, &longest);
    c = getenv("CHAOS_LOG");
    if (c) {
        int f = open(c, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (f >= 0) {
            logfd = fcntl(f, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, f);
        }
    }
}
static void report(const char *what, int a, int b) {
    int e = errno;
    char m[200];
    int n = snprintf(m, sizeof m, "%s %d %d\n", what, a, b);
    if (logfd >= 0) real_syscall(SYS_write, logfd, m, (long)n);
    errno = e;
}
static void chaos(void) {
    static __thread unsigned long long s;
    if (one_in <= 0) return;
    if (!s) s = seed * 0x9e3779b97f4a7c15ull + (unsigned long long)real_syscall(SYS_gettid) * 0xbf58476d1ce4e5b9ull + 1;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    if ((s >> 20) % one_in) return;
    int e = errno;
    // mostly short ones
    long us = 1 + (s >> 40) % longest;
    if ((s >> 33) & 3) us = us / 16 + 1;
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    do {
        sched_yield();
        clock_gettime(CLOCK_MONOTONIC, &b);
    } while ((b.tv_sec - a.tv_sec) * 1000000000l + (b.tv_nsec - a.tv_nsec) < us * 1000);
    delays++;
    errno = e;
}
long syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
    va_end(l);
    if (!real_syscall) real_syscall = dlsym(RTLD_NEXT, "syscall");
    chaos();
    long r = real_syscall(n, a, b, c, d, e, f);
    int x = errno;
    chaos();
    errno = x;
    return r;
}
int close(int fd) {
    chaos();
    if (fd >= 0 && fd <= 2) report("a standard descriptor was closed:", fd, 0);
    int r = real_close(fd);
    if (r < 0 && errno == EBADF) report("a descriptor was closed that was not open:", fd, 0);
    chaos();
    return r;
}
int dup2(int a, int b) {
    chaos();
    if (b != 0 && b != 2) report("dup2 onto a descriptor that is none of the library's business:", a, b);
    int r = real_dup2(a, b);
    if (r < 0 && errno == EBADF) report("dup2 of a descriptor that is not open:", a, b);
    chaos();
    return r;
}
int dup(int a) {
    chaos();
    int r = real_dup(a);
    if (r < 0 && errno == EBADF) report("dup of a descriptor that is not open:", a, 0);
    chaos();
    return r;
}
int pipe(int p[2]) {
    chaos();
    int r = real_pipe(p);
    chaos();
    return r;
}
int pipe2(int p[2], int f) {
    chaos();
    int r = real_pipe2(p, f);
    chaos();
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    chaos();
    ssize_t r = real_read(fd, b, n);
    if (r < 0 && errno == EBADF) report("reading from a descriptor that is not open:", fd, 0);
    int e = errno;
    chaos();
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    chaos();
    ssize_t r = real_write(fd, b, n);
    if (r < 0 && errno == EBADF) report("writing to a descriptor that is not open:", fd, 0);
    int e = errno;
    chaos();
    errno = e;
    return r;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    chaos();
    int r = real_sigaction(s, a, o);
    chaos();
    return r;
}
int pthread_kill(pthread_t t, int s) {
    chaos();
    int r = real_pthread_kill(t, s);
    chaos();
    return r;
}
int pthread_join(pthread_t t, void **v) {
    chaos();
    return real_pthread_join(t, v);
}
struct st { void *(*f)(void *); void *a; };
static void *start(void *p) {
    struct st s = *(struct st *)p;
    free(p);
    chaos();
    return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    chaos();
    struct st *s = malloc(sizeof *s);
    s->f = f;
    s->a = a;
    int r = real_pthread_create(t, at, start, s);
    chaos();
    return r;
}
