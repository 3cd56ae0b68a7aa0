// Interposes the file operations on files whose name starts with $SHIM_NAME,
// numbers them, and makes some fail or kill the process as told by
// $SHIM_PLAN: comma-separated k:crash, k:crashafter, k:err:ERRNO, k:short,
// k:one, k:partcrash.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>

static int counter;
static char fds[4096];
static int logfd = -2;

static void logop(const char *op, const char *what) {
    if (logfd == -2) {
        const char *l = getenv("SHIM_LOG");
        logfd = l ? syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
    }
    if (logfd >= 0) {
        char b[300];
        int n = snprintf(b, sizeof b, "%d %s %s\n", counter, op, what ? what : "");
        syscall(SYS_write, logfd, b, n);
    }
}
// with $SHIM_READS, it is the reading operations and no others
static int reads(void) { return getenv("SHIM_READS") != NULL; }
static int ours(const char *p) {
    const char *n = getenv("SHIM_NAME");
    if (!n || !p) return 0;
    const char *b = strrchr(p, '/');
    b = b ? b + 1 : p;
    return p[0] != '/' || strstr(b, n) != NULL;
}
static int relevant(const char *p) { return !reads() && ours(p); }
static int tracked(int fd) { return fd >= 0 && fd < 4096 && fds[fd]; }
// what is to happen to the operation with this number
static int plan(char *kind, int *err) {
    const char *p = getenv("SHIM_PLAN");
    while (p && *p) {
        int k = 0, e = 0;
        char w[32] = "";
        if (sscanf(p, "%d:%31[a-z]:%d", &k, w, &e) >= 2 && k == counter) {
            strcpy(kind, w);
            *err = e;
            return 1;
        }
        p = strchr(p, ',');
        if (p) p++;
    }
    return 0;
}
#define BEGIN(op, what) \
    char kind[32] = ""; \
    int err = 0; \
    counter++; \
    logop(op, what); \
    plan(kind, &err); \
    if (!strcmp(kind, "crash")) syscall(SYS_exit_group, 99); \
    if (!strcmp(kind, "err")) { errno = err; return -1; }
#define END if (!strcmp(kind, "crashafter")) syscall(SYS_exit_group, 99);
#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = dlsym(RTLD_NEXT, #name);

static int wants_mode(int flags) { return (flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE; }
#define MODE mode_t mode = 0; if (wants_mode(flags)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
#define OPENBODY(path, CALL) \
    if (!ours(path) || ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) != reads()) return CALL; \
    BEGIN("open", path) \
    int r = CALL; \
    if (r >= 0 && r < 4096) fds[r] = 1; \
    END \
    return r;
int open(const char *path, int flags, ...) { REAL(open) MODE OPENBODY(path, real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(open64) MODE OPENBODY(path, real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat) MODE OPENBODY(path, real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64) MODE OPENBODY(path, real(d, path, flags, mode)) }

static ssize_t part(const char *kind, size_t n) {
    if (!strcmp(kind, "short") || !strcmp(kind, "partcrash")) return n > 1 ? n / 2 : n;
    if (!strcmp(kind, "one")) return n > 0 ? 1 : 0;
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write)
    if (!tracked(fd)) return real(fd, b, n);
    BEGIN("write", "")
    ssize_t r = real(fd, b, part(kind, n));
    if (!strcmp(kind, "partcrash")) syscall(SYS_exit_group, 99);
    END
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read)
    if (!tracked(fd) || !reads()) return real(fd, b, n);
    BEGIN("read", "")
    return real(fd, b, part(kind, n));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev)
    if (!tracked(fd)) return real(fd, v, n);
    BEGIN("write", "v")
    ssize_t r;
    if (n > 0 && (kind[0] == 's' || kind[0] == 'p' || kind[0] == 'o'))
        r = syscall(SYS_write, fd, v[0].iov_base, part(kind, v[0].iov_len));
    else
        r = real(fd, v, n);
    if (!strcmp(kind, "partcrash")) syscall(SYS_exit_group, 99);
    END
    return r;
}
#define WRAP2(name, op, rel, what, decl, args) \
    int name decl { REAL(name) if (!(rel)) return real args; BEGIN(op, what) int r = real args; END return r; }
WRAP2(rename, "rename", relevant(a) || relevant(b), b, (const char *a, const char *b), (a, b))
WRAP2(renameat, "rename", relevant(a) || relevant(b), b, (int x, const char *a, int y, const char *b), (x, a, y, b))
WRAP2(renameat2, "rename", relevant(a) || relevant(b), b, (int x, const char *a, int y, const char *b, unsigned int f), (x, a, y, b, f))
WRAP2(link, "link", relevant(a) || relevant(b), b, (const char *a, const char *b), (a, b))
WRAP2(linkat, "link", relevant(a) || relevant(b), b, (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f))
WRAP2(unlink, "unlink", relevant(a), a, (const char *a), (a))
WRAP2(unlinkat, "unlink", relevant(a), a, (int d, const char *a, int f), (d, a, f))
WRAP2(truncate, "truncate", relevant(a), a, (const char *a, off_t n), (a, n))
WRAP2(fsync, "fsync", tracked(fd), "", (int fd), (fd))
WRAP2(fdatasync, "fsync", tracked(fd), "", (int fd), (fd))
WRAP2(ftruncate, "ftruncate", tracked(fd), "", (int fd, off_t n), (fd, n))
WRAP2(ftruncate64, "ftruncate", tracked(fd), "", (int fd, off64_t n), (fd, n))
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned int f) {
    REAL(copy_file_range)
    if (!tracked(b)) return real(a, x, b, y, n, f);
    BEGIN("write", "copy")
    ssize_t r = real(a, x, b, y, part(kind, n), f);
    if (!strcmp(kind, "partcrash")) syscall(SYS_exit_group, 99);
    END
    return r;
}
int close(int fd) {
    REAL(close)
    if (!tracked(fd)) return real(fd);
    fds[fd] = 0;
    char kind[32] = "";
    int err = 0;
    counter++;
    logop("close", "");
    plan(kind, &err);
    if (!strcmp(kind, "crash")) syscall(SYS_exit_group, 99);
    int r = real(fd);
    END
    if (!strcmp(kind, "err")) { errno = err; return -1; }
    return r;
}
