/*
 * Preloaded into the interpreter that runs a migration tool: numbers the
 * calls that concern files below a directory, logs them, and makes one of
 * them (or two) fail, stop half-way, or be the last thing that happens.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NOTHING, ERROR, KILL, SIGNAL, SHORT, PARTIAL };

static char prefix[1024];
static size_t prefixlen;
static int logfd = -1;
static int count, at[2], mode[2], err[2];

void fault_arm(const char *dir, const char *log,
               int at0, int mode0, int err0, int at1, int mode1, int err1)
{
    strncpy(prefix, dir, sizeof(prefix) - 1);
    prefixlen = strlen(prefix);
    logfd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT,
                    0600);
    count = 0;
    at[0] = at0; mode[0] = mode0; err[0] = err0;
    at[1] = at1; mode[1] = mode1; err[1] = err1;
}

void fault_disarm(void)
{
    prefixlen = 0;
}

static int concerns_path(int dirfd, const char *path)
{
    char buf[4096];
    ssize_t len;
    if (!prefixlen || !path)
        return 0;
    if (path[0] == '/')
        return !strncmp(path, prefix, prefixlen);
    if (dirfd == AT_FDCWD) {
        len = syscall(SYS_getcwd, buf, sizeof(buf));
        if (len <= 0)
            return 0;
    } else {
        char proc[64];
        snprintf(proc, sizeof(proc), "/proc/self/fd/%d", dirfd);
        len = syscall(SYS_readlink, proc, buf, sizeof(buf) - 1);
        if (len <= 0)
            return 0;
        buf[len] = 0;
    }
    return !strncmp(buf, prefix, prefixlen);
}

static int concerns_fd(int fd)
{
    char proc[64], buf[4096];
    ssize_t len;
    if (!prefixlen)
        return 0;
    snprintf(proc, sizeof(proc), "/proc/self/fd/%d", fd);
    len = syscall(SYS_readlink, proc, buf, sizeof(buf) - 1);
    if (len <= 0)
        return 0;
    buf[len] = 0;
    return !strncmp(buf, prefix, prefixlen);
}

static int step(const char *name, const char *note, int can_be_short)
{
    char buf[1200];
    int i, what = NOTHING, saved = errno;
    if (logfd >= 0) {
        i = snprintf(buf, sizeof(buf), "%d %s %.1000s\n", count, name,
                     note ? note : "");
        syscall(SYS_write, logfd, buf, i);
    }
    for (i = 0; i < 2; ++i) {
        if (at[i] == count) {
            what = mode[i];
            if (what == KILL)
                kill(getpid(), SIGKILL);
            if (what == SIGNAL) {
                raise(SIGINT);
                what = NOTHING;
            }
            if ((what == SHORT || what == PARTIAL) && !can_be_short)
                what = NOTHING;
            if (what == ERROR)
                saved = err[i];
        }
    }
    ++count;
    errno = saved;
    return what;
}

/* Every directory is a file system of its own. */
static int across(int d, const char *p, int e, const char *q)
{
    const char *paths[2] = {p, q};
    int dirs[2] = {d, e}, i;
    struct stat st[2];
    for (i = 0; i < 2; ++i) {
        char buf[4096], *slash;
        if (strlen(paths[i]) >= sizeof(buf) - 2)
            return 0;
        strcpy(buf, paths[i]);
        slash = strrchr(buf, '/');
        if (!slash)
            strcpy(buf, ".");
        else
            slash[slash == buf] = 0;
        if (syscall(SYS_newfstatat, dirs[i], buf, &st[i], 0) < 0)
            return 0;
    }
    if (st[0].st_ino == st[1].st_ino)
        return 0;
    errno = EXDEV;
    return 1;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

#define PATHCALL(ret, name, proto, path, args) \
    ret name proto { \
        static ret (*real) proto; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (concerns_path(AT_FDCWD, path) && \
                step(#name, path, 0) == ERROR) return -1; \
        return real args; \
    }
#define ATCALL(ret, name, proto, fd, path, args) \
    ret name proto { \
        static ret (*real) proto; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (concerns_path(fd, path) && \
                step(#name, path, 0) == ERROR) return -1; \
        return real args; \
    }
#define MOVECALL(name, proto, d, e, args) \
    int name proto { \
        static int (*real) proto; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (concerns_path(e, q)) { \
            if (step(#name, q, 0) == ERROR) return -1; \
            if (across(d, p, e, q)) return -1; \
        } \
        return real args; \
    }
#define FDCALL(ret, name, proto, fd, args) \
    ret name proto { \
        static ret (*real) proto; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (concerns_fd(fd) && \
                step(#name, 0, 0) == ERROR) return -1; \
        return real args; \
    }
#define OPENCALL(name) \
    int name(const char *path, int flags, ...) { \
        static int (*real)(const char *, int, ...); \
        va_list ap; mode_t m = 0; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (flags & (O_CREAT | O_TMPFILE)) { \
            va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        if (concerns_path(AT_FDCWD, path) && \
                step(flags & O_CREAT ? "create" : \
                     flags & (O_WRONLY | O_RDWR) ? "openw" : "open", \
                     path, 0) == ERROR) return -1; \
        return real(path, flags, m); \
    }
#define OPENATCALL(name) \
    int name(int fd, const char *path, int flags, ...) { \
        static int (*real)(int, const char *, int, ...); \
        va_list ap; mode_t m = 0; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (flags & (O_CREAT | O_TMPFILE)) { \
            va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        if (concerns_path(fd, path) && \
                step(flags & O_CREAT ? "create" : \
                     flags & (O_WRONLY | O_RDWR) ? "openw" : "open", \
                     path, 0) == ERROR) return -1; \
        return real(fd, path, flags, m); \
    }

OPENCALL(open)
OPENCALL(open64)
OPENATCALL(openat)
OPENATCALL(openat64)
PATHCALL(int, creat, (const char *p, mode_t m), p, (p, m))
PATHCALL(int, stat, (const char *p, struct stat *s), p, (p, s))
PATHCALL(int, stat64, (const char *p, struct stat64 *s), p, (p, s))
PATHCALL(int, lstat, (const char *p, struct stat *s), p, (p, s))
PATHCALL(int, lstat64, (const char *p, struct stat64 *s), p, (p, s))
ATCALL(int, fstatat, (int d, const char *p, struct stat *s, int f), d, p, (d, p, s, f))
ATCALL(int, fstatat64, (int d, const char *p, struct stat64 *s, int f), d, p, (d, p, s, f))
FDCALL(int, fstat, (int d, struct stat *s), d, (d, s))
FDCALL(int, fstat64, (int d, struct stat64 *s), d, (d, s))
PATHCALL(int, chmod, (const char *p, mode_t m), p, (p, m))
ATCALL(int, fchmodat, (int d, const char *p, mode_t m, int f), d, p, (d, p, m, f))
FDCALL(int, fchmod, (int d, mode_t m), d, (d, m))
PATHCALL(int, chown, (const char *p, uid_t u, gid_t g), p, (p, u, g))
PATHCALL(int, lchown, (const char *p, uid_t u, gid_t g), p, (p, u, g))
ATCALL(int, fchownat, (int d, const char *p, uid_t u, gid_t g, int f), d, p, (d, p, u, g, f))
FDCALL(int, fchown, (int d, uid_t u, gid_t g), d, (d, u, g))
PATHCALL(int, unlink, (const char *p), p, (p))
ATCALL(int, unlinkat, (int d, const char *p, int f), d, p, (d, p, f))
PATHCALL(int, mkdir, (const char *p, mode_t m), p, (p, m))
PATHCALL(int, rmdir, (const char *p), p, (p))
MOVECALL(rename, (const char *p, const char *q), AT_FDCWD, AT_FDCWD, (p, q))
MOVECALL(renameat, (int d, const char *p, int e, const char *q), d, e, (d, p, e, q))
MOVECALL(renameat2, (int d, const char *p, int e, const char *q, unsigned f), d, e, (d, p, e, q, f))
MOVECALL(link, (const char *p, const char *q), AT_FDCWD, AT_FDCWD, (p, q))
MOVECALL(linkat, (int d, const char *p, int e, const char *q, int f), d, e, (d, p, e, q, f))
PATHCALL(int, symlink, (const char *p, const char *q), q, (p, q))
ATCALL(int, symlinkat, (const char *p, int e, const char *q), e, q, (p, e, q))
PATHCALL(ssize_t, readlink, (const char *p, char *b, size_t n), p, (p, b, n))
ATCALL(ssize_t, readlinkat, (int d, const char *p, char *b, size_t n), d, p, (d, p, b, n))
PATHCALL(int, truncate, (const char *p, off_t n), p, (p, n))
PATHCALL(int, truncate64, (const char *p, off64_t n), p, (p, n))
FDCALL(int, ftruncate, (int d, off_t n), d, (d, n))
FDCALL(int, ftruncate64, (int d, off64_t n), d, (d, n))
FDCALL(int, fsync, (int d), d, (d))
FDCALL(int, fdatasync, (int d), d, (d))
FDCALL(off_t, lseek, (int d, off_t o, int w), d, (d, o, w))
FDCALL(off64_t, lseek64, (int d, off64_t o, int w), d, (d, o, w))
ATCALL(int, utimensat, (int d, const char *p, const struct timespec *t, int f), d, p, (d, p, t, f))
FDCALL(int, futimens, (int d, const struct timespec *t), d, (d, t))
FDCALL(ssize_t, sendfile, (int o, int i, off_t *off, size_t n), o, (o, i, off, n))
FDCALL(ssize_t, sendfile64, (int o, int i, off64_t *off, size_t n), o, (o, i, off, n))
FDCALL(ssize_t, copy_file_range, (int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f), o, (i, io, o, oo, n, f))

/* close() does close, also if it reports an error. */
int close(int fd)
{
    REAL(int, "close", int);
    if (concerns_fd(fd) && step("close", 0, 0) == ERROR) {
        int saved = errno;
        real(fd);
        errno = saved;
        return -1;
    }
    return real(fd);
}

ssize_t read(int fd, void *buf, size_t len)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (concerns_fd(fd)) {
        int what = step("read", 0, 1);
        if (what == ERROR)
            return -1;
        if ((what == SHORT || what == PARTIAL) && len > 1)
            len = len > 7 ? 7 : 1;
    }
    return real(fd, buf, len);
}

#define WRITES(name, proto, args) \
    ssize_t name proto { \
        static ssize_t (*real) proto; \
        if (!real) real = dlsym(RTLD_NEXT, #name); \
        if (concerns_fd(fd)) { \
            int what = step("write", 0, 1); \
            if (what == ERROR) return -1; \
            if ((what == SHORT || what == PARTIAL) && len > 1) { \
                ssize_t ret; \
                len /= 2; \
                ret = real args; \
                if (what == PARTIAL) kill(getpid(), SIGKILL); \
                return ret; \
            } \
        } \
        return real args; \
    }
WRITES(write, (int fd, const void *buf, size_t len), (fd, buf, len))
WRITES(pwrite, (int fd, const void *buf, size_t len, off_t o), (fd, buf, len, o))
WRITES(pwrite64, (int fd, const void *buf, size_t len, off64_t o), (fd, buf, len, o))
FDCALL(ssize_t, writev, (int d, const struct iovec *v, int n), d, (d, v, n))
