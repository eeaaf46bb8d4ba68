/* LD_PRELOAD shim: numbers the file operations below one directory, logs
   them, and crashes or fails at a chosen one. Inactive until armed. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <unistd.h>
#include <limits.h>

enum { COUNT = 0, CRASH = 1, TORN = 2, FAIL = 3, FAILALL = 4 };

static int armed, mode, err, logfd = -1;
static long counter, target, torn;
static char prefix[PATH_MAX];
static size_t prefix_len;
static char tracked[65536];

void mc_arm(const char *p, int m, long at, long arg, int log)
{
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    mode = m; target = at; err = (int)arg; torn = arg; logfd = log;
    counter = 0;
    memset(tracked, 0, sizeof tracked);
    armed = 1;
}

long mc_disarm(void) { armed = 0; return counter; }

static int below(const char *p)
{
    return p && strncmp(p, prefix, prefix_len) == 0;
}

static void put(const char *kind, int fd, const char *path, long a, long b)
{
    char buf[PATH_MAX + 200];
    struct stat st;
    unsigned long ino = 0;
    if (logfd < 0) return;
    if (fd >= 0) {
        if (syscall(SYS_fstat, fd, &st) == 0) ino = st.st_ino;
    } else if (path && syscall(SYS_newfstatat, AT_FDCWD, path, &st,
                               AT_SYMLINK_NOFOLLOW) == 0)
        ino = st.st_ino;
    int n = snprintf(buf, sizeof buf, "%ld\t%s\t%lu\t%ld\t%ld\t%s\n", counter,
                     kind, ino, a, b,
                     path ? (strlen(path) >= prefix_len ? path + prefix_len
                                                        : path) : "");
    syscall(SYS_write, logfd, buf, n);
}

/* 0: perform the operation, -1: fail with errno set, 1: perform a part */
static int hit(const char *kind, int fd, const char *path, long a, long b)
{
    counter++;
    put(kind, fd, path, a, b);
    /* every operation on the files db*, but not on the lock */
    if (mode == FAILALL && counter >= target && below(path) &&
        strncmp(path + prefix_len, "db", 2) == 0 &&
        !strstr(path + prefix_len, ".lock")) { errno = err; return -1; }
    if (counter != target) return 0;
    if (mode == CRASH) { put("CRASH", -1, 0, 0, 0); _exit(77); }
    if (mode == FAIL) { errno = err; return -1; }
    if (mode == TORN) return 1;
    return 0;
}

#define NEXT(ret, name, args) \
    static ret (*next) args; \
    if (!next) next = (ret (*) args)dlsym(RTLD_NEXT, #name)

#define IS_TRACKED(fd) (armed && (fd) >= 0 && (fd) < 65536 && tracked[fd])

static int opened(int fd, const char *path, int flags)
{
    if (fd >= 0 && fd < 65536) {
        tracked[fd] = 1;
        if (flags & (O_CREAT | O_TRUNC))
            put("created", fd, path, flags & O_TRUNC ? 1 : 0, 0);
    }
    return fd;
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    NEXT(int, name, (const char *, int, ...)); \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (!armed || !below(path)) return next(path, flags, m); \
    if (hit("open", -1, path, flags, 0) < 0) return -1; \
    return opened(next(path, flags, m), path, flags); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    NEXT(int, name, (int, const char *, int, ...)); \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (!armed || !below(path)) return next(dir, path, flags, m); \
    if (hit("open", -1, path, flags, 0) < 0) return -1; \
    return opened(next(dir, path, flags, m), path, flags); \
}
OPENAT(openat)
OPENAT(openat64)

int close(int fd)
{
    NEXT(int, close, (int));
    if (IS_TRACKED(fd)) {
        int t = hit("close", fd, 0, 0, 0);
        tracked[fd] = 0;
        if (t < 0) { int e = errno; next(fd); errno = e; return -1; }
    }
    return next(fd);
}

static void part(int fd, const void *buf, size_t n, off_t at)
{
    size_t k = (size_t)torn < n ? (size_t)torn : n;
    if (at < 0) syscall(SYS_write, fd, buf, k);
    else syscall(SYS_pwrite64, fd, buf, k, at);
    put("TORN", fd, 0, (long)k, 0);
    _exit(77);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    NEXT(ssize_t, write, (int, const void *, size_t));
    if (IS_TRACKED(fd)) {
        int t = hit("write", fd, 0, (long)lseek(fd, 0, SEEK_CUR), (long)n);
        if (t < 0) return -1;
        if (t > 0) part(fd, buf, n, -1);
    }
    return next(fd, buf, n);
}

#define PWRITE(name, off) \
ssize_t name(int fd, const void *buf, size_t n, off at) \
{ \
    NEXT(ssize_t, name, (int, const void *, size_t, off)); \
    if (IS_TRACKED(fd)) { \
        int t = hit("write", fd, 0, (long)at, (long)n); \
        if (t < 0) return -1; \
        if (t > 0) part(fd, buf, n, at); \
    } \
    return next(fd, buf, n, at); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define READ(name, params, args, proto) \
ssize_t name params \
{ \
    NEXT(ssize_t, name, proto); \
    if (IS_TRACKED(fd) && hit("read", fd, 0, 0, 0) < 0) return -1; \
    return next args; \
}
READ(read, (int fd, void *b, size_t n), (fd, b, n), (int, void *, size_t))
READ(pread, (int fd, void *b, size_t n, off_t o), (fd, b, n, o),
     (int, void *, size_t, off_t))
READ(pread64, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o),
     (int, void *, size_t, off64_t))

#define SYNC(name) \
int name(int fd) \
{ \
    NEXT(int, name, (int)); \
    if (IS_TRACKED(fd)) { \
        if (hit("fsync", fd, 0, 0, 0) < 0) return -1; \
        struct stat st; \
        syscall(SYS_fstat, fd, &st); \
        put("synced", fd, 0, (long)st.st_size, 0); \
    } \
    return next(fd); \
}
SYNC(fsync)
SYNC(fdatasync)

#define FTRUNC(name, off) \
int name(int fd, off n) \
{ \
    NEXT(int, name, (int, off)); \
    if (IS_TRACKED(fd) && hit("ftruncate", fd, 0, (long)n, 0) < 0) return -1; \
    return next(fd, n); \
}
FTRUNC(ftruncate, off_t)
FTRUNC(ftruncate64, off64_t)

#define TWO(name, kind, params, args, proto) \
int name params \
{ \
    NEXT(int, name, proto); \
    if (armed && (below(from) || below(to)) && \
        hit(kind, -1, from, 0, 0) < 0) return -1; \
    int r = next args; \
    if (armed && below(to) && r == 0) put("named", -1, to, 0, 0); \
    return r; \
}
TWO(rename, "rename", (const char *from, const char *to), (from, to),
    (const char *, const char *))
TWO(renameat, "rename", (int d, const char *from, int e, const char *to),
    (d, from, e, to), (int, const char *, int, const char *))
TWO(link, "link", (const char *from, const char *to), (from, to),
    (const char *, const char *))
TWO(linkat, "link", (int d, const char *from, int e, const char *to, int f),
    (d, from, e, to, f), (int, const char *, int, const char *, int))
TWO(symlink, "link", (const char *from, const char *to), (from, to),
    (const char *, const char *))

#define ONE(name, kind, params, args, proto) \
int name params \
{ \
    NEXT(int, name, proto); \
    if (armed && below(path) && hit(kind, -1, path, 0, 0) < 0) return -1; \
    return next args; \
}
ONE(unlink, "unlink", (const char *path), (path), (const char *))
ONE(unlinkat, "unlink", (int d, const char *path, int f), (d, path, f),
    (int, const char *, int))
ONE(truncate, "truncate", (const char *path, off_t n), (path, n),
    (const char *, off_t))
ONE(truncate64, "truncate", (const char *path, off64_t n), (path, n),
    (const char *, off64_t))
ONE(mkdir, "mkdir", (const char *path, mode_t m), (path, m),
    (const char *, mode_t))
ONE(rmdir, "rmdir", (const char *path), (path), (const char *))
ONE(chmod, "chmod", (const char *path, mode_t m), (path, m),
    (const char *, mode_t))
ONE(access, "stat", (const char *path, int m), (path, m),
    (const char *, int))
ONE(stat, "stat", (const char *path, struct stat *s), (path, s),
    (const char *, struct stat *))
ONE(lstat, "stat", (const char *path, struct stat *s), (path, s),
    (const char *, struct stat *))
ONE(stat64, "stat", (const char *path, struct stat64 *s), (path, s),
    (const char *, struct stat64 *))
ONE(lstat64, "stat", (const char *path, struct stat64 *s), (path, s),
    (const char *, struct stat64 *))
ONE(fstatat, "stat", (int d, const char *path, struct stat *s, int f),
    (d, path, s, f), (int, const char *, struct stat *, int))
ONE(fstatat64, "stat", (int d, const char *path, struct stat64 *s, int f),
    (d, path, s, f), (int, const char *, struct stat64 *, int))

#define FSTAT(name, type) \
int name(int fd, struct type *s) \
{ \
    NEXT(int, name, (int, struct type *)); \
    if (IS_TRACKED(fd) && hit("fstat", fd, 0, 0, 0) < 0) return -1; \
    return next(fd, s); \
}
FSTAT(fstat, stat)
FSTAT(fstat64, stat64)

#define MMAP(name, off) \
void *name(void *a, size_t n, int p, int f, int fd, off o) \
{ \
    NEXT(void *, name, (void *, size_t, int, int, int, off)); \
    if (IS_TRACKED(fd) && hit("mmap", fd, 0, 0, 0) < 0) return MAP_FAILED; \
    return next(a, n, p, f, fd, o); \
}
MMAP(mmap, off_t)
MMAP(mmap64, off64_t)
