/* LD_PRELOAD library: logs every call which changes a file below a directory, with the data written.
 * mc_record(dir, log): start, mc_record(0, 0): stop.  Log entry: one line "OP off len path", then `len` bytes of data. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[4096];
static size_t rootlen;
static int logfd = -1;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static ssize_t raw_write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    return real(fd, buf, n);
}

int mc_record(const char *dir, const char *log) {
    REAL(int, "open", const char *, int, ...);
    if (logfd >= 0) { close(logfd); logfd = -1; }
    if (!dir) return 0;
    snprintf(root, sizeof root, "%s/", dir);
    rootlen = strlen(root);
    logfd = real(log, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    return logfd < 0 ? -1 : 0;
}

static int inside(const char *path) { return logfd >= 0 && path && strncmp(path, root, rootlen) == 0; }

static int of_fd(int fd, char *path, size_t n) {
    char link[64];
    ssize_t k;
    if (logfd < 0 || fd == logfd) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    k = readlink(link, path, n - 1);
    if (k <= 0) return 0;
    path[k] = 0;
    return inside(path);
}

static void emit(const char *op, long off, size_t len, const char *path, const void *data) {
    char head[8192];
    int save = errno;
    int n = snprintf(head, sizeof head, "%s %ld %zu %s\n", op, off, len, path + rootlen);
    raw_write(logfd, head, n);
    if (len) raw_write(logfd, data, len);
    errno = save;
}

static void opening(const char *path, int flags) {
    struct stat st;
    if (!inside(path)) return;
    if (stat(path, &st) != 0) { if (flags & O_CREAT) emit("create", 0, 0, path, 0); }
    else if ((flags & O_TRUNC) && st.st_size) emit("trunc", 0, 0, path, 0);
}

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    mode_t mode = 0; va_list ap; \
    REAL(int, #name, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    opening(path, flags); \
    return real(path, flags, mode); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) { \
    mode_t mode = 0; va_list ap; \
    REAL(int, #name, int, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    opening(path, flags); \
    return real(dir, path, flags, mode); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *buf, size_t n) {
    char path[4096];
    if (of_fd(fd, path, sizeof path)) {
        off_t off = (fcntl(fd, F_GETFL) & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
        emit("write", off, n, path, buf);
    }
    return raw_write(fd, buf, n);
}

#define PWRITE(name, off_type) \
ssize_t name(int fd, const void *buf, size_t n, off_type off) { \
    char path[4096]; \
    REAL(ssize_t, #name, int, const void *, size_t, off_type); \
    if (of_fd(fd, path, sizeof path)) emit("write", (long)off, n, path, buf); \
    return real(fd, buf, n, off); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    char path[4096];
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (of_fd(fd, path, sizeof path)) {
        off_t off = lseek(fd, 0, SEEK_CUR);
        for (int i = 0; i < cnt; i++) { emit("write", off, iov[i].iov_len, path, iov[i].iov_base); off += iov[i].iov_len; }
    }
    return real(fd, iov, cnt);
}

#define FTRUNC(name, off_type) \
int name(int fd, off_type len) { \
    char path[4096]; \
    REAL(int, #name, int, off_type); \
    if (of_fd(fd, path, sizeof path)) emit("trunc", (long)len, 0, path, 0); \
    return real(fd, len); \
}
FTRUNC(ftruncate, off_t)
FTRUNC(ftruncate64, off64_t)

int unlink(const char *path) {
    REAL(int, "unlink", const char *);
    if (inside(path) && access(path, F_OK) == 0) emit("unlink", 0, 0, path, 0);
    return real(path);
}

int unlinkat(int dir, const char *path, int flags) {
    REAL(int, "unlinkat", int, const char *, int);
    if (inside(path) && access(path, F_OK) == 0) emit("unlink", 0, 0, path, 0);
    return real(dir, path, flags);
}

int rename(const char *from, const char *to) {
    REAL(int, "rename", const char *, const char *);
    if (inside(from) && inside(to)) emit("rename", 0, strlen(to + rootlen), from, to + rootlen);
    return real(from, to);
}

int renameat(int a, const char *from, int b, const char *to) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if (inside(from) && inside(to)) emit("rename", 0, strlen(to + rootlen), from, to + rootlen);
    return real(a, from, b, to);
}
