/* System calls of a program under the control of a plan.
 *
 * GSIM_PLAN names a file of lines "key a b c":
 *   trace PATH               where to write the calls
 *   seed N                   for the sizes of short calls
 *   rchunk N / wchunk N      largest read / write (0: as asked)
 *   rintr N / wintr N        one call in N is interrupted (0: none)
 *   rfail FILE OFFSET ERRNO  read of input FILE fails at OFFSET
 *   ofail FILE ERRNO         open of input FILE fails
 *   ointr FILE N             open of input FILE is interrupted N times
 *   wfail OFFSET ERRNO       write of the output fails at OFFSET
 *   tofile N                 the output is a file which the program creates,
 *                            not standard output
 *   cfail ERRNO              creating that file fails
 * Input files are those whose names begin with "in", a digit, and a dot.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int on, trace_fd = -1;
static uint64_t rng;
static long rchunk, wchunk, rintr, wintr;
static long rfail_file = -1, rfail_off, rfail_err;
static long ofail_file = -1, ofail_err;
static long ointr_file = -1, ointr_n;
static long wfail_off = -1, wfail_err;
static long tofile, cfail_err;
static int out_fd = 1;
static long wpos;
static int file_of[1024];
static long pos_of[1024];

static uint64_t next(void)
{
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void trace(const char *what, long a, long b, long c)
{
    char buf[128];
    if (trace_fd < 0)
        return;
    int n = snprintf(buf, sizeof buf, "%s %ld %ld %ld\n", what, a, b, c);
    syscall(SYS_write, trace_fd, buf, n);
}

__attribute__((constructor)) static void init(void)
{
    static char buf[4096];
    const char *plan = getenv("GSIM_PLAN");
    if (!plan)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, plan, O_RDONLY | O_CLOEXEC);
    if (fd < 0)
        return;
    long n = syscall(SYS_read, fd, buf, sizeof buf - 1);
    syscall(SYS_close, fd);
    if (n <= 0)
        return;
    for (char *l = strtok(buf, "\n"); l; l = strtok(NULL, "\n")) {
        char key[32], path[1024];
        long a = 0, b = 0, c = 0;
        if (sscanf(l, "trace %1023s", path) == 1) {
            int t = syscall(SYS_openat, AT_FDCWD, path,
                            O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            /* out of the way of what the program opens */
            trace_fd = fcntl(t, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, t);
            continue;
        }
        if (sscanf(l, "%31s %ld %ld %ld", key, &a, &b, &c) < 2)
            continue;
        if (!strcmp(key, "seed")) rng = a;
        else if (!strcmp(key, "rchunk")) rchunk = a;
        else if (!strcmp(key, "wchunk")) wchunk = a;
        else if (!strcmp(key, "rintr")) rintr = a;
        else if (!strcmp(key, "wintr")) wintr = a;
        else if (!strcmp(key, "rfail")) rfail_file = a, rfail_off = b, rfail_err = c;
        else if (!strcmp(key, "ofail")) ofail_file = a, ofail_err = b;
        else if (!strcmp(key, "ointr")) ointr_file = a, ointr_n = b;
        else if (!strcmp(key, "wfail")) wfail_off = a, wfail_err = b;
        else if (!strcmp(key, "tofile")) tofile = a, out_fd = -1;
        else if (!strcmp(key, "cfail")) cfail_err = a;
    }
    on = 1;
    trace("start", 0, 0, 0);
}

static int input(const char *path)
{
    const char *b = strrchr(path, '/');
    b = b ? b + 1 : path;
    if (b[0] == 'i' && b[1] == 'n' && b[2] >= '0' && b[2] <= '9' && b[3] == '.')
        return b[2] - '0';
    return -1;
}

static int do_open(int dir, const char *path, int flags, int mode)
{
    int f = on ? input(path) : -1;
    if (f >= 0 && f == ofail_file) {
        trace("open_fail", f, ofail_err, 0);
        errno = ofail_err;
        return -1;
    }
    if (f >= 0 && f == ointr_file && ointr_n > 0) {
        ointr_n--;
        trace("open_interrupted", f, 0, 0);
        errno = EINTR;
        return -1;
    }
    int make = on && tofile && (flags & O_ACCMODE) != O_RDONLY;
    if (make && cfail_err) {
        trace("create_fail", 0, cfail_err, 0);
        errno = cfail_err;
        return -1;
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (make && fd >= 0) {
        out_fd = fd;
        trace("create", 0, 0, 0);
    }
    if (fd >= 0 && fd < 1024) {
        file_of[fd] = f >= 0 ? f + 1 : 0;
        pos_of[fd] = 0;
        if (f >= 0)
            trace("open", f, 0, 0);
    }
    return fd;
}

#define MODE \
    int mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, int); \
        va_end(ap); \
    }

int open(const char *path, int flags, ...)
{
    MODE
    return do_open(AT_FDCWD, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    MODE
    return do_open(AT_FDCWD, path, flags, mode);
}

int openat(int dir, const char *path, int flags, ...)
{
    MODE
    return do_open(dir, path, flags, mode);
}

int openat64(int dir, const char *path, int flags, ...)
{
    MODE
    return do_open(dir, path, flags, mode);
}

int close(int fd)
{
    if (fd >= 0 && fd < 1024)
        file_of[fd] = 0;
    if (tofile && fd == out_fd)
        out_fd = -1;
    return syscall(SYS_close, fd);
}

ssize_t read(int fd, void *buf, size_t len)
{
    int f = on && fd >= 0 && fd < 1024 ? file_of[fd] - 1 : -1;
    if (f < 0 || len == 0)
        return syscall(SYS_read, fd, buf, len);
    if (rintr && next() % rintr == 0) {
        trace("read_interrupted", f, pos_of[fd], 0);
        errno = EINTR;
        return -1;
    }
    size_t n = len;
    if (rchunk) {
        size_t k = 1 + next() % rchunk;
        n = k < n ? k : n;
    }
    if (f == rfail_file) {
        long left = rfail_off - pos_of[fd];
        if (left <= 0) {
            trace("read_fail", f, pos_of[fd], rfail_err);
            errno = rfail_err;
            return -1;
        }
        n = left < (long)n ? (size_t)left : n;
    }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (r > 0)
        pos_of[fd] += r;
    trace(n < len ? "read_short" : "read", f, pos_of[fd], r);
    return r;
}

ssize_t write(int fd, const void *buf, size_t len)
{
    if (!on || fd != out_fd || len == 0)
        return syscall(SYS_write, fd, buf, len);
    if (wintr && next() % wintr == 0) {
        trace("write_interrupted", 0, wpos, 0);
        errno = EINTR;
        return -1;
    }
    size_t n = len;
    if (wchunk) {
        size_t k = 1 + next() % wchunk;
        n = k < n ? k : n;
    }
    if (wfail_off >= 0) {
        long left = wfail_off - wpos;
        if (left <= 0) {
            trace("write_fail", 0, wpos, wfail_err);
            errno = wfail_err;
            return -1;
        }
        n = left < (long)n ? (size_t)left : n;
    }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0)
        wpos += r;
    trace(n < len ? "write_short" : "write", 0, wpos, r);
    return r;
}

off_t lseek(int fd, off_t off, int how)
{
    off_t r = syscall(SYS_lseek, fd, off, how);
    if (r >= 0 && fd >= 0 && fd < 1024)
        pos_of[fd] = r;
    return r;
}

off64_t lseek64(int fd, off64_t off, int how)
{
    return lseek(fd, off, how);
}

ssize_t readv(int fd, const struct iovec *v, int n)
{
    int f = on && fd >= 0 && fd < 1024 ? file_of[fd] - 1 : -1;
    if (f < 0)
        return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len)
            return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!on || fd != out_fd)
        return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
