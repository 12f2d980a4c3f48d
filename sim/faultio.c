/* Preloaded into the command line interface: counts its operations on files below $FIO_DIR and on
 * its output, and lets chosen ones fail, stop short, stall or kill the process.
 *   FIO_PLAN  "<n>:<kind>:<arg>;..."  n counts operations from 0, from 1000 those that write to files
 *             e errno | s part (2^-16) | k kill before | K part, then kill | a after, kill | p stop
 *             and "B:<bytes>": the disk is full once so many bytes were written to files
 *   FIO_ROOT  the scratch directory: nothing outside it (and /tmp) can be changed
 *   FIO_LOG   a line for every operation
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 256
static unsigned char ours[4096];
static struct { long n; char kind; long arg; } plan[MAXF];
static int plans, ready, logfd = -1;
static long count, outs, budget = -1;
static char dir[512], root[512];

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *d = getenv("FIO_DIR"), *p = getenv("FIO_PLAN"), *l = getenv("FIO_LOG");
    if (getenv("FIO_ROOT")) snprintf(root, sizeof root, "%s", getenv("FIO_ROOT"));
    if (d) snprintf(dir, sizeof dir, "%s", d);
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    while (p && *p && plans < MAXF) {
        long n, a; char k;
        if (p[0] == 'B') budget = atol(p + 2);
        else if (sscanf(p, "%ld:%c:%ld", &n, &k, &a) == 3) { plan[plans].n = n; plan[plans].kind = k; plan[plans].arg = a; plans++; }
        p = strchr(p, ';');
        if (p) p++;
    }
    ours[1] = 2;
}
static void note(const char *call, int class, char kind, long ret) {
    if (kind == 'e' && ret == -EINTR && strcmp(call, "rename") && strcmp(call, "unlink")) kind = 'i';
    char b[160];
    int n = snprintf(b, sizeof b, "%ld %s %c %c %ld\n", count - 1, call, class == 2 ? 'o' : 'f', kind, ret);
    if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
static int below(const char *path) {
    init();
    return dir[0] && path && !strncmp(path, dir, strlen(dir));
}
/* Would changing this file leave the scratch directory? */
static int outside(int at, const char *path) {
    char b[1024], l[32];
    init();
    if (!root[0] || !path) return 0;
    if (*path == '/') snprintf(b, sizeof b, "%s", path);
    else {
        if (at == AT_FDCWD) snprintf(l, sizeof l, "/proc/self/cwd");
        else snprintf(l, sizeof l, "/proc/self/fd/%d", at);
        ssize_t n = readlink(l, b, 500);
        if (n < 0) return 0;
        snprintf(b + n, sizeof b - n, "/%s", path);
    }
    if (strstr(b, "/..")) return 1;
    if (!strncmp(b, root, strlen(root)) || !strncmp(b, "/tmp/", 5)) return 0;
    return strcmp(b, "/dev/null") && strcmp(b, "/dev/tty") && strncmp(b, "/dev/std", 8) && strncmp(b, "/dev/fd/", 8) && strncmp(b, "/proc/self/fd/", 14);
}
#define INSIDE(at, path) if (outside(at, path)) { errno = EACCES; return -1; }
static int cls(int fd) {
    init();
    return fd >= 0 && fd < 4096 ? ours[fd] : 0;
}
static void die(const char *call, int c, char k) {
    note(call, c, k, 0);
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
}
/* the fault for this operation; returns its kind, 0 for none */
static char fault(const char *call, int c, long *arg) {
    long n = count++;
    long o = c == 1 && strcmp(call, "open") && !strstr(call, "read") ? 1000 + outs++ : -1;
    for (int i = 0; i < plans; i++)
        if (plan[i].n == n || plan[i].n == o) {
            *arg = plan[i].arg;
            if (plan[i].kind == 'k') die(call, c, 'k');
            if (plan[i].kind == 'p') { note(call, c, 'p', 0); syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP); return 0; }
            return plan[i].kind;
        }
    return 0;
}
/* any operation that moves `len` bytes by way of `DO(n)` */
#define MOVE(name, fd, len, isw, DO)                                                                       \
    int c = cls(fd);                                                                                       \
    if (!c) return DO(len);                                                                                \
    long arg = 0; size_t n = (len);                                                                        \
    char k = fault(name, c, &arg);                                                                         \
    if (k == 'e') { note(name, c, k, -arg); errno = arg; return -1; }                                      \
    if ((k == 's' || k == 'K') && n) { size_t m = (n * (size_t)(arg & 0xffff)) >> 16; n = m ? m : (k == 'K' ? 0 : 1); } \
    if ((isw) && c == 1 && budget >= 0) {                                                                  \
        if (!budget && n) { note(name, c, 'B', -ENOSPC); errno = ENOSPC; return -1; }                      \
        if ((long)n > budget) { n = budget; k = 'B'; }                                                     \
    }                                                                                                      \
    ssize_t r = n || !(len) ? DO(n) : 0;                                                                   \
    if ((isw) && c == 1 && budget >= 0 && r > 0) budget -= r;                                              \
    if (k == 'K' || k == 'a') die(name, c, k);                                                             \
    int e = errno; note(name, c, k ? k : '-', r); errno = e;                                               \
    return r;

ssize_t write(int fd, const void *b, size_t len) {
#define DO(n) syscall(SYS_write, fd, b, (size_t)(n))
    MOVE("write", fd, len, 1, DO)
#undef DO
}
ssize_t read(int fd, void *b, size_t len) {
#define DO(n) syscall(SYS_read, fd, b, (size_t)(n))
    MOVE("read", fd, len, 0, DO)
#undef DO
}
ssize_t pread64(int fd, void *b, size_t len, off64_t o) {
#define DO(n) syscall(SYS_pread64, fd, b, (size_t)(n), o)
    MOVE("pread", fd, len, 0, DO)
#undef DO
}
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t o) {
#define DO(n) syscall(SYS_pwrite64, fd, b, (size_t)(n), o)
    MOVE("pwrite", fd, len, 1, DO)
#undef DO
}
static size_t total(const struct iovec *v, int n) {
    size_t t = 0;
    for (int i = 0; i < n; i++) t += v[i].iov_len;
    return t;
}
static ssize_t vec(int fd, const struct iovec *v, int cnt, size_t n, long call) {
    struct iovec w[64];
    int m = 0;
    for (int i = 0; i < cnt && m < 64 && n; i++) {
        w[m] = v[i];
        if (w[m].iov_len > n) w[m].iov_len = n;
        n -= w[m++].iov_len;
    }
    return syscall(call, fd, w, m);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
#define DO(n) vec(fd, v, cnt, (n), SYS_writev)
    size_t len = total(v, cnt);
    MOVE("writev", fd, len, 1, DO)
#undef DO
}
ssize_t readv(int fd, const struct iovec *v, int cnt) {
#define DO(n) vec(fd, v, cnt, (n), SYS_readv)
    size_t len = total(v, cnt);
    MOVE("readv", fd, len, 0, DO)
#undef DO
}
#define SIMPLE(name, c, CALL)                                              \
    long arg = 0;                                                          \
    char k = fault(name, c, &arg);                                         \
    if (k == 'e') { note(name, c, k, -arg); errno = arg; return -1; }      \
    if (k == 'K') die(name, c, k);                                         \
    long r = (CALL);                                                       \
    if (k == 'a') die(name, c, k);                                         \
    int e_ = errno; note(name, c, k == 's' || !k ? '-' : k, r); errno = e_;

static int do_open(int at, const char *path, int flags, mode_t mode) {
    if (flags & (O_ACCMODE | O_CREAT | O_TRUNC)) INSIDE(at, path)
    if (!below(path)) {
        int fd = syscall(SYS_openat, at, path, flags, mode);
        if (fd > 2 && fd < 4096) ours[fd] = 0;
        return fd;
    }
    SIMPLE(flags & O_ACCMODE ? "create" : "open", 1, syscall(SYS_openat, at, path, flags, mode))
    if (r >= 0 && r < 4096) ours[r] = 1;
    return r;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m); }
int openat64(int at, const char *path, int flags, ...) { MODE return do_open(at, path, flags | O_LARGEFILE, m); }
int openat(int at, const char *path, int flags, ...) { MODE return do_open(at, path, flags, m); }
int fsync(int fd) {
    int c = cls(fd);
    if (!c) return syscall(SYS_fsync, fd);
    SIMPLE("fsync", c, syscall(SYS_fsync, fd))
    return r;
}
int fdatasync(int fd) {
    int c = cls(fd);
    if (!c) return syscall(SYS_fdatasync, fd);
    SIMPLE("fdatasync", c, syscall(SYS_fdatasync, fd))
    return r;
}
int ftruncate64(int fd, off64_t n) {
    int c = cls(fd);
    if (!c) return syscall(SYS_ftruncate, fd, n);
    SIMPLE("truncate", c, syscall(SYS_ftruncate, fd, n))
    return r;
}
int rename(const char *a, const char *b) {
    INSIDE(AT_FDCWD, a)
    INSIDE(AT_FDCWD, b)
    if (!below(a) && !below(b)) return syscall(SYS_rename, a, b);
    SIMPLE("rename", 1, syscall(SYS_rename, a, b))
    return r;
}
int unlink(const char *a) {
    INSIDE(AT_FDCWD, a)
    if (!below(a)) return syscall(SYS_unlink, a);
    SIMPLE("unlink", 1, syscall(SYS_unlink, a))
    return r;
}
int renameat(int f, const char *a, int t, const char *b) {
    INSIDE(f, a)
    INSIDE(t, b)
    return syscall(SYS_renameat, f, a, t, b);
}
int renameat2(int f, const char *a, int t, const char *b, unsigned flags) {
    INSIDE(f, a)
    INSIDE(t, b)
    return syscall(SYS_renameat2, f, a, t, b, flags);
}
int unlinkat(int at, const char *a, int flags) {
    INSIDE(at, a)
    return syscall(SYS_unlinkat, at, a, flags);
}
int rmdir(const char *a) {
    INSIDE(AT_FDCWD, a)
    return syscall(SYS_rmdir, a);
}
int symlink(const char *a, const char *b) {
    INSIDE(AT_FDCWD, b)
    return syscall(SYS_symlink, a, b);
}
int link(const char *a, const char *b) {
    INSIDE(AT_FDCWD, b)
    return syscall(SYS_link, a, b);
}
int linkat(int f, const char *a, int t, const char *b, int flags) {
    INSIDE(t, b)
    return syscall(SYS_linkat, f, a, t, b, flags);
}
int mkdir(const char *a, mode_t m) {
    INSIDE(AT_FDCWD, a)
    return syscall(SYS_mkdir, a, m);
}
int truncate64(const char *a, off64_t n) {
    INSIDE(AT_FDCWD, a)
    return syscall(SYS_truncate, a, n);
}
int chmod(const char *a, mode_t m) {
    INSIDE(AT_FDCWD, a)
    return syscall(SYS_chmod, a, m);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t len, unsigned flags) {
    (void)in; (void)oi; (void)out; (void)oo; (void)len; (void)flags;
    errno = EXDEV; /* let the caller read and write instead */
    return -1;
}
