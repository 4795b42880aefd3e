/* Preloaded into the check process. Counts, logs, kills at or fails file-changing calls below a watched folder. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OFF, LOG, KILL_BEFORE, KILL_MIDDLE, KILL_AFTER, FAIL };

static char prefix[PATH_MAX];
static size_t prefixLength;
static volatile int mode = OFF;
static atomic_long counter;
static long target;
static int failError, sticky;
static int logFd = -1;

void rv_arm(const char *path, int newMode, long at, int error, int stickyFailure, const char *logPath)
{
    mode = OFF;
    if (logFd >= 0) { syscall(SYS_close, logFd); logFd = -1; }
    strncpy(prefix, path ? path : "", sizeof(prefix) - 1);
    prefixLength = strlen(prefix);
    atomic_store(&counter, 0);
    target = at; failError = error; sticky = stickyFailure;
    if (logPath && *logPath) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, logPath, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (fd >= 0) { logFd = fcntl(fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
    }
    mode = newMode;
}

void rv_disarm(void) { mode = OFF; if (logFd >= 0) { syscall(SYS_close, logFd); logFd = -1; } }
long rv_count(void) { return atomic_load(&counter); }

static void fdPath(int fd, char *out)
{
    char name[64];
    snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, name, out, PATH_MAX - 1);
    out[n > 0 ? n : 0] = 0;
}

static void absolute(int dirfd, const char *path, char *out)
{
    char base[PATH_MAX];
    if (!path) { out[0] = 0; return; }
    if (path[0] == '/') { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return; }
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof(base)) <= 0) base[0] = 0; }
    else fdPath(dirfd, base);
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
}

static void logLine(const char *what, const char *path, long n)
{
    char line[PATH_MAX + 100];
    if (logFd < 0) return;
    int length = snprintf(line, sizeof(line), "%ld\t%s\t%s\n", n, what, path);
    if (syscall(SYS_write, logFd, line, (size_t)length) < 0) {}
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* Returns: 0 go on, 1 kill in the middle, 2 kill afterwards, -1 fail with errno set. */
static int event(const char *what, const char *path)
{
    if (mode == OFF || !path[0] || strncmp(path, prefix, prefixLength) != 0) return 0;
    long n = atomic_fetch_add(&counter, 1) + 1;
    logLine(what, path, n);
    if (mode == FAIL && (n == target || (sticky && n >= target))) { errno = failError; return -1; }
    if (n != target) return 0;
    if (mode == KILL_BEFORE) die();
    if (mode == KILL_MIDDLE) return 1;
    if (mode == KILL_AFTER) return 2;
    return 0;
}

#define REAL(type, name, ...) \
    static type (*real)(__VA_ARGS__); \
    if (!real) real = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

#define FINISH(type, call) \
    if (state < 0) return -1; \
    if (state == 1) die(); \
    type result = (call); \
    if (state == 2) die(); \
    return result;

static int changingOpen(const char *path, int flags)
{
    struct stat st;
    if (flags & O_TRUNC) return 1;
    if ((flags & O_TMPFILE) == O_TMPFILE) return 1;
    if (flags & O_CREAT) return syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) != 0;
    return 0;
}

#define OPEN_BODY(NAME, DIRFD, PARAMS, CALL) \
    char full[PATH_MAX]; int state = 0; mode_t m = 0; \
    if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (mode != OFF) { \
        int saved = errno; \
        absolute(DIRFD, path, full); \
        if (changingOpen(full, flags)) { errno = saved; state = event((flags & O_TRUNC) ? "open-truncate" : "create", full); } \
        else errno = saved; \
    } \
    REAL(int, NAME, PARAMS) \
    FINISH(int, CALL)

#define COMMA ,
int open(const char *path, int flags, ...) { OPEN_BODY("open", AT_FDCWD, const char * COMMA int COMMA ..., real(path, flags, m)) }
int open64(const char *path, int flags, ...) { OPEN_BODY("open64", AT_FDCWD, const char * COMMA int COMMA ..., real(path, flags, m)) }
int openat(int dirfd, const char *path, int flags, ...) { OPEN_BODY("openat", dirfd, int COMMA const char * COMMA int COMMA ..., real(dirfd, path, flags, m)) }
int openat64(int dirfd, const char *path, int flags, ...) { OPEN_BODY("openat64", dirfd, int COMMA const char * COMMA int COMMA ..., real(dirfd, path, flags, m)) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen(const char *path, const char *how)
{
    if (mode != OFF && (strchr(how, 'w') || strchr(how, 'a'))) {
        char full[PATH_MAX]; absolute(AT_FDCWD, path, full);
        if (event("fopen", full) < 0) return NULL;
    }
    REAL(FILE *, "fopen", const char *, const char *)
    return real(path, how);
}
FILE *fopen64(const char *path, const char *how)
{
    if (mode != OFF && (strchr(how, 'w') || strchr(how, 'a'))) {
        char full[PATH_MAX]; absolute(AT_FDCWD, path, full);
        if (event("fopen", full) < 0) return NULL;
    }
    REAL(FILE *, "fopen64", const char *, const char *)
    return real(path, how);
}

#define FD_EVENT(WHAT) \
    char full[PATH_MAX]; int state = 0; \
    if (mode != OFF) { int saved = errno; fdPath(fd, full); errno = saved; state = event(WHAT, full); }

ssize_t write(int fd, const void *data, size_t n)
{
    FD_EVENT("write")
    REAL(ssize_t, "write", int, const void *, size_t)
    if (state == 1) { if (real(fd, data, n / 2)) {} die(); }
    FINISH(ssize_t, real(fd, data, n))
}
ssize_t pwrite(int fd, const void *data, size_t n, off_t at)
{
    FD_EVENT("pwrite")
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t)
    if (state == 1) { if (real(fd, data, n / 2, at)) {} die(); }
    FINISH(ssize_t, real(fd, data, n, at))
}
ssize_t pwrite64(int fd, const void *data, size_t n, off64_t at)
{
    FD_EVENT("pwrite")
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
    if (state == 1) { if (real(fd, data, n / 2, at)) {} die(); }
    FINISH(ssize_t, real(fd, data, n, at))
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    FD_EVENT("writev")
    REAL(ssize_t, "writev", int, const struct iovec *, int)
    FINISH(ssize_t, real(fd, v, n))
}
ssize_t sendfile(int fd, int in, off_t *offset, size_t n)
{
    FD_EVENT("sendfile")
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t)
    if (state == 1) { if (real(fd, in, offset, n / 2)) {} die(); }
    FINISH(ssize_t, real(fd, in, offset, n))
}
ssize_t sendfile64(int fd, int in, off64_t *offset, size_t n)
{
    FD_EVENT("sendfile")
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t)
    if (state == 1) { if (real(fd, in, offset, n / 2)) {} die(); }
    FINISH(ssize_t, real(fd, in, offset, n))
}
ssize_t copy_file_range(int in, off64_t *inOffset, int fd, off64_t *outOffset, size_t n, unsigned flags)
{
    FD_EVENT("copy_file_range")
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned)
    FINISH(ssize_t, real(in, inOffset, fd, outOffset, n, flags))
}
int ftruncate(int fd, off_t n) { FD_EVENT("ftruncate") REAL(int, "ftruncate", int, off_t) FINISH(int, real(fd, n)) }
int ftruncate64(int fd, off64_t n) { FD_EVENT("ftruncate") REAL(int, "ftruncate64", int, off64_t) FINISH(int, real(fd, n)) }
int fallocate(int fd, int how, off_t a, off_t b) { FD_EVENT("fallocate") REAL(int, "fallocate", int, int, off_t, off_t) FINISH(int, real(fd, how, a, b)) }
int posix_fallocate(int fd, off_t a, off_t b) { FD_EVENT("fallocate") REAL(int, "posix_fallocate", int, off_t, off_t) if (state < 0) return failError; FINISH(int, real(fd, a, b)) }
int fchmod(int fd, mode_t m) { FD_EVENT("fchmod") REAL(int, "fchmod", int, mode_t) FINISH(int, real(fd, m)) }
int fchown(int fd, uid_t u, gid_t g) { FD_EVENT("fchown") REAL(int, "fchown", int, uid_t, gid_t) FINISH(int, real(fd, u, g)) }
int futimens(int fd, const struct timespec t[2]) { FD_EVENT("futimens") REAL(int, "futimens", int, const struct timespec *) FINISH(int, real(fd, t)) }
int fsetxattr(int fd, const char *k, const void *v, size_t n, int f) { FD_EVENT("setxattr") REAL(int, "fsetxattr", int, const char *, const void *, size_t, int) FINISH(int, real(fd, k, v, n, f)) }

#define PATH_EVENT(WHAT, DIRFD, PATH) \
    char full[PATH_MAX]; int state = 0; \
    if (mode != OFF) { int saved = errno; absolute(DIRFD, PATH, full); errno = saved; state = event(WHAT, full); }

int truncate(const char *p, off_t n) { PATH_EVENT("truncate", AT_FDCWD, p) REAL(int, "truncate", const char *, off_t) FINISH(int, real(p, n)) }
int truncate64(const char *p, off64_t n) { PATH_EVENT("truncate", AT_FDCWD, p) REAL(int, "truncate64", const char *, off64_t) FINISH(int, real(p, n)) }
int unlink(const char *p) { PATH_EVENT("unlink", AT_FDCWD, p) REAL(int, "unlink", const char *) FINISH(int, real(p)) }
int unlinkat(int d, const char *p, int f) { PATH_EVENT("unlink", d, p) REAL(int, "unlinkat", int, const char *, int) FINISH(int, real(d, p, f)) }
int remove(const char *p) { PATH_EVENT("unlink", AT_FDCWD, p) REAL(int, "remove", const char *) FINISH(int, real(p)) }
int rmdir(const char *p) { PATH_EVENT("rmdir", AT_FDCWD, p) REAL(int, "rmdir", const char *) FINISH(int, real(p)) }
int mkdir(const char *p, mode_t m) { PATH_EVENT("mkdir", AT_FDCWD, p) REAL(int, "mkdir", const char *, mode_t) FINISH(int, real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATH_EVENT("mkdir", d, p) REAL(int, "mkdirat", int, const char *, mode_t) FINISH(int, real(d, p, m)) }
int chmod(const char *p, mode_t m) { PATH_EVENT("chmod", AT_FDCWD, p) REAL(int, "chmod", const char *, mode_t) FINISH(int, real(p, m)) }
int fchmodat(int d, const char *p, mode_t m, int f) { PATH_EVENT("chmod", d, p) REAL(int, "fchmodat", int, const char *, mode_t, int) FINISH(int, real(d, p, m, f)) }
int chown(const char *p, uid_t u, gid_t g) { PATH_EVENT("chown", AT_FDCWD, p) REAL(int, "chown", const char *, uid_t, gid_t) FINISH(int, real(p, u, g)) }
int lchown(const char *p, uid_t u, gid_t g) { PATH_EVENT("chown", AT_FDCWD, p) REAL(int, "lchown", const char *, uid_t, gid_t) FINISH(int, real(p, u, g)) }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { PATH_EVENT("chown", d, p) REAL(int, "fchownat", int, const char *, uid_t, gid_t, int) FINISH(int, real(d, p, u, g, f)) }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { PATH_EVENT("utimens", d, p) REAL(int, "utimensat", int, const char *, const struct timespec *, int) FINISH(int, real(d, p, t, f)) }
int mknod(const char *p, mode_t m, dev_t v) { PATH_EVENT("mknod", AT_FDCWD, p) REAL(int, "mknod", const char *, mode_t, dev_t) FINISH(int, real(p, m, v)) }
int mknodat(int d, const char *p, mode_t m, dev_t v) { PATH_EVENT("mknod", d, p) REAL(int, "mknodat", int, const char *, mode_t, dev_t) FINISH(int, real(d, p, m, v)) }
int mkfifo(const char *p, mode_t m) { PATH_EVENT("mknod", AT_FDCWD, p) REAL(int, "mkfifo", const char *, mode_t) FINISH(int, real(p, m)) }
int symlink(const char *t, const char *p) { PATH_EVENT("symlink", AT_FDCWD, p) REAL(int, "symlink", const char *, const char *) FINISH(int, real(t, p)) }
int symlinkat(const char *t, int d, const char *p) { PATH_EVENT("symlink", d, p) REAL(int, "symlinkat", const char *, int, const char *) FINISH(int, real(t, d, p)) }
int setxattr(const char *p, const char *k, const void *v, size_t n, int f) { PATH_EVENT("setxattr", AT_FDCWD, p) REAL(int, "setxattr", const char *, const char *, const void *, size_t, int) FINISH(int, real(p, k, v, n, f)) }
int lsetxattr(const char *p, const char *k, const void *v, size_t n, int f) { PATH_EVENT("setxattr", AT_FDCWD, p) REAL(int, "lsetxattr", const char *, const char *, const void *, size_t, int) FINISH(int, real(p, k, v, n, f)) }
int link(const char *a, const char *p) { PATH_EVENT("link", AT_FDCWD, p) REAL(int, "link", const char *, const char *) FINISH(int, real(a, p)) }
int linkat(int e, const char *a, int d, const char *p, int f) { PATH_EVENT("link", d, p) REAL(int, "linkat", int, const char *, int, const char *, int) FINISH(int, real(e, a, d, p, f)) }

#define RENAME_EVENT(D1, P1, D2, P2) \
    char from[PATH_MAX], to[PATH_MAX]; int state = 0; \
    if (mode != OFF) { \
        int saved = errno; absolute(D1, P1, from); absolute(D2, P2, to); errno = saved; \
        state = strncmp(from, prefix, prefixLength) == 0 ? event("rename", from) : event("rename-to", to); \
    }
int rename(const char *a, const char *b) { RENAME_EVENT(AT_FDCWD, a, AT_FDCWD, b) REAL(int, "rename", const char *, const char *) FINISH(int, real(a, b)) }
int renameat(int c, const char *a, int d, const char *b) { RENAME_EVENT(c, a, d, b) REAL(int, "renameat", int, const char *, int, const char *) FINISH(int, real(c, a, d, b)) }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { RENAME_EVENT(c, a, d, b) REAL(int, "renameat2", int, const char *, int, const char *, unsigned) FINISH(int, real(c, a, d, b, f)) }
