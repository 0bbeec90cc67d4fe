// File operations of libc, observed and decided.
//
// Linked into the harness (MC_LINKED) a pair of functions decides and observes every call.  As a
// preloaded library of the command, the environment says which call fails, is cut short or is the
// last one, and every call is written to a log:
//   SHIM_ROOT   directory; only files below it count
//   SHIM_LOG    file the calls are appended to
//   SHIM_AT     number of the call that is treated specially (from 1)
//   SHIM_ACT    err:N (fails with errno N), kill (the process ends before it), half (it transfers
//               half, then the process ends), short (it transfers half), full (it transfers half,
//               and everything that needs space fails from then on), wait:F (it makes the file F.stop
//               and goes on once there is F.go)
//   SHIM_EVERY  no transfer is longer than this
//   SHIM_INTR   every so many transfers one is interrupted (EINTR) instead
//   SHIM_SERIAL threads run one after another, in the order of their creation
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum kind { K_OPEN = 1, K_READ, K_WRITE, K_SEEK, K_TRUNC, K_SYNC, K_STAT, K_UNLINK, K_RMDIR, K_MKDIR, K_RENAME, K_LINK, K_SYMLINK, K_CHMOD, K_OPENDIR, K_READDIR, K_COPY, K_CLOSE };
__attribute__((unused)) static const char *const names[] = { "?", "open", "read", "write", "seek", "truncate", "sync", "stat", "unlink", "rmdir", "mkdir", "rename", "link", "symlink", "chmod", "opendir", "readdir", "copy", "close" };

struct mc_op {
    int kind;
    int fd;
    int flags;
    long off;            // position before the call, -1 if there is none
    unsigned long len;
    const void *data;    // of writes
    const char *path;    // absolute
    const char *path2;
};

// 0: go on; n > 0: fail with errno n; n < 0: transfer at most -n bytes
typedef long (*before_fn)(struct mc_op *);
typedef void (*after_fn)(struct mc_op *, long ret, int err);

#define NFD 4096
static char *fd_path[NFD];
static pthread_mutex_t fd_lock = PTHREAD_MUTEX_INITIALIZER;

// a child must not find a lock held by a thread it doesn't have
static void fork_lock(void) { pthread_mutex_lock(&fd_lock); }
static void fork_unlock(void) { pthread_mutex_unlock(&fd_lock); }
__attribute__((constructor)) static void at_fork(void) { pthread_atfork(fork_lock, fork_unlock, fork_unlock); }
static __thread int inside;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

#ifdef MC_LINKED
before_fn mc_before;
after_fn mc_after;
static int active(void) { return mc_before != NULL && !inside; }
static int counts(const char *path) { (void)path; return 1; }
static long before(struct mc_op *o) { inside++; long r = mc_before(o); inside--; return r; }
static void after(struct mc_op *o, long ret, int err) { if (mc_after) { inside++; mc_after(o, ret, err); inside--; } }
#else
static char root[1024];
static int log_fd = -1;
static long at = -1, act_errno;
static int act; // 1 errno, 2 kill, 3 half, 4 short, 5 full, 6 wait
static char wait_stop[1024], wait_go[1024];
static atomic_long count;
static atomic_int full;
static int serial;
static long every, intr;
static atomic_long transfers;
static pthread_mutex_t log_lock = PTHREAD_MUTEX_INITIALIZER;

static long raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }

__attribute__((constructor)) static void init(void) {
    const char *r = getenv("SHIM_ROOT");
    if (!r) return;
    snprintf(root, sizeof root, "%s/", r);
    const char *l = getenv("SHIM_LOG");
    if (l) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
        log_fd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    const char *a = getenv("SHIM_AT");
    if (a) at = atol(a);
    a = getenv("SHIM_ACT");
    if (a && !strncmp(a, "err:", 4)) { act = 1; act_errno = atol(a + 4); }
    if (a && !strcmp(a, "kill")) act = 2;
    if (a && !strcmp(a, "half")) act = 3;
    if (a && !strcmp(a, "short")) act = 4;
    if (a && !strcmp(a, "full")) act = 5;
    if (a && !strncmp(a, "wait:", 5)) {
        act = 6;
        snprintf(wait_stop, sizeof wait_stop, "%s.stop", a + 5);
        snprintf(wait_go, sizeof wait_go, "%s.go", a + 5);
    }
    a = getenv("SHIM_EVERY");
    if (a) every = atol(a);
    a = getenv("SHIM_INTR");
    if (a) intr = atol(a);
    serial = getenv("SHIM_SERIAL") != NULL;
}

static int active(void) { return root[0] && !inside; }
static int counts(const char *path) { return path && (!strncmp(path, root, strlen(root)) || (strlen(path) + 1 == strlen(root) && !strncmp(path, root, strlen(path)))); }

static uint64_t fnv(const unsigned char *p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    return h;
}

static void quit(void) { syscall(SYS_exit_group, 77); __builtin_unreachable(); }

static int needs_space(int kind) { return kind == K_WRITE || kind == K_MKDIR || kind == K_COPY; }

static long before(struct mc_op *o) {
    if (o->kind == K_CLOSE) return 0;
    long n = atomic_fetch_add(&count, 1) + 1;
    if (atomic_load(&full) && needs_space(o->kind)) return ENOSPC;
    if (n != at) {
        if ((o->kind == K_READ || o->kind == K_WRITE) && (every || intr)) {
            if (intr && (atomic_fetch_add(&transfers, 1) + 1) % intr == 0) return EINTR;
            if (every && o->len > (unsigned long)every) return -every;
        }
        return 0;
    }
    switch (act) {
    case 1: return act_errno;
    case 2: quit(); return 0;
    case 3: if (o->len < 2) quit(); return -(long)(o->len / 2);
    case 4: if (o->len < 2) return 0; return -(long)(o->len / 2);
    case 6: {
        int e = errno;
        syscall(SYS_close, syscall(SYS_openat, AT_FDCWD, wait_stop, O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
        struct timespec t = { 0, 100000 };
        while (syscall(SYS_faccessat, AT_FDCWD, wait_go, F_OK) != 0) syscall(SYS_nanosleep, &t, NULL);
        errno = e;
        return 0;
    }
    case 5: atomic_store(&full, 1); if (o->len < 2 || !needs_space(o->kind)) return ENOSPC; return -(long)(o->len / 2);
    }
    return 0;
}

static int hex(char *to, size_t cap, const char *s) {
    size_t n = 0;
    for (; s && *s && n + 5 < cap; s++) {
        unsigned char c = (unsigned char)*s;
        if (c > 32 && c < 127 && c != '%') to[n++] = (char)c;
        else n += (size_t)snprintf(to + n, cap - n, "%%%02x", c);
    }
    if (n == 0) to[n++] = '-';
    to[n] = 0;
    return (int)n;
}

static void after(struct mc_op *o, long ret, int err) {
    if (log_fd >= 0) {
        char a[2048], b[2048], line[5000];
        hex(a, sizeof a, o->path);
        hex(b, sizeof b, o->path2);
        uint64_t h = 0;
        int zero = 0;
        if (o->kind == K_WRITE && ret > 0 && o->data) {
            h = fnv(o->data, (size_t)ret);
            zero = 1;
            for (long i = 0; i < ret; i++) if (((const char *)o->data)[i]) zero = 0;
        }
        // number kind fd flags offset length result errno zero hash path path2
        int n = snprintf(line, sizeof line, "%ld %s %d %d %ld %lu %ld %d %d %llx %s %s\n", o->kind == K_CLOSE ? 0 : atomic_load(&count), names[o->kind], o->fd, o->flags, o->off, o->len, ret, ret < 0 ? err : 0, zero, (unsigned long long)h, a, b);
        pthread_mutex_lock(&log_lock);
        raw_write(log_fd, line, (size_t)n);
        pthread_mutex_unlock(&log_lock);
    }
    if (act == 3 && atomic_load(&count) == at && o->kind != K_CLOSE) quit();
}
#endif

// ---- paths ----

static void normalize(char *p) {
    // "a//b", "a/./b"; ".." stays as it is (it may cross links)
    char *w = p, *r = p;
    while (*r) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || r[2] == 0)) { r += 2; continue; }
        *w++ = *r++;
    }
    if (w == p) *w++ = '/';
    if (w > p + 1 && w[-1] == '/') w--;
    *w = 0;
}

static char *fd_name(int fd) {
    char *s = NULL;
    if (fd < 0 || fd >= NFD) return NULL;
    pthread_mutex_lock(&fd_lock);
    if (fd_path[fd]) s = strdup(fd_path[fd]);
    pthread_mutex_unlock(&fd_lock);
    return s;
}

// the absolute name; parent directories without links, the last component as it is
static char *absolute(int dirfd, const char *path) {
    if (!path) return NULL;
    char buf[8192];
    if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
    else {
        char base[4096] = "";
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
        } else {
            char *n = fd_name(dirfd);
            snprintf(base, sizeof base, "%s", n ? n : "");
            free(n);
            if (!base[0]) {
                char link[64];
                snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
                long n2 = syscall(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
                base[n2 > 0 ? n2 : 0] = 0;
            }
        }
        snprintf(buf, sizeof buf, "%s/%s", base, path);
    }
    normalize(buf);
    if (strstr(buf, "/..")) {
        // let the kernel find the directory
        char dir[8192];
        snprintf(dir, sizeof dir, "%s", buf);
        char *slash = strrchr(dir, '/');
        char last[1024];
        snprintf(last, sizeof last, "%s", slash + 1);
        int whole = !strcmp(last, "..");
        if (!whole) { if (slash == dir) slash[1] = 0; else *slash = 0; }
        int fd = (int)syscall(SYS_openat, AT_FDCWD, dir, O_PATH | O_DIRECTORY | O_CLOEXEC, 0);
        if (fd >= 0) {
            char link[64], real[4096];
            snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            long n = syscall(SYS_readlinkat, AT_FDCWD, link, real, sizeof real - 1);
            syscall(SYS_close, fd);
            if (n > 0) {
                real[n] = 0;
                if (whole) snprintf(buf, sizeof buf, "%s", real);
                else snprintf(buf, sizeof buf, "%s/%s", strcmp(real, "/") ? real : "", last);
            }
        }
    }
    return strdup(buf);
}

static void set_fd(int fd, const char *path) {
    if (fd < 0 || fd >= NFD) return;
    pthread_mutex_lock(&fd_lock);
    free(fd_path[fd]);
    fd_path[fd] = path ? strdup(path) : NULL;
    pthread_mutex_unlock(&fd_lock);
}

// ---- descriptors ----

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!active()) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    char *abs = absolute(dirfd, path);
    if (!counts(abs)) {
        free(abs);
        int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
        int e = errno;
        set_fd(fd, NULL);
        errno = e;
        return fd;
    }
    struct mc_op o = { K_OPEN, -1, flags, -1, 0, NULL, abs, NULL };
    long d = before(&o);
    int r, e;
    if (d > 0) { r = -1; e = (int)d; }
    else { r = (int)syscall(SYS_openat, dirfd, path, flags, mode); e = errno; }
    if (r >= 0) set_fd(r, abs);
    o.fd = r;
    after(&o, r, e);
    free(abs);
    errno = e;
    return r;
}

#define MODE() mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

int close(int fd) {
    if (active()) {
        char *n = fd_name(fd);
        if (n) {
            struct mc_op o = { K_CLOSE, fd, 0, -1, 0, NULL, n, NULL };
            after(&o, 0, 0);
            set_fd(fd, NULL);
            free(n);
        }
    } else if (fd >= 0 && fd < NFD && fd_path[fd]) set_fd(fd, NULL);
    return (int)syscall(SYS_close, fd);
}

// an operation on a descriptor
#define ON_FD(KIND, FD, LEN, DATA, FLAGS, POS, CALL) \
    char *n_ = active() ? fd_name(FD) : NULL; \
    if (!n_) return CALL; \
    struct mc_op o = { KIND, FD, FLAGS, (POS) < 0 ? syscall(SYS_lseek, FD, 0, SEEK_CUR) : (POS), LEN, DATA, n_, NULL }; \
    long d_ = before(&o), r_; int e_; \
    if (d_ > 0) { r_ = -1; e_ = (int)d_; } \
    else { if (d_ < 0) len = (size_t)-d_; r_ = CALL; e_ = errno; } \
    after(&o, r_, e_); \
    free(n_); \
    errno = e_; \
    return r_

ssize_t read(int fd, void *buf, size_t len) { ON_FD(K_READ, fd, len, NULL, 0, -1, syscall(SYS_read, fd, buf, len)); }
ssize_t write(int fd, const void *buf, size_t len) { ON_FD(K_WRITE, fd, len, buf, 0, -1, syscall(SYS_write, fd, buf, len)); }
ssize_t pread(int fd, void *buf, size_t len, off_t at_) { ON_FD(K_READ, fd, len, NULL, 0, at_, syscall(SYS_pread64, fd, buf, len, at_)); }
ssize_t pread64(int fd, void *buf, size_t len, off64_t at_) { ON_FD(K_READ, fd, len, NULL, 0, at_, syscall(SYS_pread64, fd, buf, len, at_)); }
ssize_t pwrite(int fd, const void *buf, size_t len, off_t at_) { ON_FD(K_WRITE, fd, len, buf, 0, at_, syscall(SYS_pwrite64, fd, buf, len, at_)); }
ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t at_) { ON_FD(K_WRITE, fd, len, buf, 0, at_, syscall(SYS_pwrite64, fd, buf, len, at_)); }
// vectors: one element at a time, which is a permitted partial transfer
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!active() || fd < 0 || fd >= NFD || !fd_path[fd]) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!active() || fd < 0 || fd >= NFD || !fd_path[fd]) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static off_t do_lseek(int fd, off_t to, int whence) { size_t len = 0; (void)len; ON_FD(K_SEEK, fd, 0, NULL, whence, -1, syscall(SYS_lseek, fd, to, whence)); }
off_t lseek(int fd, off_t to, int whence) { return do_lseek(fd, to, whence); }
off64_t lseek64(int fd, off64_t to, int whence) { return do_lseek(fd, to, whence); }
static int do_ftruncate(int fd, off_t to) { size_t len = 0; (void)len; ON_FD(K_TRUNC, fd, (unsigned long)to, NULL, 0, -1, syscall(SYS_ftruncate, fd, to)); }
int ftruncate(int fd, off_t to) { return do_ftruncate(fd, to); }
int ftruncate64(int fd, off64_t to) { return do_ftruncate(fd, to); }
int fsync(int fd) { size_t len = 0; (void)len; ON_FD(K_SYNC, fd, 0, NULL, 0, -1, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { size_t len = 0; (void)len; ON_FD(K_SYNC, fd, 0, NULL, 0, -1, syscall(SYS_fdatasync, fd)); }
int fchmod(int fd, mode_t m) { size_t len = 0; (void)len; ON_FD(K_CHMOD, fd, 0, NULL, (int)m, -1, syscall(SYS_fchmod, fd, m)); }
int fallocate(int fd, int mode, off_t off, off_t n) { size_t len = 0; (void)len; ON_FD(K_TRUNC, fd, (unsigned long)(off + n), NULL, 0, -1, syscall(SYS_fallocate, fd, mode, off, n)); }
int posix_fallocate(int fd, off_t off, off_t n) { return fallocate(fd, 0, off, n) ? errno : 0; }

// copies inside of the kernel: refused, so that callers fall back to reading and writing
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (active() && ((a >= 0 && a < NFD && fd_path[a]) || (b >= 0 && b < NFD && fd_path[b]))) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
    if (active() && ((a >= 0 && a < NFD && fd_path[a]) || (b >= 0 && b < NFD && fd_path[b]))) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, a, b, x, n);
}
ssize_t sendfile(int a, int b, off_t *x, size_t n) { return sendfile64(a, b, x, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (active() && ((a >= 0 && a < NFD && fd_path[a]) || (b >= 0 && b < NFD && fd_path[b]))) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, x, b, y, n, f);
}

// ---- names ----

#define ON_PATH(KIND, ABS, ABS2, FLAGS, CALL) \
    char *a_ = active() ? (ABS) : NULL, *b_ = active() ? (ABS2) : NULL; \
    if (!(counts(a_) && a_) && !(counts(b_) && b_)) { free(a_); free(b_); return CALL; } \
    struct mc_op o = { KIND, -1, FLAGS, -1, 0, NULL, a_, b_ }; \
    long d_ = before(&o), r_; int e_; \
    if (d_ > 0) { r_ = -1; e_ = (int)d_; } else { r_ = CALL; e_ = errno; } \
    after(&o, r_, e_); \
    free(a_); free(b_); \
    errno = e_; \
    return (int)r_

static int do_unlinkat(int d, const char *p, int flags) { ON_PATH(flags & AT_REMOVEDIR ? K_RMDIR : K_UNLINK, absolute(d, p), NULL, flags, (int)syscall(SYS_unlinkat, d, p, flags)); }
int unlink(const char *p) { return do_unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char *p, int flags) { return do_unlinkat(d, p, flags); }
static int do_mkdirat(int d, const char *p, mode_t m) { ON_PATH(K_MKDIR, absolute(d, p), NULL, (int)m, (int)syscall(SYS_mkdirat, d, p, m)); }
int mkdir(const char *p, mode_t m) { return do_mkdirat(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdirat(d, p, m); }
static int do_rename(int d, const char *p, int d2, const char *q, unsigned f) { ON_PATH(K_RENAME, absolute(d, p), absolute(d2, q), (int)f, (int)syscall(SYS_renameat2, d, p, d2, q, f)); }
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int d, const char *p, int d2, const char *q) { return do_rename(d, p, d2, q, 0); }
int renameat2(int d, const char *p, int d2, const char *q, unsigned f) { return do_rename(d, p, d2, q, f); }
static int do_linkat(int d, const char *p, int d2, const char *q, int f) { ON_PATH(K_LINK, absolute(d, p), absolute(d2, q), f, (int)syscall(SYS_linkat, d, p, d2, q, f)); }
int link(const char *p, const char *q) { return do_linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }
int linkat(int d, const char *p, int d2, const char *q, int f) { return do_linkat(d, p, d2, q, f); }
static int do_symlinkat(const char *p, int d, const char *q) { ON_PATH(K_SYMLINK, absolute(d, q), NULL, 0, (int)syscall(SYS_symlinkat, p, d, q)); }
int symlink(const char *p, const char *q) { return do_symlinkat(p, AT_FDCWD, q); }
int symlinkat(const char *p, int d, const char *q) { return do_symlinkat(p, d, q); }
static int do_chmodat(int d, const char *p, mode_t m) { ON_PATH(K_CHMOD, absolute(d, p), NULL, (int)m, (int)syscall(SYS_fchmodat, d, p, m)); }
int chmod(const char *p, mode_t m) { return do_chmodat(AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return do_chmodat(d, p, m); }
int truncate(const char *p, off_t to) { ON_PATH(K_TRUNC, absolute(AT_FDCWD, p), NULL, 0, (int)syscall(SYS_truncate, p, to)); }
int truncate64(const char *p, off64_t to) { ON_PATH(K_TRUNC, absolute(AT_FDCWD, p), NULL, 0, (int)syscall(SYS_truncate, p, to)); }

static char *stat_name(int d, const char *p) { return p && p[0] ? absolute(d, p) : fd_name(d); }
int statx(int d, const char *restrict p, int flags, unsigned mask, struct statx *restrict b) {
    ON_PATH(K_STAT, stat_name(d, p), NULL, flags, (int)syscall(SYS_statx, d, p, flags, mask, b));
}
static int do_stat(int d, const char *p, struct stat *b, int flags) { ON_PATH(K_STAT, stat_name(d, p), NULL, flags, (int)syscall(SYS_newfstatat, d, p, b, flags)); }
int stat(const char *restrict p, struct stat *restrict b) { return do_stat(AT_FDCWD, p, b, 0); }
int lstat(const char *restrict p, struct stat *restrict b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *b) { return do_stat(fd, "", b, AT_EMPTY_PATH); }
int fstatat(int d, const char *restrict p, struct stat *restrict b, int f) { return do_stat(d, p, b, f); }
int stat64(const char *restrict p, struct stat64 *restrict b) { return do_stat(AT_FDCWD, p, (struct stat *)b, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { return do_stat(AT_FDCWD, p, (struct stat *)b, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *b) { return do_stat(fd, "", (struct stat *)b, AT_EMPTY_PATH); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict b, int f) { return do_stat(d, p, (struct stat *)b, f); }

// ---- directories ----

DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char *a = active() ? absolute(AT_FDCWD, p) : NULL;
    if (!a || !counts(a)) { free(a); inside++; DIR *r = real_opendir(p); int e = errno; inside--; errno = e; return r; }
    struct mc_op o = { K_OPENDIR, -1, 0, -1, 0, NULL, a, NULL };
    long d = before(&o);
    DIR *r = NULL;
    int e = (int)d;
    if (d <= 0) { inside++; r = real_opendir(p); e = errno; inside--; }
    if (r) set_fd(dirfd(r), a);
    after(&o, r ? 0 : -1, e);
    free(a);
    errno = e;
    return r;
}

struct dirent64 *readdir64(DIR *d_) {
    REAL(struct dirent64 *, readdir64, DIR *);
    char *n = active() ? fd_name(dirfd(d_)) : NULL;
    if (!n) return real_readdir64(d_);
    struct mc_op o = { K_READDIR, dirfd(d_), 0, -1, 0, NULL, n, NULL };
    long d = before(&o);
    int saved = errno;
    struct dirent64 *r = NULL;
    int e = (int)d;
    if (d <= 0) { errno = 0; r = real_readdir64(d_); e = errno; }
    after(&o, !r && e ? -1 : 0, e);
    free(n);
    errno = !r && e ? e : saved;
    return r;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    set_fd(dirfd(d), NULL);
    inside++;
    int r = real_closedir(d);
    inside--;
    return r;
}

// ---- threads of the command: one after another ----

#ifndef MC_LINKED
struct boot { void *(*f)(void *); void *arg; sem_t *done; };
static void *boot(void *p) {
    struct boot b = *(struct boot *)p;
    free(p);
    void *r = b.f(b.arg);
    if (b.done) sem_post(b.done);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!root[0] || !serial) return real_pthread_create(t, a, f, arg);
    struct boot *b = malloc(sizeof *b);
    sem_t *s = malloc(sizeof *s); // (kept: the thread may outlast the wait)
    sem_init(s, 0, 0);
    b->f = f; b->arg = arg; b->done = s;
    int r = real_pthread_create(t, a, boot, b);
    if (r == 0) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_sec += 3;
        while (sem_timedwait(s, &ts) < 0 && errno == EINTR) {}
    }
    return r;
}
#endif
