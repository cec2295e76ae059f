/* Counts the libc calls that can change files; kills the process at a chosen one.
 *
 * shim_arm(k, after, bytes): exit with status 77 at the k-th counted call (from 1),
 * before it (after=0), after it (after=1), or, for writes, after the first `bytes`
 * bytes have been written (bytes >= 0). k = 0 counts only.
 *
 * shim_fail(k, errno): the k-th counted call fails with this errno instead. Here
 * reading calls count, too, and only files below a directory named verif-sc-* do.
 *
 * shim_then(j, after, bytes), after shim_fail: the process dies at the j-th counted
 * call, which comes after the failed one.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int fail_errno = 0, failing = 0;
static long armed = -1, second = -1, counter = 0, when_after = 0, prefix = -1, last_len = 0, overflow = 0;
static char kinds[4096];
static long lens[4096];

void shim_arm(long k, long after, long bytes) {
    armed = k; counter = 0; when_after = after; prefix = bytes; overflow = 0; failing = 0; second = -1;
}
void shim_fail(long k, int err) {
    armed = k; counter = 0; when_after = 0; prefix = -1; overflow = 0; failing = 1; fail_errno = err; second = -1;
}
void shim_then(long j, long after, long bytes) { second = j; when_after = after; prefix = bytes; }
void shim_disarm(void) { armed = -1; }
long shim_count(void) { return counter; }
long shim_len(long i) { return i < 4096 ? lens[i] : 0; }
int shim_kind(long i) { return i < 4096 ? kinds[i] : 0; }

static void die(void) { syscall(SYS_exit_group, 77); }

static int ours(const char *path, int fd) {
    char link[32], name[512];
    if (path && path[0] == '/') return strstr(path, "verif-sc-") != 0;
    if (path) return getcwd(name, sizeof name) && strstr(name, "verif-sc-") != 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, name, sizeof name - 1);
    if (n < 0) return 0;
    name[n] = 0;
    return strstr(name, "verif-sc-") != 0;
}

/* returns 1 when this call is the chosen one */
static int enter2(char kind, long len, const char *path, int fd) {
    if (armed < 0) return 0;
    if (failing && !ours(path, fd)) return 0;
    if (!failing && kind >= 'A' && kind <= 'Z') return 0;
    counter++;
    if (counter < 4096) { kinds[counter] = kind; lens[counter] = len; }
    last_len = len;
    if (second > 0 && counter == second) {
        if (!when_after && prefix < 0) die();
        return 1;
    }
    if (armed == 0 || counter != armed) return 0;
    if (failing) { errno = fail_errno; return 2; }
    if (!when_after && prefix < 0) die();
    return 1;
}

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & (O_TRUNC | O_CREAT)))

#define OPEN_BODY(call) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int hit = enter2(WRITES(flags) ? 'o' : 'O', 0, p, -1); \
    if (hit == 2) return -1; \
    int r = call; \
    if (hit) die(); \
    return r;

int open(const char *p, int flags, ...) { REAL(int, open, const char *, int, ...); OPEN_BODY(real_open(p, flags, mode)) }
int open64(const char *p, int flags, ...) { REAL(int, open64, const char *, int, ...); OPEN_BODY(real_open64(p, flags, mode)) }
int openat(int d, const char *p, int flags, ...) {
    REAL(int, openat, int, const char *, int, ...); OPEN_BODY(real_openat(d, p, flags, mode)) }
int openat64(int d, const char *p, int flags, ...) {
    REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(real_openat64(d, p, flags, mode)) }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    int hit = fd > 2 ? enter2('w', (long)n, 0, fd) : 0;
    if (hit == 2) return -1;
    if (hit && prefix >= 0) { real_write(fd, b, prefix < (long)n ? (size_t)prefix : n); die(); }
    ssize_t r = real_write(fd, b, n);
    if (hit) die();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    int hit = enter2('w', (long)n, 0, fd);
    if (hit == 2) return -1;
    if (hit && prefix >= 0) { real_pwrite(fd, b, prefix < (long)n ? (size_t)prefix : n, o); die(); }
    ssize_t r = real_pwrite(fd, b, n, o);
    if (hit) die();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    int hit = enter2('v', 0, 0, fd);
    if (hit == 2) return -1;
    ssize_t r = real_writev(fd, v, n);
    if (hit) die();
    return r;
}

#define SIMPLE(name, kind, path, fd, decl, ...) \
    { REAL(int, name, __VA_ARGS__); int hit = enter2(kind, 0, path, fd); \
      if (hit == 2) { if (kind == 'c') { real_##name decl; errno = fail_errno; } return -1; } \
      int r = real_##name decl; if (hit) die(); return r; }

int rename(const char *a, const char *b) SIMPLE(rename, 'r', b, -1, (a, b), const char *, const char *)
int renameat(int x, const char *a, int y, const char *b) SIMPLE(renameat, 'r', b, -1, (x, a, y, b), int, const char *, int, const char *)
int link(const char *a, const char *b) SIMPLE(link, 'l', b, -1, (a, b), const char *, const char *)
int linkat(int x, const char *a, int y, const char *b, int f)
    SIMPLE(linkat, 'l', b, -1, (x, a, y, b, f), int, const char *, int, const char *, int)
int symlink(const char *a, const char *b) SIMPLE(symlink, 'l', b, -1, (a, b), const char *, const char *)
int unlink(const char *a) SIMPLE(unlink, 'u', a, -1, (a), const char *)
int unlinkat(int d, const char *a, int f) SIMPLE(unlinkat, 'u', a, -1, (d, a, f), int, const char *, int)
int truncate(const char *a, off_t n) SIMPLE(truncate, 't', a, -1, (a, n), const char *, off_t)
int ftruncate(int fd, off_t n) SIMPLE(ftruncate, 't', 0, fd, (fd, n), int, off_t)
int truncate64(const char *a, off_t n) SIMPLE(truncate64, 't', a, -1, (a, n), const char *, off_t)
int ftruncate64(int fd, off_t n) SIMPLE(ftruncate64, 't', 0, fd, (fd, n), int, off_t)
int fsync(int fd) SIMPLE(fsync, 'f', 0, fd, (fd), int)
int fdatasync(int fd) SIMPLE(fdatasync, 'f', 0, fd, (fd), int)
int close(int fd) SIMPLE(close, 'c', 0, fd, (fd), int)
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    int hit = enter2('s', (long)n, 0, o);
    if (hit == 2) return -1;
    if (hit && prefix >= 0) { real_sendfile64(o, i, off, prefix < (long)n ? (size_t)prefix : n); die(); }
    ssize_t r = real_sendfile64(o, i, off, n);
    if (hit) die();
    return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    int hit = enter2('s', (long)n, 0, o);
    if (hit == 2) return -1;
    if (hit && prefix >= 0) { real_sendfile(o, i, off, prefix < (long)n ? (size_t)prefix : n); die(); }
    ssize_t r = real_sendfile(o, i, off, n);
    if (hit) die();
    return r;
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    int hit = enter2('s', (long)n, 0, o);
    if (hit == 2) return -1;
    if (hit && prefix >= 0) { real_copy_file_range(i, io, o, oo, prefix < (long)n ? (size_t)prefix : n, f); die(); }
    ssize_t r = real_copy_file_range(i, io, o, oo, n, f);
    if (hit) die();
    return r;
}

/* reading calls, only counted by shim_fail */
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (fd > 2 && armed >= 0 && failing && enter2('R', (long)n, 0, fd) == 2) return -1;
    return real_read(fd, b, n);
}
int stat(const char *p, struct stat *b) SIMPLE(stat, 'S', p, -1, (p, b), const char *, struct stat *)
int lstat(const char *p, struct stat *b) SIMPLE(lstat, 'S', p, -1, (p, b), const char *, struct stat *)
int stat64(const char *p, struct stat64 *b) SIMPLE(stat64, 'S', p, -1, (p, b), const char *, struct stat64 *)
int lstat64(const char *p, struct stat64 *b) SIMPLE(lstat64, 'S', p, -1, (p, b), const char *, struct stat64 *)
int fstat64(int fd, struct stat64 *b) SIMPLE(fstat64, 'F', 0, fd, (fd, b), int, struct stat64 *)
int fstat(int fd, struct stat *b) SIMPLE(fstat, 'F', 0, fd, (fd, b), int, struct stat *)
int fstatat64(int d, const char *p, struct stat64 *b, int f)
    SIMPLE(fstatat64, 'S', p, d, (d, p, b, f), int, const char *, struct stat64 *, int)
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(off64_t, lseek64, int, off64_t, int);
    if (armed >= 0 && failing && enter2('L', 0, 0, fd) == 2) return -1;
    return real_lseek64(fd, o, w);
}
