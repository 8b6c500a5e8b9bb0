/* Interposes the file operations of libc for files below one directory.

   Counts them and, at operation number `at`, lets the process die or the
   operation fail. Armed by fs_arm() from the process itself (ctypes); unarmed
   it passes everything on. Files outside of the directory are never touched.
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT, CRASH, TORN, FAIL, FAIL_ON };

static char dir[PATH_MAX];
static size_t dirlen;
static int armed, mode, err, at, seen, fired;
static char *names[4096];
static int nnames;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int below(const char *path)
{
    char full[2 * PATH_MAX];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(full, PATH_MAX)) return 0;
        strcat(full, "/");
        strncat(full, path, PATH_MAX);
        path = full;
    }
    return strncmp(path, dir, dirlen) == 0;
}

static int ours(int fd)
{
    char link[64], path[PATH_MAX];
    ssize_t n;
    if (!armed || fd < 3) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return strncmp(path, dir, dirlen) == 0;
}

/* 0: go on, 1: fail with errno set, 2: write half of it and die */
static int op(const char *name, int changes)
{
    int k = seen++;
    if (nnames < 4096) {
        names[nnames++] = (char *)name;
    }
    if (mode == COUNT || k < at) return 0;
    if (mode == CRASH && k == at) _exit(77);
    if (mode == TORN && k == at) {
        if (strstr(name, "write")) return 2;
        _exit(77);
    }
    if ((mode == FAIL && k == at) ||
        (mode == FAIL_ON && (k == at || changes))) {
        fired++;
        errno = err;
        return 1;
    }
    return 0;
}

void fs_arm(const char *d, int m, int k, int e)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    mode = m; at = k; err = e; seen = 0; fired = 0; nnames = 0;
    armed = 1;
}

void fs_disarm(void) { armed = 0; }
int fs_seen(void) { return seen; }
int fs_fired(void) { return fired; }
const char *fs_name(int k) { return k < nnames ? names[k] : ""; }

#define OPEN(fname) \
int fname(const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    REAL(int, #fname, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (below(path) && op(#fname, flags & O_CREAT)) return -1; \
    return real(path, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(fname) \
int fname(int fd, const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    REAL(int, #fname, int, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (below(path) && op(#fname, flags & O_CREAT)) return -1; \
    return real(fd, path, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

#define CREAT(fname) \
int fname(const char *path, mode_t m) \
{ \
    REAL(int, #fname, const char *, mode_t); \
    if (below(path) && op(#fname, 1)) return -1; \
    return real(path, m); \
}
CREAT(creat)
CREAT(creat64)

#define FOPEN(fname) \
FILE *fname(const char *path, const char *m) \
{ \
    REAL(FILE *, #fname, const char *, const char *); \
    if (below(path) && op(#fname, m[0] != 'r')) return NULL; \
    return real(path, m); \
}
FOPEN(fopen)
FOPEN(fopen64)

size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    if (armed && ours(fileno(f))) {
        int r = op("fwrite", 1);
        if (r == 1) return 0;
        if (r == 2) { real(b, s, n / 2, f); fflush(f); _exit(77); }
    }
    return real(b, s, n, f);
}

#define READ(fname, PAR, ARG) \
ssize_t fname PAR \
{ \
    static ssize_t (*real) PAR; \
    if (!real) real = (ssize_t (*) PAR)dlsym(RTLD_NEXT, #fname); \
    if (ours(fd) && op(#fname, 0)) return -1; \
    return real ARG; \
}
READ(read, (int fd, void *b, size_t n), (fd, b, n))
READ(pread, (int fd, void *b, size_t n, off_t o), (fd, b, n, o))
READ(pread64, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o))
READ(readv, (int fd, const struct iovec *v, int n), (fd, v, n))

#define WRITE(fname, PAR, ARG, HALF) \
ssize_t fname PAR \
{ \
    static ssize_t (*real) PAR; \
    if (!real) real = (ssize_t (*) PAR)dlsym(RTLD_NEXT, #fname); \
    if (ours(fd)) { \
        int r = op(#fname, 1); \
        if (r == 1) return -1; \
        if (r == 2) { if (real HALF) {} _exit(77); } \
    } \
    return real ARG; \
}
WRITE(write, (int fd, const void *b, size_t n), (fd, b, n), (fd, b, n / 2))
WRITE(pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o),
      (fd, b, n / 2, o))
WRITE(pwrite64, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o),
      (fd, b, n / 2, o))
WRITE(writev, (int fd, const struct iovec *v, int n), (fd, v, n),
      (fd, v, n / 2))

ssize_t sendfile(int fd, int in, off_t *o, size_t n)
{
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (ours(fd) && op("sendfile", 1)) return -1;
    return real(fd, in, o, n);
}

ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n,
                        unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t,
         unsigned);
    if (ours(fd) && op("copy_file_range", 1)) return -1;
    return real(in, oi, fd, oo, n, f);
}

#define ONFD(fname, PAR, ARG) \
int fname PAR \
{ \
    static int (*real) PAR; \
    if (!real) real = (int (*) PAR)dlsym(RTLD_NEXT, #fname); \
    if (ours(fd) && op(#fname, 1)) return -1; \
    return real ARG; \
}
ONFD(ftruncate, (int fd, off_t n), (fd, n))
ONFD(ftruncate64, (int fd, off64_t n), (fd, n))
ONFD(fsync, (int fd), (fd))
ONFD(fdatasync, (int fd), (fd))

#define ONPATH(fname, PAR, ARG, WHICH) \
int fname PAR \
{ \
    static int (*real) PAR; \
    if (!real) real = (int (*) PAR)dlsym(RTLD_NEXT, #fname); \
    if (below(WHICH) && op(#fname, 1)) return -1; \
    return real ARG; \
}
ONPATH(rename, (const char *a, const char *b), (a, b), a)
ONPATH(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), a)
ONPATH(renameat2, (int d, const char *a, int e, const char *b, unsigned f),
       (d, a, e, b, f), a)
ONPATH(link, (const char *a, const char *b), (a, b), b)
ONPATH(linkat, (int d, const char *a, int e, const char *b, int f),
       (d, a, e, b, f), b)
ONPATH(symlink, (const char *a, const char *b), (a, b), b)
ONPATH(unlink, (const char *a), (a), a)
ONPATH(unlinkat, (int d, const char *a, int f), (d, a, f), a)
ONPATH(remove, (const char *a), (a), a)
ONPATH(truncate, (const char *a, off_t n), (a, n), a)
ONPATH(truncate64, (const char *a, off64_t n), (a, n), a)

int close(int fd)
{
    static int (*real)(int);
    if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "close");
    if (ours(fd) && op("close", 0)) { real(fd); errno = err; return -1; }
    return real(fd);
}
