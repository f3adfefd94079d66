/* Preloaded into quickbook: records the calls that touch files below QBF_PREFIX, and makes one of them fail.

   QBF_PREFIX  directory whose files are watched
   QBF_LOG     append "op path" for each watched call
   QBF_OP, QBF_N, QBF_ERRNO   the call to fail: the N-th (from 0) of kind OP
   QBF_MODE    once | on (all following calls of the kind, too) | short (one byte is transferred) | intr */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char fdpath[MAXFD][512];
static char dirpath[64][512];
static DIR *dirs[64];
static const char *prefix, *op;
static int inited, logfd = -1, n, err, count, mode;

static void init(void)
{
    const char *s;
    if (inited) return;
    inited = 1;
    prefix = getenv("QBF_PREFIX");
    op = getenv("QBF_OP");
    n = (s = getenv("QBF_N")) ? atoi(s) : -1;
    err = (s = getenv("QBF_ERRNO")) ? atoi(s) : EIO;
    s = getenv("QBF_MODE");
    mode = !s ? 0 : !strcmp(s, "on") ? 1 : !strcmp(s, "short") ? 2 : !strcmp(s, "intr") ? 3 : 0;
    s = getenv("QBF_LOG");
    if (s) logfd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

/* The watched path, or 0. */
static const char *watch(const char *p, char *buf, size_t size)
{
    init();
    if (!prefix || !p) return 0;
    if (p[0] == '/') snprintf(buf, size, "%s", p);
    else {
        char cwd[400];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, size, "%s/%s", cwd, p);
    }
    return strncmp(buf, prefix, strlen(prefix)) ? 0 : buf;
}

/* Records the call; nonzero when it must fail. */
static int hit(const char *what, const char *path)
{
    init();
    if (logfd >= 0) {
        char line[700];
        int k = snprintf(line, sizeof line, "%s %s\n", what, path);
        for (int i = 0; i < k - 1 && i < (int)sizeof line - 1; ++i) if (line[i] == '\n') line[i] = 30;
        syscall(SYS_write, logfd, line, (size_t)k);
    }
    if (!op || strcmp(op, what)) return 0;
    int i = count++;
    if (i == n || (mode == 1 && i > n)) return 1;
    return 0;
}

static void setfd(int fd, const char *p)
{
    if (fd >= 0 && fd < MAXFD) snprintf(fdpath[fd], sizeof fdpath[fd], "%s", p ? p : "");
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

FILE *fopen(const char *p, const char *m)
{
    REAL(fopen); char b[512]; const char *w = watch(p, b, sizeof b);
    if (w && hit("open", w)) { errno = err; return 0; }
    FILE *f = real(p, m);
    if (f) setfd(fileno(f), w);
    return f;
}
FILE *fopen64(const char *p, const char *m)
{
    REAL(fopen64); char b[512]; const char *w = watch(p, b, sizeof b);
    if (w && hit("open", w)) { errno = err; return 0; }
    FILE *f = real(p, m);
    if (f) setfd(fileno(f), w);
    return f;
}
static int mode_arg(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; }
#define OPEN(NAME, DECL, CALL) \
    int NAME DECL { REAL(NAME); va_list ap; va_start(ap, flags); int md = mode_arg(flags, ap); va_end(ap); \
        char b[512]; const char *w = watch(p, b, sizeof b); \
        if (w && hit("open", w)) { errno = err; return -1; } \
        int fd = CALL; if (fd >= 0) setfd(fd, w); return fd; }
OPEN(open, (const char *p, int flags, ...), real(p, flags, md))
OPEN(open64, (const char *p, int flags, ...), real(p, flags, md))
OPEN(openat, (int dfd, const char *p, int flags, ...), real(dfd, p, flags, md))
OPEN(openat64, (int dfd, const char *p, int flags, ...), real(dfd, p, flags, md))

/* fortified calls (used by boost) */
#define OPEN2(NAME) \
    int NAME(int dfd, const char *p, int flags) { static int (*real)(int, const char *, int); \
        if (!real) real = (int (*)(int, const char *, int))dlsym(RTLD_NEXT, #NAME); \
        char b[512]; const char *w = watch(p, b, sizeof b); \
        if (w && hit("open", w)) { errno = err; return -1; } \
        int fd = real(dfd, p, flags); if (fd >= 0) setfd(fd, w); return fd; }
OPEN2(__openat64_2)
OPEN2(__openat_2)

static const char *fdwatch(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd][0] ? fdpath[fd] : 0; }

ssize_t read(int fd, void *buf, size_t len)
{
    REAL(read); const char *w = fdwatch(fd);
    if (w && hit("read", w)) {
        if (mode == 2) return real(fd, buf, len ? 1 : 0);
        errno = mode == 3 ? EINTR : err; return -1;
    }
    return real(fd, buf, len);
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    REAL(readv); const char *w = fdwatch(fd);
    if (w && hit("read", w)) { errno = mode == 3 ? EINTR : err; return -1; }
    return real(fd, v, c);
}
ssize_t write(int fd, const void *buf, size_t len)
{
    REAL(write); const char *w = fdwatch(fd);
    if (w && hit("write", w)) {
        if (mode == 2) return real(fd, buf, len ? 1 : 0);
        errno = mode == 3 ? EINTR : err; return -1;
    }
    return real(fd, buf, len);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev); const char *w = fdwatch(fd);
    if (w && hit("write", w)) {
        if (mode == 2) return write(fd, v[0].iov_base, v[0].iov_len ? 1 : 0);
        errno = mode == 3 ? EINTR : err; return -1;
    }
    return real(fd, v, c);
}
int close(int fd)
{
    REAL(close); const char *w = fdwatch(fd); int bad = w && hit("close", w);
    if (fd >= 0 && fd < MAXFD) fdpath[fd][0] = 0;
    int r = real(fd);
    if (bad) { errno = err; return -1; }
    return r;
}
int fclose(FILE *f)
{
    REAL(fclose); int fd = fileno(f); const char *w = fdwatch(fd); int bad = w && hit("close", w);
    if (fd >= 0 && fd < MAXFD) fdpath[fd][0] = 0;
    int r = real(f);
    if (bad) { errno = err; return EOF; }
    return r;
}
int mkdir(const char *p, mode_t m)
{
    REAL(mkdir); char b[512]; const char *w = watch(p, b, sizeof b);
    if (w && hit("mkdir", w)) { errno = err; return -1; }
    return real(p, m);
}
DIR *opendir(const char *p)
{
    REAL(opendir); char b[512]; const char *w = watch(p, b, sizeof b);
    if (w && hit("opendir", w)) { errno = err; return 0; }
    DIR *d = real(p);
    if (d && w) for (int i = 0; i < 64; ++i) if (!dirs[i]) { dirs[i] = d; snprintf(dirpath[i], 512, "%s", w); break; }
    return d;
}
DIR *fdopendir(int fd)
{
    REAL(fdopendir); const char *w = fdwatch(fd);
    if (w && hit("opendir", w)) { errno = err; return 0; }
    DIR *d = real(fd);
    if (d && w) for (int i = 0; i < 64; ++i) if (!dirs[i]) { dirs[i] = d; snprintf(dirpath[i], 512, "%s", w); break; }
    return d;
}
static const char *dirwatch(DIR *d) { for (int i = 0; i < 64; ++i) if (dirs[i] == d) return dirpath[i]; return 0; }
struct dirent *readdir(DIR *d)
{
    REAL(readdir); const char *w = dirwatch(d);
    if (w && hit("readdir", w)) { errno = err; return 0; }
    return real(d);
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(readdir64); const char *w = dirwatch(d);
    if (w && hit("readdir", w)) { errno = err; return 0; }
    return real(d);
}
int closedir(DIR *d)
{
    REAL(closedir);
    for (int i = 0; i < 64; ++i) if (dirs[i] == d) dirs[i] = 0;
    return real(d);
}
#define STAT(NAME, DECL, CALL) \
    int NAME DECL { REAL(NAME); char b[512]; const char *w = watch(p, b, sizeof b); \
        if (w && hit("stat", w)) { errno = err; return -1; } return CALL; }
STAT(stat, (const char *restrict p, struct stat *restrict s), real(p, s))
STAT(lstat, (const char *restrict p, struct stat *restrict s), real(p, s))
STAT(stat64, (const char *restrict p, struct stat64 *restrict s), real(p, s))
STAT(lstat64, (const char *restrict p, struct stat64 *restrict s), real(p, s))
STAT(fstatat, (int d, const char *restrict p, struct stat *restrict s, int f), real(d, p, s, f))
STAT(fstatat64, (int d, const char *restrict p, struct stat64 *restrict s, int f), real(d, p, s, f))
STAT(statx, (int d, const char *restrict p, int f, unsigned m, struct statx *restrict s), real(d, p, f, m, s))
