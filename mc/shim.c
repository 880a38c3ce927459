// Fault injection between the executable and libc (LD_PRELOAD).
// SHIM_PLAN: actions for the 1st, 2nd, .. relevant call; the last one is repeated for all others.
//   . normal   1 one byte   3 three bytes   h half   i EINTR   e EIO   n ENOSPC   p EPIPE   a EAGAIN   z zero bytes (write)
// SHIM_AT=k:c  replaces the action of the k-th relevant call.
// SHIM_ONLY: letters of call kinds to consider: r read, w write, o open, s stat
// SHIM_LOG: file that gets one line "<kind><action><result sign>" per relevant call
// Relevant are calls on stdin, stdout and files with .svg in their names.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char ours[1024];
static int count;
static int logfd = -2;

static const char *env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }

static void note(char kind, char act, long r) {
    if (logfd == -2) {
        const char *p = getenv("SHIM_LOG");
        int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
        logfd = p ? o(p, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;
    }
    if (logfd >= 0) {
        ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
        char b[4] = {kind, act, r < 0 ? '-' : r == 0 ? '0' : '+', '\n'};
        int e = errno;
        w(logfd, b, 4);
        errno = e;
    }
}

static char action(char kind) {
    if (!strchr(env("SHIM_ONLY", "rwos"), kind)) return '.';
    const char *p = env("SHIM_PLAN", ".");
    int n = strlen(p), k = count++;
    char a = n == 0 ? '.' : p[k < n ? k : n - 1];
    const char *at = getenv("SHIM_AT");
    if (at) {
        const char *c = strchr(at, ':');
        if (c && atoi(at) == k) a = c[1];
    }
    return a;
}

static int fail(char a) {
    switch (a) {
    case 'i': errno = EINTR; return 1;
    case 'e': errno = EIO; return 1;
    case 'n': errno = ENOSPC; return 1;
    case 'p': errno = EPIPE; return 1;
    case 'a': errno = EAGAIN; return 1;
    }
    return 0;
}

static size_t cut(char a, size_t n) {
    if (a == '1' && n > 1) return 1;
    if (a == '3' && n > 3) return 3;
    if (a == 'h' && n > 1) return n / 2;
    return n;
}

static int rel(int fd) { return fd == 0 || fd == 1 || (fd > 2 && fd < 1024 && ours[fd]); }

ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*f)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    if (!rel(fd)) return f(fd, b, n);
    char a = action('r');
    ssize_t r = fail(a) ? -1 : f(fd, b, cut(a, n));
    note('r', a, r);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (c < 1) return 0;
    return read(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*f)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (!rel(fd)) return f(fd, b, n);
    char a = action('w');
    ssize_t r = fail(a) ? -1 : a == 'z' ? 0 : f(fd, b, cut(a, n));
    note('w', a, r);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    int i = 0;
    while (i + 1 < c && v[i].iov_len == 0) i++;
    if (c < 1) return 0;
    return write(fd, v[i].iov_base, v[i].iov_len);
}
static int opened(int (*f)(const char *, int, ...), const char *p, int fl, int mode) {
    if (!strstr(p, ".svg") && !strstr(p, ".SVG")) return f(p, fl, mode);
    char a = action('o');
    int r = fail(a) ? -1 : f(p, fl, mode);
    if (r >= 0 && r < 1024) ours[r] = 1;
    note('o', a, r < 0 ? r : 1);
    return r;
}
int open(const char *p, int fl, ...) {
    va_list l; va_start(l, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(l, int) : 0; va_end(l);
    return opened(dlsym(RTLD_NEXT, "open"), p, fl, m);
}
int open64(const char *p, int fl, ...) {
    va_list l; va_start(l, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(l, int) : 0; va_end(l);
    return opened(dlsym(RTLD_NEXT, "open64"), p, fl, m);
}
int close(int fd) {
    int (*f)(int) = dlsym(RTLD_NEXT, "close");
    if (fd > 2 && fd < 1024) ours[fd] = 0;
    return f(fd);
}
int statx(int d, const char *restrict p0, int fl, unsigned m, struct statx *restrict s) {
    int (*f)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    const char *volatile vp = p0; // may be NULL in spite of the declaration
    const char *p = vp;
    if (!(p && (strstr(p, ".svg") || strstr(p, ".SVG"))) && !(p && !*p && d > 2 && rel(d))) return f(d, p, fl, m, s);
    char a = action('s');
    int r = fail(a) ? -1 : f(d, p, fl, m, s);
    note('s', a, r < 0 ? r : 1);
    return r;
}
