/* LD_PRELOAD interposer: records the I/O calls of freqcd and injects faults.
 * FI_PLAN = "kind:index:fault[;...]", kind = read|write|wait|malloc,
 * fault = errno name | shortN | killbefore | killafter.  FI_TRACE = log file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int tracefd = -2;
static int counts[4];
static const char *names[4] = {"read", "write", "wait", "malloc"};
static const struct { const char *n; int e; } errs[] = {
    {"EINTR", EINTR}, {"EAGAIN", EAGAIN}, {"EIO", EIO}, {"EBADF", EBADF}, {"ENOSPC", ENOSPC}, {"EPIPE", EPIPE}, {"ENOMEM", ENOMEM}};

static void out(const char *fmt, ...) {
    char b[200]; va_list ap; int n;
    if (tracefd == -2) {
        const char *t = getenv("FI_TRACE");
        tracefd = t ? open(t, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
        if (tracefd >= 0) { int fd = fcntl(tracefd, F_DUPFD_CLOEXEC, 500); if (fd >= 0) { close(tracefd); tracefd = fd; } }
    }
    if (tracefd < 0) return;
    va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    syscall(SYS_write, tracefd, b, (size_t)n);
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* returns 0: none, 1: errno set, 2: short (*k), 3: kill afterwards */
static int fault(int kind, long size, long *k) {
    int idx = counts[kind]++;
    const char *p = getenv("FI_PLAN");
    out("%s %d %ld\n", names[kind], idx, size);
    while (p && *p) {
        char kn[16], at[16]; char what[32];       /* index "3+": from the third call on */
        if (sscanf(p, "%15[^:]:%15[^:]:%31[^;]", kn, at, what) == 3 && !strcmp(kn, names[kind]) && (atoi(at) == idx || (strchr(at, '+') && idx >= atoi(at)))) {
            if (!strncmp(what, "short", 5)) { *k = atol(what + 5); if (*k < size) { out("fault %s\n", what); return 2; } }
            else if (!strcmp(what, "killbefore")) { out("fault %s\n", what); die(); }
            else if (!strcmp(what, "killafter")) { out("fault %s\n", what); return 3; }
            else for (unsigned i = 0; i < sizeof errs / sizeof *errs; i++)
                if (!strcmp(what, errs[i].n)) { out("fault %s\n", what); errno = errs[i].e; return 1; }
        }
        p = strchr(p, ';'); if (p) p++;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    long k; int f = fault(0, n, &k); ssize_t r;
    if (f == 1) return -1;
    r = syscall(SYS_read, fd, b, f == 2 ? (size_t)k : n);
    if (f == 3) die();
    return r;
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { return read(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    size_t n = 0; long k; int f; ssize_t r; for (int i = 0; i < c; i++) n += v[i].iov_len;
    f = fault(0, n, &k);
    if (f == 1) return -1;
    if (f == 2) r = syscall(SYS_read, fd, v[0].iov_base, (size_t)k < v[0].iov_len ? (size_t)k : v[0].iov_len);
    else r = syscall(SYS_readv, fd, v, c);
    if (f == 3) die();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    long k; int f; ssize_t r;
    if (fd == 2) return syscall(SYS_write, fd, b, n);       /* diagnostics */
    f = fault(1, n, &k);
    if (f == 1) return -1;
    r = (f == 2 && k == 0) ? 0 : syscall(SYS_write, fd, b, f == 2 ? (size_t)k : n);
    if (f == 3) die();
    return r;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    static int (*real)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
    long k; int f = fault(2, 0, &k), v;
    if (!real) real = dlsym(RTLD_NEXT, "select");
    if (f == 1) return -1;
    v = real(n, r, w, e, t);
    if (f == 3) die();
    return v;
}
int poll(struct pollfd *p, nfds_t n, int t) {
    static int (*real)(struct pollfd *, nfds_t, int);
    long k; int f = fault(2, 0, &k), v;
    if (!real) real = dlsym(RTLD_NEXT, "poll");
    if (f == 1) return -1;
    v = real(p, n, t);
    if (f == 3) die();
    return v;
}
/* only the allocations made by the program itself (stdio buffers and the loader excluded) */
extern void *__libc_malloc(size_t);
void *malloc(size_t n) {
    static int busy;
    void *r; long k; int f = 0;
    if (busy) return __libc_malloc(n);
    busy = 1;
    if (n == 8192 || n == 100) f = fault(3, n, &k);
    busy = 0;
    if (f == 1) return NULL;
    if (f == 3) die();
    return __libc_malloc(n);
}
