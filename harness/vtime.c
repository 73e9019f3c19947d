/*
 * vtime.c - virtual clock linked into the icbd under test.
 *
 * The driver owns an 8-byte file holding the current time (seconds since the
 * epoch, native long); the server's time(), gettimeofday() and
 * clock_gettime(CLOCK_REALTIME) read it.  Without ICB_VTIME in the environment
 * every call falls through to the kernel.  A second long in the file, if it is not
 * zero, is the number of operations on the database's files after which the process
 * ends in the middle of the last of them.  The longs after it, one per descriptor, are
 * one more than the number of bytes the network takes from the server there (0: any).
 * The last long, if it is not zero, is the descriptor the next connection gets if that is
 * free: a server that has been running for long hands them out in any order.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static volatile long *vclock;
static int tried;

static volatile long *clk(void)
{
    if (!tried) {
        const char *p = getenv("ICB_VTIME");
        tried = 1;
        if (p) {
            int fd = (int) syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
            if (fd >= 0) {
                void *m = mmap(0, 16 + 8 * MAXFD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) vclock = m;
                syscall(SYS_close, fd);
            }
        }
    }
    return vclock;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (c == CLOCK_REALTIME && clk()) {
        ts->tv_sec = *vclock;
        ts->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, c, ts);
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void) tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/*
 * Nagle + delayed ACK would make loopback delivery of small packets lag by up to
 * 40 ms; turning Nagle off on accepted sockets makes "the server has written it"
 * and "the client can read it" the same moment.  No observable content changes.
 */
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/uio.h>

int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
    int one = 1;
    int r = (int) syscall(SYS_accept4, fd, a, l, flags);
    if (r >= 0) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (r >= 0 && clk() && vclock[1 + MAXFD] > 0) {
        int want = (int) vclock[1 + MAXFD], d = -1;
        vclock[1 + MAXFD] = 0;
        if (want != r && fcntl(want, F_GETFD) < 0) d = fcntl(r, F_DUPFD, want);
        if (d == want) {
            syscall(SYS_close, r);
            r = d;
        } else if (d >= 0)
            syscall(SYS_close, d);
    }
    return r;
}

int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    return accept4(fd, a, l, 0);
}


/* ---- the database's files ---- */
#include <errno.h>
#include <poll.h>
#define FULL 0x4000
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

static char dbfd[1024];

static int last_op(void)
{
    return clk() && vclock[1] > 0 && --vclock[1] == 0;
}
/* -n: the n-th operation fails; -1000-n: that and all further ones do */
static int fails(void)
{
    if (!clk() || vclock[1] >= 0 || vclock[1] == -1000) return 0;
    if (vclock[1] != -1001) vclock[1]++;
    else { errno = ENOSPC; return 1; }
    if (vclock[1] != 0) return 0;
    errno = ENOSPC;
    return 1;
}
static int isdb(const char *p)
{
    return strstr(p, ".db") != NULL;
}
static int ret(long r)
{
    return (int) r;
}
int open(const char *p, int f, ...)
{
    int mode = 0, r;
    va_list a;
    va_start(a, f);
    if (f & O_CREAT) mode = va_arg(a, int);
    va_end(a);
    if (isdb(p) && (f & (O_WRONLY | O_RDWR)) && last_op()) _exit(77);
    if (isdb(p) && (f & (O_WRONLY | O_RDWR)) && fails()) return -1;
    r = ret(syscall(SYS_openat, AT_FDCWD, p, f, mode));
    if (r >= 0 && r < (int) sizeof dbfd) dbfd[r] = isdb(p) && (f & (O_WRONLY | O_RDWR));
    return r;
}
static int limited(int fd)
{
    return fd >= 0 && fd < MAXFD && clk() && vclock[2 + fd] > 0;
}
static ssize_t limit(int fd, const void *b, size_t n, int flags)
{
    long r, room = vclock[2 + fd] - 1;
    if (room == 0) {
        errno = EWOULDBLOCK;
        return -1;
    }
    r = syscall(SYS_sendto, fd, b, (long) n < room ? (long) n : room, flags, NULL, 0);
    if (r > 0) vclock[2 + fd] -= r;
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (fd >= 0 && fd < (int) sizeof dbfd && dbfd[fd] && last_op()) {
        syscall(SYS_write, fd, b, n / 2);
        _exit(77);
    }
    if (fd >= 0 && fd < (int) sizeof dbfd && dbfd[fd] && fails()) {
        syscall(SYS_write, fd, b, n / 2);
        return -1;
    }
    if (limited(fd)) return limit(fd, b, n, 0);
    return syscall(SYS_write, fd, b, n);
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
    if (limited(fd)) return limit(fd, b, n, flags);
    return syscall(SYS_sendto, fd, b, n, flags, a, l);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
    return sendto(fd, b, n, flags, NULL, 0);
}
static ssize_t gather(int fd, const struct iovec *v, size_t n, int flags)
{
    size_t i, k = 0, len = 0;
    ssize_t r;
    char *b;
    for (i = 0; i < n; i++) len += v[i].iov_len;
    if (!(b = malloc(len + 1))) return -1;
    for (i = 0; i < n; k += v[i].iov_len, i++) memcpy(b + k, v[i].iov_base, v[i].iov_len);
    r = limit(fd, b, len, flags);
    free(b);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (limited(fd)) return gather(fd, v, n, 0);
    return syscall(SYS_writev, fd, v, n);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (limited(fd)) return gather(fd, m->msg_iov, m->msg_iovlen, flags);
    return syscall(SYS_sendmsg, fd, m, flags);
}
static int poll_room(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *sig)
{
    struct timespec left = { 0, 0 };
    nfds_t i;
    int r;
    if (t) left = *t;
    for (i = 0; i < n; i++)     /* no room: not writable */
        if (p[i].fd >= 0 && p[i].fd < MAXFD && (p[i].events & POLLOUT) && clk() && vclock[2 + p[i].fd] == 1)
            p[i].events = (p[i].events & ~POLLOUT) | FULL;
    r = (int) syscall(SYS_ppoll, p, n, t ? &left : NULL, sig, 8);
    for (i = 0; i < n; i++)
        if (p[i].events & FULL)
            p[i].events = (p[i].events & ~FULL) | POLLOUT;
    return r;
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *sig)
{
    return poll_room(p, n, t, sig);
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    struct timespec t = { timeout / 1000, (timeout % 1000) * 1000000L };
    return poll_room(p, n, timeout < 0 ? NULL : &t, NULL);
}
int close(int fd)
{
    if (fd >= 0 && fd < (int) sizeof dbfd) dbfd[fd] = 0;
    if (fd >= 0 && fd < MAXFD && vclock) vclock[2 + fd] = 0;
    return ret(syscall(SYS_close, fd));
}
int rename(const char *x, const char *y)
{
    if (isdb(y) && last_op()) _exit(77);
    if (isdb(y) && fails()) return -1;
    return ret(syscall(SYS_rename, x, y));
}
int unlink(const char *x)
{
    if (isdb(x) && last_op()) _exit(77);
    if (isdb(x) && fails()) return -1;
    return ret(syscall(SYS_unlink, x));
}
/* The server syncs its database after every change; only the power failure checks, which do
 * not link this file, care that the bytes reach the disk. */
int fsync(int fd)
{
    if (fd >= 0 && fd < (int) sizeof dbfd && dbfd[fd] && last_op()) _exit(77);
    if (fd >= 0 && fd < (int) sizeof dbfd && dbfd[fd] && fails()) return -1;
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
