/*
 * vtime.c - virtual clock linked into the icbd under test.
 *
 * The driver owns an 8-byte file holding the current time (seconds since the
 * epoch, native long); the server's time(), gettimeofday() and
 * clock_gettime(CLOCK_REALTIME) read it.  Without ICB_VTIME in the environment
 * every call falls through to the kernel.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile long *vclock;
static int tried;

static volatile long *clk(void)
{
    if (!tried) {
        const char *p = getenv("ICB_VTIME");
        tried = 1;
        if (p) {
            int fd = open(p, O_RDONLY | O_CLOEXEC);
            if (fd >= 0) {
                void *m = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) vclock = m;
                close(fd);
            }
        }
    }
    return vclock;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (c == CLOCK_REALTIME && clk()) {
        ts->tv_sec = *vclock;
        ts->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, c, ts);
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void) tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/*
 * Nagle + delayed ACK would make loopback delivery of small packets lag by up to
 * 40 ms; turning Nagle off on accepted sockets makes "the server has written it"
 * and "the client can read it" the same moment.  No observable content changes.
 */
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>

int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
    int one = 1;
    int r = (int) syscall(SYS_accept4, fd, a, l, flags);
    if (r >= 0) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return r;
}

int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    return accept4(fd, a, l, 0);
}

/* The server syncs its database after every change; only the crash checks, which do
 * not link this file, care that the bytes reach the disk. */
int fsync(int fd) { (void) fd; return 0; }
int fdatasync(int fd) { (void) fd; return 0; }
