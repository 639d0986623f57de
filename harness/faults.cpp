#include "faults.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace faults {
Config cfg;
Counts counts;
std::atomic<uint64_t> seed { 1 };
thread_local bool exempt = false;

static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static std::atomic<uint64_t> threads { 0 };
static uint64_t rnd()
{
    static thread_local uint64_t s = 0;
    if (!s)
        s = mix(seed.load(std::memory_order_relaxed) + threads.fetch_add(1, std::memory_order_relaxed) * 7919) | 1;
    s += 0x9e3779b97f4a7c15ull;
    return mix(s);
}
static bool hit(const std::atomic<unsigned>& p)
{
    const unsigned v = p.load(std::memory_order_relaxed);
    return v && (rnd() & 1023) < v;
}
void pause(unsigned us)
{
    if (us == 0) {
        sched_yield();
        return;
    }
    struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    nanosleep(&t, nullptr);
}
static void delayed(const std::atomic<unsigned>& p, std::atomic<uint64_t>& n)
{
    if (!hit(p))
        return;
    n.fetch_add(1, std::memory_order_relaxed);
    const unsigned m = cfg.maxDelayUs.load(std::memory_order_relaxed);
    pause(rnd() % 3 == 0 || !m ? 0 : rnd() % m);
}

void off()
{
    cfg.shortWrite = 0;
    cfg.shortRead = 0;
    cfg.delay = 0;
    cfg.lockDelay = 0;
    cfg.interrupt = 0;
    cfg.sndbuf = 0;
    cfg.maxDelayUs = 200;
}
void choose(uint64_t r)
{
    off();
    seed = r;
    auto next = [&r] { return (r = mix(r)) >> 8; };
    if (next() % 4 == 0)
        return;
    static const unsigned p[] = { 0, 0, 20, 200, 700 };
    cfg.shortWrite = p[next() % 5];
    cfg.shortRead = p[next() % 5];
    cfg.delay = p[next() % 4];
    cfg.lockDelay = next() % 2 ? p[next() % 4] : 0;
    static const unsigned sizes[] = { 1, 7, 64, 1000 };
    cfg.maxWrite = sizes[next() % 4];
    cfg.maxRead = sizes[next() % 4];
    static const int bufs[] = { 0, 0, 4608, 20000 };
    cfg.sndbuf = bufs[next() % 4];
    cfg.interrupt = p[next() % 4];
}
}

using namespace faults;

extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_readv(int, const struct iovec*, int);
int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_epoll_create1(int);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
uid_t __real_getuid();
uid_t __real_geteuid();

// a signal arrives during the system call
static bool interrupted()
{
    if (!hit(cfg.interrupt))
        return false;
    counts.interrupts.fetch_add(1, std::memory_order_relaxed);
    errno = EINTR;
    return true;
}
static size_t limited(size_t n, const std::atomic<unsigned>& p, const std::atomic<unsigned>& most, std::atomic<uint64_t>& count)
{
    if (n < 2 || !hit(p))
        return n;
    const size_t m = 1 + rnd() % most.load(std::memory_order_relaxed);
    if (m >= n)
        return n;
    count.fetch_add(1, std::memory_order_relaxed);
    return m;
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int flags)
{
    if (exempt)
        return __real_send(fd, p, n, flags);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    return __real_send(fd, p, limited(n, cfg.shortWrite, cfg.maxWrite, counts.shortWrites), flags);
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int flags)
{
    if (exempt)
        return __real_recv(fd, p, n, flags);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    return __real_recv(fd, p, limited(n, cfg.shortRead, cfg.maxRead, counts.shortReads), flags);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags)
{
    if (exempt || !m->msg_iovlen)
        return __real_sendmsg(fd, m, flags);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    struct msghdr h = *m;
    struct iovec one = m->msg_iov[0];
    one.iov_len = limited(one.iov_len, cfg.shortWrite, cfg.maxWrite, counts.shortWrites);
    if (one.iov_len != m->msg_iov[0].iov_len) {
        h.msg_iov = &one;
        h.msg_iovlen = 1;
    }
    return __real_sendmsg(fd, &h, flags);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int flags)
{
    if (exempt || !m->msg_iovlen)
        return __real_recvmsg(fd, m, flags);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    struct iovec* v = m->msg_iov;
    const size_t count = m->msg_iovlen;
    struct iovec one = v[0];
    one.iov_len = limited(one.iov_len, cfg.shortRead, cfg.maxRead, counts.shortReads);
    if (one.iov_len != v[0].iov_len) {
        m->msg_iov = &one;
        m->msg_iovlen = 1;
    }
    const ssize_t n = __real_recvmsg(fd, m, flags);
    m->msg_iov = v;
    m->msg_iovlen = count;
    return n;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
{
    if (exempt || c < 1)
        return __real_writev(fd, v, c);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    struct iovec one = v[0];
    one.iov_len = limited(one.iov_len, cfg.shortWrite, cfg.maxWrite, counts.shortWrites);
    return one.iov_len != v[0].iov_len ? __real_writev(fd, &one, 1) : __real_writev(fd, v, c);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c)
{
    if (exempt || c < 1)
        return __real_readv(fd, v, c);
    delayed(cfg.delay, counts.delays);
    if (interrupted())
        return -1;
    struct iovec one = v[0];
    one.iov_len = limited(one.iov_len, cfg.shortRead, cfg.maxRead, counts.shortReads);
    return one.iov_len != v[0].iov_len ? __real_readv(fd, &one, 1) : __real_readv(fd, v, c);
}
static bool fails(std::atomic<int>& with)
{
    const int e = exempt ? 0 : with.exchange(0);
    if (!e)
        return false;
    errno = e;
    return true;
}
int __wrap_epoll_create1(int flags) { return fails(cfg.failEpoll) ? -1 : __real_epoll_create1(flags); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n) { return fails(cfg.failConnect) ? -1 : __real_connect(fd, a, n); }
int __wrap_socket(int domain, int type, int protocol)
{
    if (fails(cfg.failSocket))
        return -1;
    const int fd = __real_socket(domain, type, protocol);
    const int n = cfg.sndbuf.load(std::memory_order_relaxed);
    if (fd >= 0 && n && !exempt && domain == AF_UNIX)
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    return fd;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!exempt && cfg.lockDelay.load(std::memory_order_relaxed))
        delayed(cfg.lockDelay, counts.lockDelays);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    const int rc = __real_pthread_mutex_unlock(m);
    if (!exempt && cfg.lockDelay.load(std::memory_order_relaxed))
        delayed(cfg.lockDelay, counts.lockDelays);
    return rc;
}
uid_t __wrap_getuid() { return cfg.fakeUid.load(std::memory_order_relaxed) ? (uid_t)cfg.uid.load(std::memory_order_relaxed) : __real_getuid(); }
uid_t __wrap_geteuid() { return cfg.fakeUid.load(std::memory_order_relaxed) ? (uid_t)cfg.uid.load(std::memory_order_relaxed) : __real_geteuid(); }
}

ssize_t faults::rawSend(int fd, const void* p, size_t n, int flags) { return __real_send(fd, p, n, flags); }
ssize_t faults::rawRecv(int fd, void* p, size_t n, int flags) { return __real_recv(fd, p, n, flags); }
