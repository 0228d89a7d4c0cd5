// Virtual time for event loops: the loop's clock only moves when a harness moves it or when the loop waits.
#ifndef VERIF_VLOOP_H
#define VERIF_VLOOP_H
#include <stdint.h>
#include <time.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <functional>
namespace vloop
{
static std::atomic<int64_t> g_us(1700000000000000LL);
// called instead of waiting: gets the timeout in ms and the number of events that are ready now
static std::function<void(int, int)> g_wait;
inline int64_t ms() { return g_us / 1000; }
}
extern "C" int gettimeofday(struct timeval *tv, void *) { int64_t n = vloop::g_us; if (tv) { tv->tv_sec = n / 1000000; tv->tv_usec = n % 1000000; } return 0; }
extern "C" time_t time(time_t *t) { time_t n = vloop::g_us / 1000000; if (t) *t = n; return n; }
extern "C" int clock_gettime(clockid_t, struct timespec *ts) { int64_t n = vloop::g_us; ts->tv_sec = n / 1000000; ts->tv_nsec = n % 1000000 * 1000; return 0; }
extern "C" int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout)
{
	if (!vloop::g_wait) return (int)syscall(SYS_epoll_pwait, fd, ev, max, timeout, 0L, 8L);
	int r = (int)syscall(SYS_epoll_pwait, fd, ev, max, 0, 0L, 8L);
	vloop::g_wait(timeout, r);
	return r;
}
extern "C" int epoll_pwait(int fd, struct epoll_event *ev, int max, int timeout, const sigset_t *) { return epoll_wait(fd, ev, max, timeout); }
#endif
