// Event loops run in their own threads but only when the harness lets them: one round at a time.
// Needs netmodel.h before it. Defines epoll_wait.
#ifndef VERIF_BATON_H
#define VERIF_BATON_H
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
namespace baton
{
static bool on; static std::mutex mx; static std::condition_variable cv; static std::set<int> parked; static int grant = -1;
inline void waitFor(size_t n) { std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return parked.size() == n; }); }
inline std::vector<int> loops() { std::unique_lock<std::mutex> l(mx); return std::vector<int>(parked.begin(), parked.end()); }
// lets the event loop with this epoll descriptor make one round
inline void round(int ep) { std::unique_lock<std::mutex> l(mx); grant = ep; cv.notify_all(); cv.wait(l, [&] { return grant == -1 && parked.count(ep); }); }
}
extern "C" int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
	if (baton::on)
	{
		std::unique_lock<std::mutex> l(baton::mx); baton::parked.insert(ep); baton::cv.notify_all(); baton::cv.wait(l, [&] { return baton::grant == ep; }); baton::grant = -1; baton::parked.erase(ep);
		timeout = 0;
	}
	return nm::wait(ep, ev, max, timeout);
}
extern "C" int epoll_pwait(int fd, struct epoll_event *ev, int max, int timeout, const sigset_t *) { return epoll_wait(fd, ev, max, timeout); }
#endif
