// SCALE: 3
// REPO_SRC: src/CEvent.cpp
// C32: the event loop calls exactly the handlers registered for ready descriptors.
#include "pbt.h"
#include "vloop.h"
#include <memory>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include "CEvent.h"
using namespace pbt;
enum { R = lce::CEvent::EV_READ, WR = lce::CEvent::EV_WRITE };
struct Fd { int fd, peer, mask; uint64_t tagR, tagW; bool gotR, gotW; bool fresh; };
struct World { G *g; lce::CEvent ev; std::vector<Fd> f; uint64_t tag, calls; bool mutated, inHandler; int maxFd; uint64_t nested; World() : g(NULL), tag(0), calls(0), mutated(false), inHandler(false), maxFd(0), nested(0) {} };
static World *W; static int g_lim = 256; // descriptors there can be
static int ready(int fd, int ev) { struct pollfd p = {fd, (short)ev, 0}; poll(&p, 1, 0); return p.revents; }
static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
static void op(G &g);
static ssize_t put(int fd, const char *d, size_t n) { return write(fd, d, n); } // SIGPIPE is ignored
static void called(int fd, void *data, bool isRead, uint64_t tag)
{
	G &g = *W->g; ++W->calls; Fd *f = NULL; for (auto &x : W->f) if (x.fd == fd) f = &x;
	PBT_CHECK(g, f, "a handler is called for descriptor %d that was never registered", fd);
	PBT_CHECK(g, f->mask & (isRead ? R : WR), "the %s handler of %d is called though it is not registered", isRead ? "read" : "write", fd);
	PBT_CHECK(g, (isRead ? f->tagR : f->tagW) == tag, "the %s handler of %d is an old one", isRead ? "read" : "write", fd);
	PBT_CHECK(g, data == (void *)(uintptr_t)(tag * 2 + 1), "handler data %p, registered with %lu", data, (unsigned long)(tag * 2 + 1));
	PBT_CHECK(g, !(isRead ? f->gotR : f->gotW), "the %s handler of %d is called twice for one wake-up", isRead ? "read" : "write", fd);
	PBT_CHECK(g, (W->mutated && !f->fresh) || (ready(fd, isRead ? POLLIN : POLLOUT) & ((isRead ? POLLIN : POLLOUT) | POLLERR | POLLHUP)), "the %s handler of %d is called though %s is not ready", isRead ? "read" : "write", fd, f->fresh ? "what has this number now" : "it");
	(isRead ? f->gotR : f->gotW) = true;
	if (!W->inHandler && g.chance(1, 3)) { W->inHandler = true; for (size_t i = 0, n = 1 + g.u(3); i < n; ++i) op(g); W->inHandler = false; ++W->nested; }
}
// one handler registered for both directions in one call: which one a call is for is told from what is ready
static void calledBoth(int fd, void *data, uint64_t tag)
{
	G &g = *W->g; Fd *f = NULL; for (auto &x : W->f) if (x.fd == fd) f = &x;
	PBT_CHECK(g, f, "a handler is called for descriptor %d that was never registered", fd);
	bool r = (f->mask & R) && f->tagR == tag, w = (f->mask & WR) && f->tagW == tag;
	PBT_CHECK(g, r || w, "a handler for both directions of %d is called though it is removed or replaced", fd);
	if (W->mutated && r && w) { ++W->calls; PBT_CHECK(g, data == (void *)(uintptr_t)(tag * 2 + 1), "handler data"); return; }
	called(fd, data, r && !f->gotR && (!w || (ready(fd, POLLIN) & (POLLIN | POLLERR | POLLHUP))), tag);
}
// kind 0: a socket, 1: the reading end of a pipe, 2: the writing end
static void mkpair(int &at, int &peer, int kind)
{
	int p[2]; if (kind) { if (pipe(p)) _exit(99); if (kind == 2) std::swap(p[0], p[1]); } else if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(99); if (at >= 0 && p[0] != at) { if (p[1] == at) { p[1] = dup(p[1]); } dup2(p[0], at); close(p[0]); p[0] = at; }
	int b = 4096; if (!kind) setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); else fcntl(p[0], F_SETPIPE_SZ, 4096); nonblock(p[0]); nonblock(p[1]); at = p[0]; peer = p[1];
}
static int kind(G &g) { int k = g.chance(1, 3) ? 1 + g.u(2) : 0; g.labelIf(k, "pipes"); return k; }
static void op(G &g)
{
	if (W->inHandler) W->mutated = true;
	Fd &f = W->f[g.u(W->f.size())]; const char *in = W->inHandler ? "  (handler) " : "";
	switch (g.u(10))
	{
	case 0: case 1: case 2:
	{
		int m = g.pick<int>({R, WR, R | WR}); uint64_t tag = ++W->tag; char pad[64]; memset(pad, 'p', sizeof pad); bool both = m == (R | WR);
		g.note("%sregister %d for %d", in, f.fd, m); int r;
		// a target on the heap, so that destroying it while it runs is seen
		auto one = [tag, pad, m](int fd, void *d) { if (m == (R | WR)) calledBoth(fd, d, tag); else called(fd, d, m == R, tag); char cp[64]; memcpy(cp, pad, sizeof cp); PBT_CHECK(*W->g, cp[0] == 'p' && cp[63] == 'p', "a handler was destroyed while it ran"); };
		if (both && g.b())
		{
			auto rd = [tag, pad](int fd, void *d) { called(fd, d, true, tag); char cp[64]; memcpy(cp, pad, sizeof cp); PBT_CHECK(*W->g, cp[9] == 'p', "damaged handler"); }; auto wr = [tag, pad](int fd, void *d) { called(fd, d, false, tag); char cp[64]; memcpy(cp, pad, sizeof cp); PBT_CHECK(*W->g, cp[9] == 'p', "damaged handler"); };
			r = W->ev.addFdEvent(f.fd, R, rd, (void *)(uintptr_t)(tag * 2 + 1)); r |= W->ev.addFdEvent(f.fd, WR, wr, (void *)(uintptr_t)(tag * 2 + 1));
		}
		else r = W->ev.addFdEvent(f.fd, m, one, (void *)(uintptr_t)(tag * 2 + 1));
		PBT_CHECK(g, r == 0, "registering fails"); f.mask |= m; if (m & R) f.tagR = tag; if (m & WR) f.tagW = tag; break;
	}
	case 3: case 4:
	{
		int m = g.pick<int>({R, WR, R | WR}); if (!f.mask) break; g.note("%sremove %d from %d", in, m, f.fd);
		PBT_CHECK(g, W->ev.delFdEvent(f.fd, m) == 0, "removing fails: %s", W->ev.getErrorMsg()); f.mask &= ~m; break;
	}
	case 5: if (f.peer >= 0) { g.note("%swrite to the peer of %d", in, f.fd); put(f.peer, "abc", 3); } break;
	case 6: { char b[4096]; g.note("%sdrain %d", in, f.fd); while (read(f.fd, b, sizeof b) > 0) {} break; }
	case 7: if (f.peer >= 0) { char b[4096]; memset(b, 1, sizeof b); g.note("%sfill the send buffer of %d", in, f.fd); while (put(f.fd, b, sizeof b) > 0) {} } break;
	case 8: // another descriptor takes the number over
	{
		if (f.mask) PBT_CHECK(g, W->ev.delFdEvent(f.fd, R | WR) == 0, "removing fails: %s", W->ev.getErrorMsg());
		int n = f.fd; if (f.peer >= 0) close(f.peer); close(n); f.mask = 0; mkpair(n, f.peer, kind(g)); f.gotR = f.gotW = false; f.fresh = W->inHandler; g.note("%sclose %d, another descriptor gets this number", in, n);
		if (g.b()) { char b[4096]; memset(b, 1, sizeof b); g.note("%sfill the send buffer of %d", in, n); while (put(n, b, sizeof b) > 0) {} }
		if (W->inHandler) g.label("a number is used again inside a handler"); break;
	}
	default: if (f.peer >= 0) { char b[4096]; if (g.chance(1, 4)) { g.note("%speer of %d closes", in, f.fd); close(f.peer); f.peer = -1; } else { g.note("%speer of %d reads", in, f.fd); while (read(f.peer, b, sizeof b) > 0) {} } }
	}
}
static void history(G &g)
{
	signal(SIGPIPE, SIG_IGN);
	std::unique_ptr<World> w(new World); W = w.get(); W->g = &g; bool high = g.chance(1, 20) && g_lim > 5000; W->maxFd = high ? 5000 : 200; g.labelIf(high, "high descriptor numbers"); PBT_CHECK(g, W->ev.init(W->maxFd) == 0, "init");
	vloop::g_wait = [](int, int) {}; size_t n = 1 + g.u(8);
	for (size_t i = 0; i < n; ++i) { int a = i == 0 && g.chance(1, 6) ? 0 : -1, b; if (a == 0) g.label("descriptor 0"); if (high && a < 0) { a = 200 + (int)std::min<size_t>(g.edge(4700), 4790); for (auto &x : W->f) if (x.fd == a) a = -1; } mkpair(a, b, kind(g)); W->f.push_back(Fd{a, b, 0, 0, 0, false, false, false}); }
	int steps = 0;
	for (size_t i = 0, k = 5 + g.size(60); i < k; ++i)
	{
		if (!g.chance(1, 3)) { op(g); continue; }
		g.note("run the loop"); ++steps; W->mutated = false; std::vector<int> want(W->f.size());
		for (size_t j = 0; j < W->f.size(); ++j) { Fd &f = W->f[j]; f.gotR = f.gotW = f.fresh = false; int re = f.mask ? ready(f.fd, (f.mask & R ? POLLIN : 0) | (f.mask & WR ? POLLOUT : 0)) : 0; want[j] = ((f.mask & R) && (re & (POLLIN | POLLERR | POLLHUP)) ? R : 0) | ((f.mask & WR) && (re & POLLOUT) ? WR : 0); }
		W->ev.addMessage(0, [](int, void *) { W->ev.stop(); }, NULL); W->ev.run();
		if (!W->mutated) for (size_t j = 0; j < W->f.size(); ++j) { Fd &f = W->f[j]; int got = (f.gotR ? R : 0) | (f.gotW ? WR : 0); PBT_CHECK(g, (got & want[j]) == want[j], "descriptor %d is ready and registered for %d, called are %d", f.fd, want[j], got); }
	}
	for (auto &f : W->f) { if (f.mask) W->ev.delFdEvent(f.fd, R | WR); close(f.fd); if (f.fd == 0 && open("/dev/null", O_RDWR) != 0) _exit(98); if (f.peer >= 0) close(f.peer); }
	g.labelIf(W->nested, "changes inside handlers"); if (W->calls > 2 && steps > 1) g.nontrivial(); vloop::g_wait = nullptr; W = NULL;
}
// more descriptors are ready than one wake-up reports
static void many(G &g)
{
	lce::CEvent ev; PBT_CHECK(g, ev.init(10000) == 0, "init"); int n = std::min(1000 + (int)g.u(g.pick({100, 2500})), (g_lim - 100) / 2); static std::vector<int> calls, wcalls; calls.assign(10000, 0); wcalls.assign(10000, 0); static size_t r0; static int quiet; r0 = 0; quiet = 0; std::vector<int> fd(n), peer(n), mask(n); bool drain = g.b();
	for (int i = 0; i < n; ++i)
	{
		int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(99); fd[i] = p[0]; peer[i] = p[1]; mask[i] = g.chance(1, 4) ? R | WR : R; if (write(peer[i], "x", 1) != 1) _exit(99);
		PBT_CHECK(g, ev.addFdEvent(fd[i], R, [&ev, drain, i](int f, void *d) { char c; PBT_CHECK(*W->g, d == (void *)(uintptr_t)(f + 1), "handler data"); ++calls[f]; if (drain) { if (read(f, &c, 1) != 1) {} } else ev.delFdEvent(f, R); }, (void *)(uintptr_t)(fd[i] + 1)) == 0, "registering %d fails", fd[i]);
		if (mask[i] & WR) PBT_CHECK(g, ev.addFdEvent(fd[i], WR, [&ev](int f, void *d) { PBT_CHECK(*W->g, d == (void *)(uintptr_t)(f + 2), "handler data"); ++wcalls[f]; ev.delFdEvent(f, WR); }, (void *)(uintptr_t)(fd[i] + 2)) == 0, "registering %d fails", fd[i]);
	}
	std::unique_ptr<World> w(new World); W = w.get(); W->g = &g; g.note("%d descriptors are ready at once, handlers %s", n, drain ? "read" : "remove themselves"); static lce::CEvent *E; E = &ev; static bool msg; msg = false;
	vloop::g_wait = [](int, int r) { ++r0; if (r == 0) E->stop(); if (r0 > 200) W->g->fail("the loop still wakes up after %zu rounds", r0); };
	ev.addMessage(1, [](int, void *) { msg = true; }, NULL); ev.run(); vloop::g_wait = nullptr;
	PBT_CHECK(g, msg, "a message was not delivered"); for (int i = 0; i < n; ++i) { PBT_CHECK(g, calls[fd[i]] == 1, "the read handler of descriptor %d of %d ran %d times", i, n, calls[fd[i]]); PBT_CHECK(g, wcalls[fd[i]] == (mask[i] & WR ? 1 : 0), "the write handler of descriptor %d of %d ran %d times", i, n, wcalls[fd[i]]); }
	for (int i = 0; i < n; ++i) { close(fd[i]); close(peer[i]); } if (n > 1024) g.nontrivial(); W = NULL;
}
// a registration that is refused leaves no trace
static void refused(G &g)
{
	std::unique_ptr<World> w(new World); W = w.get(); W->g = &g; int lim = 40 + g.u(60); PBT_CHECK(g, W->ev.init(lim) == 0, "init"); vloop::g_wait = [](int, int) {};
	for (size_t i = 0, n = 1 + g.u(6); i < n; ++i)
	{
		int fd; auto never = [](int, void *) { W->g->fail("a handler runs whose registration was refused"); };
		switch (g.u(4))
		{
		case 0: fd = lim + g.u(1000); break;
		case 1: fd = -1 - (int)g.u(100); break;
		case 2: fd = lim - 1 - g.u(5); close(fd); break; // not open
		default: fd = lim - 1 - g.u(5); { int z = open("/proc/self/exe", O_RDONLY); dup2(z, fd); close(z); } // a regular file
		}
		g.note("register %d of at most %d", fd, lim); PBT_CHECK(g, W->ev.addFdEvent(fd, g.pick<int>({R, WR, R | WR}), never, NULL) != 0, "registering %d is accepted", fd);
		if (fd < 0 || fd >= lim) { PBT_CHECK(g, W->ev.delFdEvent(fd, R) != 0, "removing %d succeeds", fd); continue; }
		int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(99); dup2(p[0], fd); close(p[0]); if (write(p[1], "x", 1) != 1) _exit(99); static int hits; hits = 0;
		PBT_CHECK(g, W->ev.addFdEvent(fd, R, [](int f, void *) { char c; if (read(f, &c, 1) == 1) ++hits; }, NULL) == 0, "after a refused registration descriptor %d cannot be registered: %s", fd, W->ev.getErrorMsg());
		W->ev.addMessage(0, [](int, void *) { W->ev.stop(); }, NULL); W->ev.run(); PBT_CHECK(g, hits == 1, "the read handler ran %d times", hits);
		W->ev.delFdEvent(fd, R); close(fd); close(p[1]); g.nontrivial();
	}
	vloop::g_wait = nullptr; W = NULL;
}
int main(int argc, char **argv)
{
	struct rlimit rl; if (getrlimit(RLIMIT_NOFILE, &rl) == 0) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 20000); setrlimit(RLIMIT_NOFILE, &rl); getrlimit(RLIMIT_NOFILE, &rl); g_lim = (int)std::min<rlim_t>(rl.rlim_cur, 20000); }
	std::vector<Suite> s = {
		{"history", history, 50000, 600000, "socket pairs with random registrations, traffic, full buffers and closes, also inside handlers; non-trivial: three calls in two wake-ups", 10000, 0},
		{"many", many, 60, 600, "1000 to 3500 descriptors ready at once; non-trivial: more than one wake-up reports", 20000, 0},
		{"refused", refused, 8000, 60000, "out of range, closed and regular-file descriptors, then good ones under the same number; non-trivial: a number is used again", 10000, 0}};
	return pbtMain(argc, argv, "C32", s);
}
