// SCALE: 2
// REPO_SRC: src/CCommMgr.cpp src/CNetWorker.cpp src/CEvent.cpp src/CTask.cpp src/CThread.cpp src/CHttpReader.cpp src/CHttpWriter.cpp src/Utils.cpp src/CConfig.cpp src/CFileLog.cpp src/CAsyncLog.cpp src/CTcpConnector.cpp src/CUdpConnector.cpp
// LIBS: -lpthread
// C34: what is over leaves nothing behind.
// A generated plan of work is carried out again and again: memory, descriptors, threads and shared
// memory segments must not grow in every round.
#include "pbt.h"
#include <atomic>
#include <dirent.h>
#include <functional>
#include <memory>
#include <sys/resource.h>
#include <sys/shm.h>
#include <thread>
#include "netmodel.h"
#include "baton.h"
#undef MAP_FILE
#include "CAnyWorkerPool.h"
#include "CRawWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CNetWorkerMgr.h"
#include "CLruCache.h"
#include "CBlockQueue.h"
#include "CCircleQueue.h"
#include "CConfig.h"
#include "CFileLog.h"
#include "CAsyncLog.h"
#include "CTcpConnector.h"
#include "CUdpConnector.h"
#include "CShm.h"
#include "CAnyPackage.h"
#include "StringHelper.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace pbt; using nm::Peer;
static std::atomic<long> g_ahead(0); // the clock of the cache goes faster
#define FAKE_NOW t.tv_sec + g_ahead
#include "fakeclock.h"
static int entries(const char *dir) { int n = 0; DIR *d = opendir(dir); if (!d) return -1; while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
static int segments() { int n = 0; FILE *f = fopen("/proc/self/maps", "r"); char b[600]; while (fgets(b, sizeof b, f)) n += strstr(b, "SYSV") != NULL; fclose(f); return n; }
// a count that may settle a moment later
template <class F> static int settled(F f, int want) { int v = f(); for (int i = 0; i < 60 && v > want; ++i) { struct timespec t = {0, 1000000}; nanosleep(&t, NULL); v = f(); } return v; }
struct Use { size_t heap; int fds, threads, shm; };
template <class F> static void steady(G &g, F round)
{
	int n = 6; auto fds = [] { return entries("/proc/self/fd"); }; auto th = [] { return entries("/proc/self/task"); };
	for (int i = 0; i < 3; ++i) round(i);
	Use a = {__sanitizer_get_current_allocated_bytes(), fds(), th(), segments()}, first = a; bool heap = true, fd = true, t = true, shm = true; size_t last = 0;
	for (int i = 0; i < n; ++i)
	{
		round(3 + i); Use b; b.threads = settled(th, a.threads); b.fds = settled(fds, a.fds); b.shm = segments(); b.heap = __sanitizer_get_current_allocated_bytes(); for (int k = 0; k < 30 && b.heap > a.heap; ++k) { struct timespec x = {0, 1000000}; nanosleep(&x, NULL); b.heap = __sanitizer_get_current_allocated_bytes(); }
		heap &= b.heap > a.heap; fd &= b.fds > a.fds; t &= b.threads > a.threads; shm &= b.shm > a.shm; last = b.heap - a.heap; a = b;
		if (!heap && !fd && !t && !shm) break;
	}
	PBT_CHECK(g, !fd, "the same work again and again: every round leaves descriptors open (%d, then %d after %d more)", first.fds, a.fds, n);
	PBT_CHECK(g, !t, "the same work again and again: every round leaves threads behind (%d, then %d after %d more)", first.threads, a.threads, n);
	PBT_CHECK(g, !shm, "the same work again and again: every round leaves shared memory attached (%d, then %d after %d more)", first.shm, a.shm, n);
	PBT_CHECK(g, !heap, "the same work again and again: every round leaves memory allocated (%zu bytes after %d more, %zu in the last)", a.heap - first.heap, n, last);
}
static std::string myIp() { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }

// ---- servers: what a handler does is in the first byte of a message
struct Api { std::function<int(lce::StSession &, const char *, int, bool)> write; std::function<void(lce::StSession &)> close; std::function<void(uint16_t)> connect; };
static std::string g_bigReply; static uint16_t g_far; static int g_closing; static lce::StSession g_stale; static bool g_haveStale;
static char verb(const char *d, int n, int pkg)
{
	if (pkg == 4) return d[0]; if (pkg == 1) return n > 4 ? d[3] : 'e'; if (pkg == 2) return n > 6 ? d[5] : 'e'; if (pkg == 0) return n > 4 ? d[4] : 'e';
	std::string s(d, n); size_t e = s.find("\r\n\r\n"); return e + 4 < s.size() ? s[e + 4] : 'e';
}
static void handle(Api &a, lce::StSession &s, const char *d, int n, int pkg)
{
	std::string m(d, n);
	switch (verb(d, n, pkg))
	{
	case 'q': a.write(s, m.data(), n, true); break;
	case 'c': a.close(s); g_stale = s; g_haveStale = true; break;
	case 'b': a.write(s, g_bigReply.data(), g_bigReply.size(), false); break;
	case 'B': a.write(s, g_bigReply.data(), g_bigReply.size(), true); break;
	case 'o': a.connect(g_far); a.write(s, m.data(), n, false); break;
	case 'x': a.connect(1); break;
	case 's': if (g_haveStale) a.write(g_stale, "x", 1, false); break;
	case 'n': break;
	default: a.write(s, m.data(), n, false); if (n % 3 == 0) a.write(s, m.data(), n, false);
	}
}
struct Script { size_t srv; std::vector<std::string> msgs; size_t piece; int end; bool reads; size_t rcvbuf; };
struct Plan { std::vector<Script> c; unsigned ctlEvery, ioEvery; int ioErr, scarce, room, after; double level; };
enum End { LEAVE, RESET, HALF, GARBAGE, HUGE_, VANISH, ENDS };
struct Service { int id, pkg; uint32_t maxR; uint16_t port; };
static Plan plan(G &g, std::vector<Service> &sv)
{
	static const char *const ends[] = {"leaves", "resets", "ends its stream", "sends garbage", "sends a message over the limit", "vanishes at once"};
	Plan p; p.ctlEvery = g.chance(1, 5) ? 2 + g.u(6) : 0; p.ioEvery = g.chance(1, 4) ? 2 + g.u(6) : 0; p.ioErr = g.pick({EPIPE, ECONNRESET, EAGAIN, ETIMEDOUT, EINTR}); p.scarce = g.chance(1, 3) ? 1 + g.u(2) : 0; p.room = g.u(4); p.after = g.u(4); p.level = g.pick({1.0, 1.2, 1.44});
	for (size_t i = 0, n = 1 + g.u(6); i < n; ++i)
	{
		Script s; s.srv = g.u(sv.size()); Service &v = sv[s.srv]; s.piece = g.chance(1, 2) ? 100000 : 1 + g.u(60); s.end = g.u(ENDS); s.reads = g.chance(2, 3); s.rcvbuf = g.chance(1, 2) ? 4096 : 0; std::string verbs;
		for (size_t k = 0, m = g.u(5); k < m; ++k) { char c = "eeeeqcbBoxsn"[g.u(12)]; verbs += c; size_t len = 1 + g.size(std::min<size_t>(400, v.maxR - 100)); s.msgs.push_back(nm::frame(v.pkg, c + std::string(len - 1, 'a'))); }
		g.note("client %zu of service %zu (package type %d): %s, %zu bytes at a time, %s%s", i, s.srv, v.pkg, verbs.c_str(), s.piece, ends[s.end], s.reads ? "" : ", does not read"); g.label(ends[s.end]); p.c.push_back(s);
	}
	if (p.ctlEvery) g.note("every %u. epoll_ctl fails", p.ctlEvery); if (p.ioEvery) g.note("every %u. transfer fails with %s", p.ioEvery, strerror(p.ioErr)); g.labelIf(p.ctlEvery, "failing epoll_ctl"); g.labelIf(p.ioEvery, "failing transfers");
	if (p.scarce) { g.note(p.scarce == 1 ? "%d descriptors below the limit of connections (* %g) are free after %d rounds" : "the process may open %d more descriptors", p.room, p.level, p.after); g.label(p.scarce == 1 ? "few free descriptors below the limit" : "few descriptors"); }
	return p;
}
static std::atomic<int> g_events(0);
// one round of the plan; loops(): every event loop runs once
static void carryOut(G &g, const Plan &p, std::vector<Service> &sv, int far, int max, std::function<void()> once)
{
	bool faults = true; struct rlimit lim; getrlimit(RLIMIT_NOFILE, &lim); std::vector<int> ballast;
	auto loops = [&] { if (p.scarce != 2 || !faults) return once(); struct rlimit low = lim; int f = dup(0); ::close(f); low.rlim_cur = f + p.room; setrlimit(RLIMIT_NOFILE, &low); once(); setrlimit(RLIMIT_NOFILE, &lim); };
	static unsigned ctls, ios, ctlEvery, ioEvery; static int ioErr; ctls = ios = 0; ctlEvery = p.ctlEvery; ioEvery = p.ioEvery; ioErr = p.ioErr; g_haveStale = false;
	nm::g_ctl = [](int op, int) { return ctlEvery && op != EPOLL_CTL_DEL && ++ctls % ctlEvery == 0 ? ENOMEM : 0; };
	nm::g_limit = [](int fd, size_t n, bool) -> long { int t, acc = 0; socklen_t l = sizeof t; if (!ioEvery || !n || getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l)) return n; return ++ios % ioEvery == 0 ? -ioErr : (long)n; };
	nm::g_event = [](int) { ++g_events; };
	{
		std::vector<std::unique_ptr<Peer>> ps; std::vector<size_t> next(p.c.size());
		for (auto &s : p.c) { ps.emplace_back(new Peer); if (!ps.back()->dial(sv[s.srv].port ? myIp() : "", sv[s.srv].port, s.rcvbuf)) g.fail("connecting fails"); for (auto &m : s.msgs) ps.back()->stream += m; }
		for (size_t i = 0; i < ps.size(); ++i) if (p.c[i].end == VANISH) ps[i]->close(i % 2);
		for (int k = 0; k < 400; ++k)
		{
			if (p.scarce == 1 && k == p.after) for (int f; (f = dup(0)) >= 0;) { if (f >= max * p.level - p.room) { ::close(f); break; } ballast.push_back(f); }
			loops(); bool all = k >= p.after; for (size_t i = 0; i < ps.size(); ++i) { Peer *q = ps[i].get(); q->push(p.c[i].piece); if (p.c[i].reads) q->read(1 << 20); if (q->canSend()) all = false; }
			if (all) break;
		}
		loops();
		for (size_t i = 0; i < ps.size(); ++i)
		{
			Peer *q = ps[i].get(); const Script &s = p.c[i]; if (q->closed) continue;
			if (s.end == RESET) q->close(true); else if (s.end == HALF) q->shutdown(); else if (s.end == GARBAGE) { std::string x("\0!\0", 3); nm::tx(q->fd, x.data(), x.size()); } else if (s.end == HUGE_ && sv[s.srv].pkg != 4) { std::string x = nm::frame(sv[s.srv].pkg == 1 ? 2 : sv[s.srv].pkg, std::string(sv[s.srv].maxR + 50, 'h')); if (sv[s.srv].pkg == 3) x = std::string(x.size(), 'G'); nm::tx(q->fd, x.data(), x.size()); } else if (s.end == LEAVE) q->close(false);
		}
		for (int k = 0; k < 3; ++k) { loops(); for (size_t i = 0; i < ps.size(); ++i) if (p.c[i].reads || k == 2) ps[i]->read(1 << 20); }
		for (auto &q : ps) if (!q->closed) q->close(false);
	}
	// faults are over; whatever is left is done
	ctlEvery = ioEvery = 0; faults = false; for (int f : ballast) ::close(f); for (;;) { struct sockaddr_in a; socklen_t l = sizeof a; int c = (int)syscall(SYS_accept4, far, &a, &l, 0); if (c < 0) break; ::close(c); }
	for (int k = 0, calm = 0; k < 300 && calm < 2; ++k) { g_events = 0; loops(); for (;;) { struct sockaddr_in a; socklen_t l = sizeof a; int c = (int)syscall(SYS_accept4, far, &a, &l, 0); if (c < 0) break; ::close(c); } calm = g_events ? 0 : calm + 1; }
	nm::g_event = nullptr;
}
struct Proc : lce::CProcessor
{
	Api a; int pkg, opened, ended;
	void onConnect(lce::StSession &s, bool ok, void *) { if (ok) { int b = 4608; setsockopt(s.iFd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); if (s.iSvrId == g_closing) a.close(s); } else if (g_closing % 2) a.close(s); }
	void onRead(lce::StSession &s, const char *d, const int n) { handle(a, s, d, n, pkg); }
	void onClose(lce::StSession &s) { } void onError(lce::StSession &, const char *, int) {} void onMessage(int, void *) { M().stop(); } void onTimer(int, void *) {}
};
static void step() { static Proc stop; M().sendMessage(1, &stop, NULL); M().start(); }
static void tcp(G &g)
{
	signal(SIGPIPE, SIG_DFL); int max = g.chance(1, 4) ? 60 : 300; PBT_CHECK(g, M().init(max) == 0, "init"); uint16_t fp; int far = nm::listener(myIp(), &fp); g_far = fp; g_bigReply.assign(g.pick({3000, 60000, 200000}), 'B'); g_closing = g.pick({-1, -2, 0}); static Proc procs[5]; std::vector<int> known; std::vector<Service> sv; int client = -1;
	static Api a; a.write = [](lce::StSession &s, const char *d, int n, bool c) { return M().write(s, d, n, c); }; a.close = [](lce::StSession &s) { M().close(s); };
	for (size_t i = 0, n = 1 + g.u(2); i < n; ++i)
	{
		Service s; s.pkg = g.pick({2, 1, 3, 4}); s.maxR = g.pick({300, 5000}); s.id = M().createSrv(lce::SRV_TCP, myIp(), 0, 100, s.maxR, 16 << g.u(9), g.pick({10000, 100000, 1000000})); PBT_CHECK(g, s.id >= 0, "createSrv"); procs[i].a = a; procs[i].pkg = s.pkg; M().setProcessor(s.id, &procs[i], s.pkg);
		int fd = nm::findSocket(SOCK_STREAM, known); known.push_back(fd); s.port = nm::localPort(fd); sv.push_back(s);
	}
	client = M().createClient(100, 2000, 50, 5000); static int cl; cl = client; for (auto &p : procs) p.a.connect = [](uint16_t port) { M().connect(cl, myIp(), port, NULL); }; procs[4].a = procs[0].a; procs[4].pkg = 2; M().setProcessor(client, &procs[4], 2);
	Plan p = plan(g, sv); bool extra = g.chance(1, 4), udp = g.chance(1, 4); size_t timers = g.u(4), nMsg = g.u(4); int ufd = -1; uint16_t uport = 0; if (udp) { int id = M().createSrv(lce::SRV_UDP, myIp(), 0, 2000, 2000, 2000, 2000); PBT_CHECK(g, id >= 0, "createSrv"); M().setProcessor(id, &procs[0], 4); uport = nm::localPort(nm::findSocket(SOCK_DGRAM, std::vector<int>())); ufd = nm::high(socket(AF_INET, SOCK_DGRAM, 0)); }
	g.labelIf(extra, "service created and removed"); g.labelIf(udp, "datagrams");
	steady(g, [&](int) {
		if (extra)
		{
			nm::g_ctl = nullptr; int id = M().createSrv(lce::SRV_TCP, myIp(), 0, 100, 1000, 100, 1000); if (id >= 0) { M().setProcessor(id, &procs[0], 2); Peer q; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)); q.dial(myIp(), port, 0); q.say(nm::frame(2, "e1234")); q.push(7); step(); step(); M().rmSrv(id); q.close(false); }
			id = M().createSrv(lce::SRV_TCP, "1.2.3.4", 0); PBT_CHECK(g, id < 0, "a service on a foreign address is created"); std::vector<int> kd; if (udp) kd.push_back(nm::findSocket(SOCK_DGRAM, kd)); id = M().createSrv(lce::SRV_UDP, myIp(), 0, 300, 300, 300, 300); if (id >= 0) { M().setProcessor(id, &procs[0], 4); struct sockaddr_in to = nm::addr(myIp(), nm::localPort(nm::findSocket(SOCK_DGRAM, kd))); int u = nm::high(socket(AF_INET, SOCK_DGRAM, 0)); syscall(SYS_sendto, u, "eeee", 4, 0, &to, sizeof to); step(); step(); char b[300]; while (nm::rx(u, b, sizeof b, MSG_DONTWAIT) >= 0) {} ::close(u); M().rmSrv(id); }
		}
		if (udp) { struct sockaddr_in to = nm::addr(myIp(), uport); for (int k = 0; k < 3; ++k) { std::string d(1 + k * 40, 'e'); syscall(SYS_sendto, ufd, d.data(), d.size(), 0, &to, sizeof to); } }
		for (size_t k = 0; k < timers; ++k) { M().addTimer(k, k == 0 ? 100000 : 0, &procs[4], NULL); if (k % 2 == 0) M().delTimer(k); } for (size_t k = 0; k < nMsg; ++k) M().sendMessage(2, &procs[4], NULL);
		carryOut(g, p, sv, far, max, step);
		if (udp) { char b[3000]; while (nm::rx(ufd, b, sizeof b, MSG_DONTWAIT) >= 0) {} }
	});
	g.nontrivial();
}
struct Worker : lce::CNetWorker
{
	static std::vector<Worker *> all; static std::vector<Service> *sv; int client; Api a;
	Worker() : client(-1) { all.push_back(this); a.write = [this](lce::StSession &s, const char *d, int n, bool c) { return write(s, d, n, c); }; a.close = [this](lce::StSession &s) { close(s); }; a.connect = [this](uint16_t port) { connect(client, myIp(), port, NULL); }; }
	int init() { client = createClient(2, 100, 2000, 50, 5000); return 0; }
	int pkg(int id) { for (auto &s : *sv) if (s.id == id) return s.pkg; return 2; }
	void onConnect(lce::StSession &s, bool ok, void *) { if (ok) { int b = 4608; setsockopt(s.iFd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); if (s.iSvrId == g_closing) close(s); } else if (g_closing % 2) close(s); }
	void onRead(lce::StSession &s, const char *d, const int n) { handle(a, s, d, n, pkg(s.iSvrId)); } void onClose(lce::StSession &) {} void onError(lce::StSession &, const char *, int) {} void onMessage(int, void *) { for (int k = 0; k < 3; ++k) { addTimer(k, k ? 0 : 100000, NULL); if (k != 1) delTimer(k); } } void onTimer(int, void *) {}
};
std::vector<Worker *> Worker::all; std::vector<Service> *Worker::sv;
static void workers(G &g)
{
	signal(SIGPIPE, SIG_DFL); static lce::CNetWorkerMgr<Worker> Mg; size_t nw = 1 + g.u(3); static std::vector<Service> sv; Worker::sv = &sv; uint16_t fp; int far = nm::listener(myIp(), &fp); g_far = fp; g_bigReply.assign(g.pick({3000, 60000, 200000}), 'B'); g_closing = g.pick({-1, -2, 0}); int max = g.chance(1, 4) ? 40 : 300; PBT_CHECK(g, Mg.init(nw, max) == 0, "init"); Mg.setErrHandler([](const char *) {}); std::vector<int> known;
	for (size_t i = 0, n = 1 + g.u(2); i < n; ++i) { Service s; s.pkg = g.pick({2, 1, 3, 4}); s.maxR = g.pick({300, 5000}); s.id = Mg.createSrv(myIp(), 0, s.pkg, 100, s.maxR, 16 << g.u(9), g.pick({10000, 100000, 1000000})); PBT_CHECK(g, s.id >= 0, "createSrv"); int fd = nm::findSocket(SOCK_STREAM, known); known.push_back(fd); s.port = nm::localPort(fd); sv.push_back(s); }
	baton::on = true; std::thread([] { Mg.start(); }).detach(); baton::waitFor(nw + 1); std::vector<int> loops = baton::loops(); Plan p = plan(g, sv); bool msgs = g.chance(1, 2);
	steady(g, [&](int) { if (msgs) for (auto w : Worker::all) w->sendMessage(1, NULL); carryOut(g, p, sv, far, max, [&] { for (int l : loops) baton::round(l); }); });
	g.labelIf(nw > 1, "several workers"); g.nontrivial();
}
// ---- worker pools
static std::atomic<int> g_done(0); static int g_handed, g_refused; static pthread_t g_main;
static std::string serve(const std::string &t, bool &close) { char c = t.empty() ? 'e' : t[0]; if (c == 't') throw std::runtime_error("thrown"); close = c == 'q'; return c == 'b' ? t + std::string(30000, 'b') : t; }
struct RawW : lce::CRawWorker { void onRequest(lce::CRawRequest &q, lce::CRawResponse &r) { bool c = false; const std::string &m = q.getReader(); r.getWriter() = nm::frame(2, serve(m.substr(5, m.size() - 6), c)); r.setCloseFlag(c); } };
struct AnyW : lce::CAnyWorker { void onRequest(lce::CAnyRequest &q, lce::CAnyResponse &r) { bool c = false; std::string t = (std::string)q.getReader()["text"]; r.getWriter()["text"] = serve(t, c); r.getWriter()["list"].push_back(lce::CAnyValue(1)); r.setCloseFlag(c); } };
struct HttpW : lce::CHttpWorker { void onRequest(lce::CHttpRequest &q, lce::CHttpResponse &r) { bool c = false; std::string t = serve(q.getReader().getBody(), c); r.getWriter().begin(); r.getWriter().setCookie("a", "b"); r.getWriter() << t; r.getWriter().end(); r.setCloseFlag(c); } };
static std::string request(int kind, const std::string &text)
{
	if (kind == 0) return nm::frame(2, text); if (kind == 2) return text[0] == 'u' ? "GET /\r\n\r\n" : nm::frame(3, text);
	lce::CAnyPackage p; p.head().setStx(2); p["text"] = text; p["deep"]["er"].push_back(lce::CAnyValue("x")); p.encode(); p.head().setLen(p.size() + 1); p.setEtx(); std::string r(p.data(), p.size()); if (text[0] == 'v') r[50] = '\x7f'; if (text[0] == 'u') r = nm::frame(2, r.substr(5, r.size() - 20 - text.size() / 2)); return r;
}
// counts the requests that are queued and those that are over
template <class P> struct Counted : P
{
	~Counted() { this->stop(); this->join(); }
	void onRead(lce::StSession &s, const char *d, const int n) { int r = g_refused; P::onRead(s, d, n); if (r == g_refused) ++g_handed; }
	void onWork(int t, void *d, int i) { P::onWork(t, d, i); ++g_done; }
};
template <class P> static P *pool(int n, int q) { P *p = new Counted<P>; p->init(n, q); p->setErrHandler([](const char *) { if (pthread_equal(pthread_self(), g_main)) ++g_refused; }); p->run(); return p; }
static void pools(G &g)
{
	signal(SIGPIPE, SIG_DFL); g_main = pthread_self(); PBT_CHECK(g, M().init(200) == 0, "init"); int kind = g.u(3), nt = 1 + g.u(4), q = g.chance(1, 3) ? 1 + g.u(3) : 500; bool renew = g.chance(1, 3); auto make = [&]() -> lce::CProcessor * { return kind == 0 ? (lce::CProcessor *)pool<lce::CRawWorkerPool<RawW>>(nt, q) : kind == 1 ? (lce::CProcessor *)pool<lce::CAnyWorkerPool<AnyW>>(nt, q) : (lce::CProcessor *)pool<lce::CHttpWorkerPool<HttpW>>(nt, q); };
	static const char *const names[] = {"raw", "any", "http"}; g.note("%s pool, %d threads, %d requests may wait%s", names[kind], nt, q, renew ? ", a new one for every round" : ""); g.label(names[kind]); g.labelIf(renew, "pools created and destroyed");
	std::vector<int> known; int id = M().createSrv(lce::SRV_TCP, myIp(), 0, 200, 50000, 100, g.pick({2000, 1000000})); PBT_CHECK(g, id >= 0, "createSrv"); uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)); lce::CProcessor *pr = NULL; static Proc none;
	struct C { std::string stream; int leave; }; std::vector<C> cs; for (size_t i = 0, n = 1 + g.u(5); i < n; ++i) { C c; std::string v; for (size_t k = 0, m = 1 + g.u(6); k < m; ++k) { char x = "eeeeqtbuv"[g.u(9)]; v += x; c.stream += request(kind, x + std::string(g.size(300), 'a')); } c.leave = g.u(3); g.note("client %zu: %s, leaves %s", i, v.c_str(), c.leave == 0 ? "at once" : c.leave == 1 ? "before it reads" : "when it has its answers"); cs.push_back(c); }
	steady(g, [&](int) {
		if (!pr || renew) { pr = make(); M().setProcessor(id, pr, kind == 2 ? 3 : 2); }
		{
			std::vector<std::unique_ptr<Peer>> ps; for (auto &c : cs) { ps.emplace_back(new Peer); if (!ps.back()->dial(myIp(), port, 0)) g.fail("connecting fails"); ps.back()->stream = c.stream; ps.back()->push(1 << 20); if (c.leave == 0) ps.back()->close(true); }
			for (int k = 0; k < 3; ++k) step(); for (size_t i = 0; i < ps.size(); ++i) if (cs[i].leave == 1) ps[i]->close(false);
			uint64_t t0 = nowMs(); for (int calm = 0; calm < 3;) { step(); for (auto &p : ps) p->read(1 << 20); if (g_done == g_handed) ++calm; else { PBT_CHECK(g, nowMs() - t0 < 10000, "%d of %d requests are carried out", (int)g_done, g_handed); calm = 0; struct timespec t = {0, 100000}; nanosleep(&t, NULL); } }
			for (auto &p : ps) p->close(false);
		}
		step(); step();
		if (renew) { M().setProcessor(id, &none, 4); delete pr; pr = NULL; step(); }
	});
	g.nontrivial();
}
// ---- event loops
static void events(G &g)
{
	struct Op { int what, a, b; }; std::vector<Op> ops; for (size_t i = 0, n = 2 + g.u(30); i < n; ++i) ops.push_back({(int)g.u(6), (int)g.u(6), (int)g.u(40)}); bool renew = g.b(); std::unique_ptr<lce::CEvent> ev; int fds[4]; if (pipe(fds) || pipe(fds + 2)) _exit(99); for (int &f : fds) { f = nm::high(f); nm::nonblock(f); }
	g.note("%zu operations%s", ops.size(), renew ? ", a new loop for every round" : ""); g.labelIf(renew, "loops created and destroyed"); std::string big(100, 'x'); int id = 100;
	steady(g, [&](int) {
		if (!ev || renew) { ev.reset(new lce::CEvent); PBT_CHECK(g, ev->init(3000) == 0, "init"); } lce::CEvent *e = ev.get(); auto run = [e] { e->addMessage(0, [e](int, void *) { e->stop(); }, NULL); e->run(); };
		for (auto &o : ops) switch (o.what)
		{
		case 0: e->addTimer(o.a, o.b < 20 ? 0 : 100000, [e, big](int id, void *) { if (id % 2) e->addTimer(id + 1, 100000, [big](int, void *) {}, NULL); }, NULL); break;
		case 1: e->delTimer(o.a); break;
		case 2: e->addMessage(o.a, [big](int, void *) {}, NULL); break;
		case 3: e->addFdEvent(fds[o.a & 3], o.b & 1 ? lce::CEvent::EV_READ : lce::CEvent::EV_WRITE, [e, big](int fd, void *) { char b[100]; while (nm::rx(fd, b, 1) > 0 || syscall(SYS_read, fd, b, 100) > 0) {} e->delFdEvent(fd, lce::CEvent::EV_WRITE); }, NULL); break;
		case 4: e->delFdEvent(fds[o.a & 3], 1 + o.b % 3); break;
		default: syscall(SYS_write, fds[1], "x", 1); run();
		}
		for (int f : fds) e->delFdEvent(f, 3); if (ops[0].b % 2 || !renew) run(); for (int i = 0; i < 8; ++i) e->delTimer(i); if (ops[0].a % 2) { for (int i = 0; i < 3; ++i) e->addTimer(id++, 0, [](int, void *) {}, NULL); struct timespec t = {0, 2000000}; nanosleep(&t, NULL); run(); run(); }
		if (renew) ev.reset();
	});
	if (ops.size() > 3) g.nontrivial();
}
// ---- everything else
struct Val { std::string s; Val() {} Val(const std::string &x) : s(x) {} };
static void tree(lce::CAnyValue &v, const std::vector<unsigned> &r, size_t &i, int depth)
{
	unsigned x = i < r.size() ? r[i++] : 0;
	switch (depth > 4 ? x % 4 : x % 7) { case 0: v = (int64_t)x; break; case 1: v = std::string(x % 90, 's'); break; case 2: v = x % 2 == 0; break; case 3: v = x / 3.0; break; case 4: case 5: for (unsigned k = 0; k < x % 4; ++k) tree(v["key" + std::to_string(k)], r, i, depth + 1); break; default: for (unsigned k = 0; k < x % 4; ++k) { lce::CAnyValue e; tree(e, r, i, depth + 1); v.push_back(e); } }
}
static void parts(G &g)
{
	std::vector<unsigned> r; for (size_t i = 0, n = 5 + g.size(200); i < n; ++i) r.push_back(g.u(1000)); std::vector<std::string> d; for (int i = 0; i < 4; ++i) d.push_back(g.blob(g.size(400))); int what = g.u(10); static const char *const names[] = {"cache", "queues", "values", "http", "config", "file log", "tcp connector", "udp connector", "shared memory", "threads"}; g.note("%s, %zu steps", names[what], r.size()); g.label(names[what]); if (r.size() > 10) g.nontrivial();
	std::string dir = scratch(); uint16_t port = 0; int ls = what == 6 ? nm::listener(myIp(), &port) : -1; static lce::CLruCache<std::string, Val> kept(40); static lce::CLruCacheV2<std::string, Val> kept2(200);
	steady(g, [&](int k) {
		switch (what)
		{
		case 0:
		{
			lce::CLruCache<std::string, Val> c(30); lce::CLruCacheV2<std::string, Val> c2(100); Val v; for (unsigned x : r) { std::string key = "k" + std::to_string(x % 60); if (x % 7 == 0) g_ahead += x % 4; switch (x % 11) { case 0: c.del(key); kept.del(key); kept2.del(key); break; case 1: case 2: case 3: c.get(key, v); kept.get(key, v); kept2.get(key, v); break; case 4: if (x % 13 == 0) { c.clear(); kept.clear(); kept2.clear(); } break; default: c.set(key, Val(std::string(x % 100, 'v')), x % 3 ? 0 : 1); kept.set(key, Val(std::string(x % 100, 'v')), x % 3 ? 0 : -1); kept2.set(key, Val(std::string(x % 100, 'v'))); c2.set(key, v); } }
			if (r[0] % 2) for (int i = 0; i < 60; ++i) { kept.del("k" + std::to_string(i)); kept2.del("k" + std::to_string(i)); } else { kept.clear(); kept2.clear(); }
			break;
		}
		case 1:
		{
			lce::CBlockQueue<std::string> b(1 + r[0] % 20); lce::CCircleQueue<std::string> q; q.init(1 + r[1] % 30); std::string s; for (unsigned x : r) { if (x % 3) { if (!b.full()) b.push(std::string(x % 80, 'q')); q.enque(std::string(x % 80, 'c')); } else { b.pop(s, 1); q.deque(s); } if (x % 37 == 0) b.clear(); }
			lce::CSocketBuf sb(16, 100000), other(32, 1000); for (unsigned x : r) { if (x % 3) sb.addData(d[x % 4].data(), d[x % 4].size()); else sb.removeData(std::min<int>(x % 300, sb.getSize())); if (x % 41 == 0) { lce::CSocketBuf copy(sb); other = sb; } if (x % 53 == 0) sb.reset(); }
			break;
		}
		case 2:
		{
			size_t i = 0; lce::CAnyValue v; tree(v, r, i, 0); std::string b, j, x; v.encode(b); v.encodeJSON(j); v.encodeXML(x); lce::CAnyValue w(v), u; try { u.decode(b.data(), b.size()); u = w; w = u; } catch (const std::exception &) {} try { u.decodeJSON(j.data(), j.size()); } catch (const std::exception &) {}
			for (size_t n : {(size_t)r[0], (size_t)r[1], (size_t)r[2]}) { if (b.size()) { std::string t = b.substr(0, n % b.size()); lce::CAnyValue e; try { e.decode(t.data(), t.size()); } catch (const std::exception &) {} t = b; t[n % t.size()] ^= 1 << n % 8; try { e.decode(t.data(), t.size()); } catch (const std::exception &) {} } if (j.size()) { lce::CAnyValue e; try { e.decodeJSON(j.data(), n % j.size()); } catch (const std::exception &) {} } }
			try { lce::CAnyPackage p; p["v"] = v; p.encode(); lce::CAnyPackage p2; p2.decode(p.data(), p.size()); p2["a"] = 1; p2.decode(d[0].data(), d[0].size()); } catch (const std::exception &) {}
			for (unsigned y : r) try { switch (y % 8) { case 0: w["m" + std::to_string(y % 9)] = v; break; case 1: w.push_back(u); break; case 2: w.clear(); break; case 3: u = w["m1"]; break; case 4: w[(size_t)(y % 5)] = 1; break; case 5: (void)(std::string) w["m2"]; break; default: w["l"].push_back(lce::CAnyValue(std::string(y % 30, 'z'))); } } catch (const std::exception &) {}
			break;
		}
		case 3:
		{
			lce::CHttpReader rd; for (int i = 0; i < 3; ++i) { std::string m = "POST /" + d[3].substr(0, 20) + "?a=b&c=" + lce::FormUrlEncode(d[0]) + " HTTP/1.1\r\nHost: x\r\nCookie: a=b; c=" + std::to_string(r[0]) + "\r\nContent-Length: " + std::to_string(d[1].size()) + "\r\n\r\n" + d[1]; rd.setData(m.data(), m.size()); m = "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=XX\r\n\r\n--XX\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\nContent-Type: text/plain\r\n\r\n" + d[2] + "\r\n--XX--\r\n"; rd.setData(m.data(), m.size()); rd.setData(d[i].data(), d[i].size()); }
			lce::CHttpWriter w; for (int i = 0; i < 3; ++i) { w.begin(); w.setCookie("n", d[0], "d", "/", r[0]); w.setHead("X-A", std::to_string(r[1])); w << d[1]; w.end(); } std::string t = lce::FormUrlDecode(d[2]); std::vector<std::string> v; lce::SplitStr(d[3], "a", v);
			break;
		}
		case 4:
		{
			std::string f = dir + "/c"; FILE *o = fopen(f.c_str(), "w"); fprintf(o, "[a]\nx=1\ny=%s\n[b]\nip=1.2.3.4:5\n%s\n", std::string(r[0] % 200, 'y').c_str(), std::string(r[1] % 50, '[').c_str()); fclose(o);
			static lce::CConfig kept; lce::CConfig c; for (int i = 0; i < 2; ++i) { c.loadConfig(f); kept.loadConfig(f); c.loadConfig(dir + "/none"); kept.loadConfig(dir); std::string s; c.getValue("a", "y", s); c.getValue("q" + std::to_string(i), "y", s); kept.getValue("a", "zz", s); }
			break;
		}
		case 5: { lce::CFileLog l; l.init(dir + "/log", 500, 1 + r[0] % 4, false); for (unsigned x : r) { if (x % 3) l.write(std::string(x % 90, 'l')); else l.write("%d %s", x, "text"); if (x % 50 == 0) l << x; } lce::CFileLog bad; bad.init(dir + "/no/such/log", 500, 2, false); bad.write("x"); if (r[1] % 2) { lce::CAsyncLog a; a.init(dir + "/alog", 1, 2000, 2, false, 4000); for (unsigned x : r) a.write(std::string(x % 90, 'a')); a.flush(); } break; }
		case 6:
		{
			for (int i = 0; i < 4; ++i)
			{
				lce::CTcpConnector c; bool ok = c.connect(myIp(), r[i] % 3 ? port : 1, 1000); if (r[i] % 5 == 0) c.connect(myIp(), port, 1000); int s = (int)syscall(SYS_accept4, ls, NULL, NULL, 0); if (s >= 0 && ok) { nm::tx(s, "hello", 5); std::string b; if (r[i] % 2) c.read(b, 100); else { char x[20]; c.readn(x, 7, 1); } c.write("abc", 3, 100); } if (s >= 0) ::close(s); while ((s = (int)syscall(SYS_accept4, ls, NULL, NULL, 0)) >= 0) ::close(s);
				if (r[i] % 4 == 1) { c.close(); c.close(); } std::string b; if (r[i] % 4 == 2) c.read(b, 1);
			}
			break;
		}
		case 7: for (int i = 0; i < 4; ++i) { lce::CUdpConnector c; c.connect(myIp(), 9, r[i] % 3 == 0 ? "1.2.3.4" : r[i] % 3 == 1 ? myIp() : "", 0); c.write("abc", 3); std::string b; c.read(b, 1); if (r[i] % 4 == 1) c.connect(myIp(), 10); if (r[i] % 4 == 2) { c.close(); c.close(); } } break;
		case 8:
		{
			int key = 0x4c000000 | (getpid() & 0xffffff); { lce::CShm s; PBT_CHECK(g, s.create(key, 4096), "create: %s", s.getErrMsg()); if (r[0] % 2) s.attach(); if (r[1] % 3 == 0) { lce::CShm t; t.create(key, 4096, false); t.attach(); if (r[2] % 2) t.create(key, 4096, false); t.detach(); } lce::CShm u; u.create(key, 100000, false); }
			int id = shmget(key, 0, 0600); if (id >= 0) shmctl(id, IPC_RMID, NULL); break;
		}
		default:
		{
			struct T : lce::CThread { int ms; std::atomic<int> *n; int run() { int us = ms; ++*n; std::string s(1000, 'x'); if (us) { struct timespec t = {0, us * 1000}; nanosleep(&t, NULL); } return 0; } }; static std::atomic<int> n; n = 0; int want = 0;
			for (int i = 0; i < 4; ++i) { std::unique_ptr<T> t(new T); t->ms = r[i] % 200; t->n = &n; if (r[i] % 7 == 6) continue; PBT_CHECK(g, t->start() == 0, "start"); ++want; for (int w = 0; w < 5000 && n < want; ++w) { struct timespec x = {0, 1000000}; nanosleep(&x, NULL); } if (r[i] % 3 == 0) t->join(); else if (r[i] % 3 == 1) { t->stop(); } else { struct timespec x = {0, 1000000}; nanosleep(&x, NULL); } }
			struct K : lce::CTask { ~K() { stop(); join(); } std::atomic<int> n; K() : n(0) {} void onWork(int, void *d, int) { delete (std::string *)d; ++n; } };
			{ K t; t.init(1 + r[0] % 3, 5); t.run(); int acc = 0; for (int i = 0; i < 8; ++i) { std::string *s = new std::string(200, 'w'); if (t.dispatch(1, s) == 0) ++acc; else delete s; } for (int w = 0; w < 5000 && t.n < acc; ++w) { struct timespec x = {0, 1000000}; nanosleep(&x, NULL); } }
			break;
		}
		}
		(void)k;
	});
	if (ls >= 0) ::close(ls); rmTree(dir);
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"tcp", tcp, 2500, 60000, "one plan of connections, messages, ends and faults carried out nine times by the single-threaded server; every case is non-trivial", 30000, F_ISOLATE},
		{"workers", workers, 1200, 30000, "the same with network workers; every case is non-trivial", 30000, F_ISOLATE},
		{"pools", pools, 400, 8000, "one plan of requests to a worker pool carried out nine times; every case is non-trivial", 30000, F_ISOLATE | F_RACY},
		{"events", events, 1500, 40000, "one plan of timers, messages and descriptors carried out nine times by an event loop; non-trivial: more than three operations", 20000, F_ISOLATE},
		{"parts", parts, 2500, 60000, "one plan of work for a cache, queue, value, codec, log, configuration, connector, segment or thread carried out nine times; non-trivial: more than ten steps", 20000, F_ISOLATE}};
	return pbtMain(argc, argv, "C34", s);
}
