// REPO_SRC: src/CCommMgr.cpp src/CEvent.cpp src/Utils.cpp
// C26: the TCP server hands over every message once and sends every reply whole.
#include "pbt.h"
#include <memory>
#include <map>
#include "netmodel.h"
#include "CCommMgr.h"
#include "networld.h"
using namespace pbt; using nm::Peer;
extern "C" int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) { return nm::wait(ep, ev, max, timeout); }
extern "C" int epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *) { return nm::wait(ep, ev, max, timeout); }
static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }
struct World : NetWorld, lce::CProcessor
{
	int xWrite(lce::StSession &s, const char *d, int n, bool bye) { return M().write(s, d, n, bye); }
	int xClose(lce::StSession &s) { return M().close(s); }
	int xConnect(int id, uint16_t port, void *p) { return M().connect(id, ip, port, p); }
	std::string xErr() { return M().getErrMsg(); }
	int xRemove(int id) { return M().rmSrv(id); }
	void step() { M().sendMessage(1, this, NULL); M().start(); }
	void onConnect(lce::StSession &s, bool ok, void *pData) { NetWorld::onConnect(s, ok, pData); }
	void onRead(lce::StSession &s, const char *d, const int n) { NetWorld::onRead(s, d, n); }
	void onClose(lce::StSession &s) { NetWorld::onClose(s); }
	void onError(lce::StSession &s, const char *m, int e) { NetWorld::onError(s, m, e); }
	void onMessage(int, void *) { M().stop(); }
	World() { canRemove = true; }
};
static World *W; static Filter g_filter;
// the program's own package filter, or none
static void own(G &g, Srv &s)
{
	if (g.chance(1, 2)) PBT_CHECK(g, M().setPkgFilter(s.id, NULL) == -1 && M().setPkgFilter(-1, &g_filter) == -1 && M().setPkgFilter(1000, &g_filter) == -1, "setPkgFilter accepts what it cannot use");
	if (s.type == 1 && g.chance(1, 4)) { s.nofilter = true; g.note("service %d has no package filter", s.id); return; }
	PBT_CHECK(g, M().setPkgFilter(s.id, &g_filter) == 0, "setPkgFilter: %s", M().getErrMsg()); if (g.chance(1, 4)) M().setPkgFilter(s.id, NULL); g.label("own package filter");
}
static void run(G &g, bool slow)
{
	signal(SIGPIPE, SIG_DFL); W = new World; W->slow = slow; W->g = &g; char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); W->ip = ip;
	PBT_CHECK(g, M().init(200) == 0, "init"); W->far = nm::listener(ip, &W->farPort); std::vector<int> known;
	for (size_t i = 0, n = slow ? 1 : 1 + g.u(2); i < n; ++i)
	{
		Srv s; s.type = 1; s.pkg = g.pick({2, 2, 2, 1, 3, 4, 0}); uint32_t iR = 16 << g.u(8), iS = 16 << g.u(9); s.maxR = std::max<uint32_t>(iR + 100, (uint32_t)g.pick({128, 300, 1000, 5000, 40000})); s.maxS = std::max<uint32_t>(iS, slow ? 200000 : g.pick({100, 3000, 20000, 100000})); s.removed = false;
		uint16_t want = g.b() ? nm::freePort(ip, SOCK_STREAM) : 0; s.id = M().createSrv(lce::SRV_TCP, ip, want, iR, s.maxR, iS, s.maxS); PBT_CHECK(g, s.id >= 0, "createSrv: %s", M().getErrMsg()); PBT_CHECK(g, M().setProcessor(s.id, W, s.pkg) == 0, "setProcessor"); if (s.pkg == 0) own(g, s);
		s.fd = nm::findSocket(SOCK_STREAM, known); if (s.fd < 0) _exit(99); known.push_back(s.fd); s.port = nm::localPort(s.fd); PBT_CHECK(g, (!want || s.port == want) && nm::localIp(s.fd) == ip, "the service for %s:%u listens on %s:%u", ip, want, nm::localIp(s.fd).c_str(), s.port); g.labelIf(want, "service on a chosen port"); if (g.chance(1, 3)) PBT_CHECK(g, M().createSrv(lce::SRV_TCP, ip, s.port) < 0, "a second service for the same port is created"); W->srv.push_back(s); g.note("service %d: package type %d, receive buffer %u to %u, send buffer %u to %u", s.id, s.pkg, iR, s.maxR, iS, s.maxS);
	}
	for (size_t i = 0, n = 1 + g.u(3); i < n; ++i) { Srv s; s.type = 3; s.pkg = g.pick({2, 2, 0, 1, 4}); s.maxR = 2000 + 1000 * i; s.maxS = 5000 + 1000 * i; s.removed = false; s.port = 0; s.id = M().createClient(100, s.maxR, 50, s.maxS); PBT_CHECK(g, M().setProcessor(s.id, W, s.pkg) == 0, "setProcessor"); if (s.pkg == 0) own(g, s); W->srv.push_back(s); }
	W->drive(10 + g.size(g.thorough() ? 200 : 90));
}
static void history(G &g) { run(g, false); }
// clients that read little and stop sending while much is on its way to them
static void slow(G &g) { run(g, true); }
// the limit of clients, and descriptors beyond the table
struct Lim : lce::CProcessor
{
	G *g; int max, live, refused, table, accepted; std::map<int, int> fds; bool bad; std::vector<lce::StSession> open;
	void onConnect(lce::StSession &s, bool ok, void *pd)
	{
		if (pd) { PBT_CHECK(*g, s.iFd < table, "connection %d is beyond the table of %d", s.iFd, table); return; }
		PBT_CHECK(*g, ok && s.iFd < table, "descriptor %d is beyond the table of %d", s.iFd, table); PBT_CHECK(*g, live < max, "connection %d is accepted, the limit is %d", live + 1, max); ++live; ++accepted; open.push_back(s); g->note(" accepted, descriptor %d", s.iFd);
	}
	void onRead(lce::StSession &s, const char *d, const int n) { M().write(s, d, n, false); }
	void onClose(lce::StSession &s) { --live; for (size_t i = 0; i < open.size(); ++i) if (open[i].iFd == s.iFd) { open.erase(open.begin() + i); break; } }
	void onError(lce::StSession &s, const char *m, int e)
	{
		if (e == lce::ERR_NOT_READY) return; PBT_CHECK(*g, e == lce::ERR_MAX_CLIENT, "error %d: %s", e, m); int f = fcntl(0, F_DUPFD, 3); close(f); // the next free number
		PBT_CHECK(*g, live == max || f + 1 >= table || bad, "a connection is refused, %d of %d are open (next descriptor %d of %d)", live, max, f, table); ++refused;
	}
	void onMessage(int, void *) { M().stop(); }
	void step() { M().sendMessage(1, this, NULL); M().start(); }
};
static void limits(G &g)
{
	static Lim L; L.g = &g; L.live = L.refused = L.accepted = 0; L.bad = g.chance(1, 3); bool crowd = !L.bad && g.chance(1, 4); L.max = L.bad ? g.range(10, 30) : crowd ? g.range(100, 400) : g.range(60, 80); L.table = (uint32_t)(L.max * 1.2f);
	char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); PBT_CHECK(g, M().init(L.max) == 0, "init"); int id = M().createSrv(lce::SRV_TCP, ip, 0); PBT_CHECK(g, id >= 0, "createSrv"); M().setProcessor(id, &L, 4);
	int cl = M().createClient(); M().setProcessor(cl, &L, 4); uint16_t fp; nm::listener(ip, &fp); std::vector<int> known; int fd = nm::findSocket(SOCK_STREAM, known); uint16_t port = nm::localPort(fd); std::vector<std::unique_ptr<Peer>> ps;
	g.note("at most %d clients, %d descriptors", L.max, L.table); std::vector<int> ballast; int closed = 0, conns = 0;
	for (size_t i = 0, n = 5 + g.u(40); i < n; ++i) switch (g.u(8))
	{
	case 0: case 1: case 2: for (size_t k = 0, m = 1 + g.u(L.bad ? 6 : crowd ? 300 : 40); k < m && ps.size() < (crowd ? 700 : 250); ++k) { ps.emplace_back(new Peer); if (!ps.back()->dial(ip, port, 0)) g.fail("connecting fails"); } g.note("%zu clients connected so far", ps.size()); break;
	case 3: case 4: L.step(); break;
	case 5: { size_t k = 0, m = g.u(crowd ? 300 : 30); for (auto &p : ps) if (!p->closed && k < m && g.chance(1, 2)) { p->close(false); ++k; ++closed; } g.note("%zu clients leave", k); break; }
	case 6: if (L.bad) { size_t m = g.u(30); for (size_t k = 0; k < m; ++k) { int b = open("/dev/null", O_RDONLY); if (b < L.table + 5) ballast.push_back(b); else close(b); } g.note("%zu other files are open", ballast.size()); } break;
	default: if (L.bad) { if (g.b() && !ballast.empty()) { for (int b : ballast) close(b); ballast.clear(); g.note("the other files are closed"); } else { int r = M().connect(cl, ip, fp, &L); g.note("connect out: %d", r); PBT_CHECK(g, r < L.table, "connect returns descriptor %d, beyond the table of %d", r, L.table); if (r >= 0) ++conns; } }
	}
	for (int i = 0; i < 4; ++i) L.step();
	for (int b : ballast) close(b);
	// those that are open answer, those that are refused are closed
	uint64_t t0 = nowMs(); int ok = 0, eof = 0; for (auto &p : ps) if (!p->closed) { p->say("hello"); p->push(5); }
	for (;;) { L.step(); ok = eof = 0; int all = 0; for (auto &p : ps) if (!p->closed) { ++all; p->read(100); if (p->rcvd == "hello") ++ok; else if (p->eof) ++eof; } if (ok + eof == all) break; if (nowMs() - t0 > 4000) g.fail("of %d clients %d are answered and %d refused", all, ok, eof); usleep(100); }
	PBT_CHECK(g, ok == L.live, "%d clients are answered, %d connections are open", ok, L.live);
	if (L.bad) PBT_CHECK(g, L.live + conns <= L.table, "%d and %d connections in a table of %d", L.live, conns, L.table);
	else { int free = L.max - L.live; L.bad = false; for (int i = 0; i < free; ++i) { ps.emplace_back(new Peer); ps.back()->dial(ip, port, 0); } for (int i = 0; i < 4; ++i) L.step(); PBT_CHECK(g, L.live == L.max, "only %d of %d clients are accepted", L.live, L.max); }
	if (g.chance(1, 2)) { PBT_CHECK(g, M().rmSrv(id) == 0, "rmSrv: %s", M().getErrMsg()); for (auto &p : ps) p->read(1 << 20); for (auto &p : ps) { uint64_t t0 = nowMs(); while (!p->closed && !p->eof) { if (nowMs() - t0 > 2000) g.fail("the service is removed, its client on descriptor %d of the process stays connected", p->fd); p->read(1 << 20); usleep(50); } } Peer late; PBT_CHECK(g, !late.dial(ip, port, 0), "a removed service accepts connections"); L.step(); g.label("service removed"); }
	g.labelIf(L.refused, "connections refused"); g.labelIf(L.bad, "short table"); if (L.refused && L.accepted) g.nontrivial();
}
// system calls of the event loop that fail: the connection they are for ends, the others go on
static void faults(G &g)
{
	static Lim L; L.g = &g; struct F : lce::CProcessor { G *g; std::map<uint16_t, int> st; std::vector<lce::StSession> open; size_t errs; int max = 0;
		void onConnect(lce::StSession &s, bool ok, void *) { g->note(" onConnect %d port %d", s.iFd, s.getPort()); st[s.getPort()] = 1; }
		void onRead(lce::StSession &s, const char *d, const int n) { PBT_CHECK(*g, st[s.getPort()] == 1, "a message on a connection that failed"); std::string r(d, n); int x = M().write(s, d, n, false); g->note(" onRead %d bytes: %d", n, x); if (x) st[s.getPort()] = 3; }
		void onClose(lce::StSession &s) { g->note(" onClose port %d", s.getPort()); PBT_CHECK(*g, st[s.getPort()] != 2, "the end of a connection that failed is reported again"); st[s.getPort()] = 2; }
		void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; g->note(" onError port %d: %d %s", s.getPort(), e, m); PBT_CHECK(*g, e == lce::ERR_SOCKET, "error %d: %s", e, m); PBT_CHECK(*g, st[s.getPort()] == 1, "error on a connection that is not open"); st[s.getPort()] = 2; ++errs; }
		void onMessage(int, void *) { M().stop(); } };
	static F f; f.g = &g; f.errs = 0; int max = g.range(60, 70); char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); PBT_CHECK(g, M().init(max) == 0, "init");
	int id = M().createSrv(lce::SRV_TCP, ip, 0); PBT_CHECK(g, id >= 0, "createSrv"); M().setProcessor(id, &f, 4); std::vector<int> known; int lfd = nm::findSocket(SOCK_STREAM, known); uint16_t port = nm::localPort(lfd);
	static bool on; static G *G0; on = true; G0 = &g; static int injected; injected = 0; static unsigned rate; rate = g.pick<unsigned>({2, 4, 20});
	nm::g_ctl = [](int op, int fd) { if (on && op != EPOLL_CTL_DEL && G0->chance(1, rate)) { ++injected; G0->note(" epoll_ctl(%d) for %d fails", op, fd); return G0->pick({ENOMEM, ENOSPC}); } return 0; };
	nm::g_limit = [](int fd, size_t n, bool out) -> long { int t; socklen_t l = sizeof t; if (out && n && on && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && G0->chance(1, 2)) return G0->b() ? -EAGAIN : 1 + (long)G0->u(n); return n; };
	auto step = [&] { M().sendMessage(1, &f, NULL); M().start(); }; std::vector<std::unique_ptr<Peer>> ps;
	for (size_t i = 0, n = 5 + g.u(60); i < n; ++i) switch (g.u(5))
	{
	case 0: ps.emplace_back(new Peer); if (!ps.back()->dial(ip, port, 0)) g.fail("connecting fails"); g.note("a client connects from port %d", ps.back()->port); break;
	case 1: case 2: if (!ps.empty()) { Peer *p = g.pick(ps).get(); std::string d = g.blob(1 + g.size(300)); p->stream += d; p->push(d.size()); } break;
	default: step();
	}
	for (int i = 0; i < 3; ++i) step();
	on = false;
	// whoever was not told otherwise still gets everything; the others see the end
	uint64_t t0 = nowMs(); for (;;) { step(); bool all = true; for (auto &p : ps) { p->read(1 << 20); PBT_CHECK(g, p->stream.compare(0, p->rcvd.size(), p->rcvd) == 0, "an echo differs"); if (!p->eof && p->rcvd.size() != p->stream.size()) all = false; if (p->eof && f.st[p->port] == 1) g.fail("the connection from port %d ends and nobody is told", p->port); } if (all) break; if (nowMs() - t0 > 3000) for (auto &p : ps) if (!p->eof && p->rcvd.size() != p->stream.size()) g.fail("the client from port %d (state %d) is neither answered nor ended: %zu of %zu bytes", p->port, f.st[p->port], p->rcvd.size(), p->stream.size()); usleep(100); }
	for (auto &p : ps) p->close(false);
	for (int i = 0; i < 4; ++i) { step(); usleep(50); }
	// nothing is left behind: as many clients as the limit allows fit again
	nm::g_limit = nullptr; L.g = &g; ps.clear(); f.st.clear(); for (int i = 0; i < max; ++i) { ps.emplace_back(new Peer); ps.back()->dial(ip, port, 0); ps.back()->say("x"); ps.back()->push(1); }
	t0 = nowMs(); for (;;) { step(); size_t ok = 0; for (auto &p : ps) { p->read(10); ok += p->rcvd == "x"; } if (ok == ps.size()) break; if (nowMs() - t0 > 3000) g.fail("after %d failed calls only %zu of %d clients are served", injected, ok, max); usleep(100); }
	if (injected && f.errs) g.nontrivial();
	g.labelIf(injected, "failed calls");
}
// descriptors are used again and again: whoever kept a session of a connection that is gone neither reaches nor ends the one that has its number now
struct Keep : lce::CProcessor
{
	G *g; std::vector<lce::StSession> dead; std::map<int, std::pair<lce::StSession, Peer *>> live; std::map<uint16_t, Peer *> from; uint64_t ends; int mode; size_t stale, hits;
	void onConnect(lce::StSession &s, bool ok, void *pd) { PBT_CHECK(*g, ok, "a connection fails"); PBT_CHECK(*g, !live.count(s.iFd), "descriptor %d is reported as new while it is in use", s.iFd); Peer *p = pd ? (Peer *)pd : from[s.getPort()]; PBT_CHECK(*g, p, "a connection nobody made"); live[s.iFd] = {s, p}; p->srvFd = s.iFd; p->opens++; int b = 4608; setsockopt(s.iFd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
	void onRead(lce::StSession &s, const char *d, const int n) { PBT_CHECK(*g, live.count(s.iFd), "a message on descriptor %d, which is gone", s.iFd); Peer *p = live[s.iFd].second; std::string m(d, n); if (m == "big") m.assign(30000, 'b'); if (m == "bye") { live.erase(s.iFd); dead.push_back(s); if (mode == 1) M().close(s); else { p->expect += m; PBT_CHECK(*g, M().write(s, m.data(), n, true) == 0, "the last reply is refused"); } } else { p->expect += m; PBT_CHECK(*g, M().write(s, m.data(), m.size(), false) == 0, "the echo is refused: %s", M().getErrMsg()); } }
	void onClose(lce::StSession &s) { PBT_CHECK(*g, live.count(s.iFd), "descriptor %d ends twice", s.iFd); Peer *p = live[s.iFd].second; PBT_CHECK(*g, p->closed || (p->shut && p->rcvd.size() + 20000 > p->expect.size()), "a connection that is in use ends"); live.erase(s.iFd); dead.push_back(s); }
	void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; PBT_CHECK(*g, e == lce::ERR_SOCKET && live.count(s.iFd) && live[s.iFd].second->closed, "error %d: %s", e, m); live.erase(s.iFd); dead.push_back(s); }
	void onMessage(int, void *) { for (lce::StSession t : dead) { std::string d = "stale"; bool used = live.count(t.iFd); hits += used; if (g->b()) { PBT_CHECK(*g, M().write(t, d.data(), d.size(), g->chance(1, 3)) != 0, "a write to a connection that is gone is accepted (descriptor %d%s)", t.iFd, used ? ", which is another connection now" : ""); } else M().close(t); ++stale; } M().stop(); }
	void step(int what) { if (what) M().sendMessage(1, this, NULL); else M().sendMessage(2, &idle, NULL); M().start(); }
	struct Idle : lce::CProcessor { void onMessage(int, void *) { M().stop(); } void onConnect(lce::StSession &, bool, void *) {} void onRead(lce::StSession &, const char *, const int) {} void onClose(lce::StSession &) {} void onError(lce::StSession &, const char *, int) {} } idle;
};
static void reuse(G &g)
{
	static Keep K; K.g = &g; K.ends = K.stale = K.hits = 0; char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); PBT_CHECK(g, M().init(100) == 0, "init");
	int id = M().createSrv(lce::SRV_TCP, ip, 0), cl = M().createClient(); PBT_CHECK(g, id >= 0 && cl >= 0, "createSrv"); M().setProcessor(id, &K, 4); M().setProcessor(cl, &K, 4); uint16_t fp, port; int far = nm::listener(ip, &fp); std::vector<int> known; port = nm::localPort(nm::findSocket(SOCK_STREAM, known));
	size_t n = g.chance(1, 4) ? 250 + g.u(500) : 1 + g.size(200), most = g.range(1, 3); if (g.thorough() && g.chance(1, 200)) n = 65600; int every = g.range(1, 60), out = g.pick({0, 0, 3, 1}); std::vector<std::unique_ptr<Peer>> ps; g.note("%zu connections, at most %zu at a time", n, most); g.labelIf(n > 256, "more than 256 connections"); g.labelIf(out, "outgoing ones too");
	auto echo = [&](Peer *p) { uint64_t t0 = nowMs(); size_t want = p->rcvd.size() + 2; p->stream += "hi"; p->push(2); while (p->rcvd.size() < want) { K.step(0); p->read(100); PBT_CHECK(g, !p->eof, "a connection (descriptor %d) is ended", p->srvFd); if (p->rcvd.size() < want && nowMs() - t0 > 3000) g.fail("a client is not answered"); } PBT_CHECK(g, p->rcvd == p->expect, "a client receives %s instead of %s", quote(p->rcvd).c_str(), quote(p->expect).c_str()); };
	for (size_t i = 0; i < n; ++i)
	{
		ps.emplace_back(new Peer); Peer *p = ps.back().get(); uint64_t t0 = nowMs();
		if (out && g.u(out) == 0) { int fd = M().connect(cl, ip, fp, p); PBT_CHECK(g, fd >= 0, "connect: %s", M().getErrMsg()); while (p->fd < 0) { struct sockaddr_in a; socklen_t l = sizeof a; int c = nm::high((int)syscall(SYS_accept4, far, &a, &l, 0)); if (c >= 0) p->adopt(c); else if (nowMs() - t0 > 3000) g.fail("no connection arrives"); } }
		else { if (!p->dial(ip, port, 4096)) g.fail("connecting fails"); K.from[p->port] = p; }
		while (!p->opens) { K.step(0); if (nowMs() - t0 > 3000) g.fail("a connection is not reported"); }
		if (g.b()) echo(p);
		if (K.dead.size() < 1500 && (g.u(every) == 0 || i + 1 == n)) { K.step(1); for (auto &q : ps) echo(q.get()); }
		while (ps.size() >= most + (i + 1 == n))
		{
			size_t k = g.u(ps.size()); Peer *q = ps[k].get(); K.mode = g.chance(1, 8) ? 4 : g.u(4); size_t before = K.dead.size(); if (K.mode == 4) { q->stream += "big"; q->push(3); q->shutdown(); g.label("half-closed with much to send"); } else if (K.mode >= 2) q->close(q->rcvd.size() == q->expect.size() && K.mode == 3); else { q->stream += "bye"; q->push(3); }
			t0 = nowMs(); while (K.dead.size() == before) { K.step(0); if (K.mode == 4) q->read(100000); if (nowMs() - t0 > 3000) g.fail("the end of a connection is not seen"); } if (K.mode == 4) { q->read(1 << 20); PBT_CHECK(g, q->rcvd == q->expect, "a client that sends no more receives %zu of %zu bytes", q->rcvd.size(), q->expect.size()); } q->close(false); ps.erase(ps.begin() + k);
		}
		if (K.dead.size() >= 1500 && n < 60000) K.dead.erase(K.dead.begin(), K.dead.begin() + 500);
		if (K.dead.size() > 900 && n > 60000) K.dead.erase(K.dead.begin() + 200 + g.u(600));
	}
	if (K.hits) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"history", history, 30000, 500000, "one to fifteen connections in and out, random traffic, replies, closes and faults, single-stepped; non-trivial: four messages, two connections", 15000, F_ISOLATE},
		{"slow", slow, 8000, 120000, "the same with clients that read little and end their streams early, and long replies; non-trivial: as above", 15000, F_ISOLATE},
		{"limits", limits, 3000, 40000, "clients that come and go around the limit, with other files open; non-trivial: some are accepted and some refused", 15000, F_ISOLATE},
		{"faults", faults, 4000, 50000, "failing epoll_ctl calls while clients are served; non-trivial: a connection is ended by one", 15000, F_ISOLATE},
		{"reuse", reuse, 1500, 20000, "one to some hundred connections one after the other, all their sessions kept and used again; non-trivial: a session is used whose descriptor is another connection's now", 60000, F_ISOLATE}};
	return pbtMain(argc, argv, "C26", s);
}
