// REPO_SRC: src/CCommMgr.cpp src/CEvent.cpp src/Utils.cpp
// C29: datagram servers and outgoing connections.
#include "pbt.h"
#include <deque>
#include <map>
#include <memory>
#include <set>
#include "netmodel.h"
#include "CCommMgr.h"
using namespace pbt; using nm::Peer;
static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }
struct Stop : lce::CProcessor { void onMessage(int, void *) { M().stop(); } }; static Stop stopper;
static void step() { M().sendMessage(1, &stopper, NULL); M().start(); }
static std::string myIp() { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
static std::string ip2() { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 110 + getpid() / 62500 % 100, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
static std::string ipOf(const struct sockaddr_in &a) { char b[32]; inet_ntop(AF_INET, &a.sin_addr, b, sizeof b); return b; }
// ---- datagrams
enum Kind { GOOD, EMPTY, OVER, INVALID, NOFILTER };
struct Gram { int from; std::string data; Kind kind; size_t tail; }; // tail: bytes after the message
struct Reply { std::string data, ip; uint16_t port; };
struct Sender { int fd; std::string ip; uint16_t port; std::deque<Reply> due; size_t got; };
struct Udp { int id, fd, pkg; uint16_t port; std::string ip; uint32_t init, max; bool gone; std::deque<Gram> q; size_t bytes; };
struct Tcp { int id; uint16_t port; uint32_t max; };
struct UWorld : lce::CProcessor
{
	G *g; std::vector<Sender> snd; std::vector<Udp> udp; size_t nRead, nBad, nReply, nOver, nEagain; std::vector<int> known; std::string ip; std::string tcpGot; bool inHandler, beyond;
	UWorld() : nRead(0), nBad(0), nReply(0), nOver(0), nEagain(0), inHandler(false), beyond(false) {}
	Udp *of(int id) { for (auto &u : udp) if (u.id == id) return &u; return NULL; }
	void drain(size_t i)
	{
		Sender &s = snd[i]; static char b[70000]; struct sockaddr_in a; socklen_t l = sizeof a; long r;
		while ((r = syscall(SYS_recvfrom, s.fd, b, sizeof b, MSG_DONTWAIT, &a, &l)) >= 0) { PBT_CHECK(*g, !s.due.empty(), "sender %zu receives a datagram of %ld bytes nobody sent", i, r); Reply &e = s.due.front(); PBT_CHECK(*g, std::string(b, r) == e.data, "sender %zu receives %ld bytes %s instead of %zu", i, r, quote(std::string(b, r), 40).c_str(), e.data.size()); PBT_CHECK(*g, ntohs(a.sin_port) == e.port && ipOf(a) == e.ip, "a reply comes from %s:%d, not from the server %s:%d", ipOf(a).c_str(), ntohs(a.sin_port), e.ip.c_str(), e.port); s.due.pop_front(); ++s.got; l = sizeof a; }
	}
	void sendReply(Udp &u, size_t i)
	{
		size_t n = g->chance(1, 30) ? 65400 + g->u(300) : g->chance(1, 6) ? g->u(20000) : 1 + g->size(2000); std::string d = g->blob(n); std::string cp = d; int r = M().writeTo(u.id, snd[i].ip, snd[i].port, cp.data(), cp.size());
		if (n <= 65507) { PBT_CHECK(*g, r == 0, "a reply of %zu bytes is refused: %s", n, M().getErrMsg()); snd[i].due.push_back(Reply{d, u.ip, u.port}); ++nReply; drain(i); PBT_CHECK(*g, snd[i].due.empty(), "a reply of %zu bytes does not reach sender %zu", n, i); } else PBT_CHECK(*g, r != 0, "a reply of %zu bytes is accepted, no datagram is that long", n);
		g->note("  reply of %zu bytes to sender %zu: %d", n, i, r);
	}
	void onRead(lce::StSession &s, const char *d, const int n)
	{
		if (isTcp(s.iSvrId)) { tcpGot.assign(d, n); M().write(s, d, n, false); return; }
		Udp *u = of(s.iSvrId); PBT_CHECK(*g, u && !u->gone, "a datagram for service %d", s.iSvrId); std::string m(d, n); while (!u->q.empty() && u->q.front().kind == EMPTY) u->q.pop_front();
		PBT_CHECK(*g, !u->q.empty(), "a datagram of %d bytes is handed over, none is under way", n); Gram e = u->q.front(); PBT_CHECK(*g, e.kind == GOOD, "a datagram of %zu bytes that cannot be handed over (%s) gives one of %d bytes", e.data.size(), e.kind == OVER ? "over the limit" : e.kind == INVALID ? "invalid" : "no filter", n);
		e.data.resize(e.data.size() - e.tail); u->bytes -= e.tail; if (e.tail) g->label("bytes after the message"); PBT_CHECK(*g, m == e.data, "a datagram of %zu bytes is handed over as %d bytes: %s", e.data.size(), n, quote(m, 50).c_str()); Sender &x = snd[e.from]; PBT_CHECK(*g, s.getPort() == x.port && ipOf(s.stClientAddr) == x.ip, "the sender is reported as %s:%d, it is %s:%d", ipOf(s.stClientAddr).c_str(), s.getPort(), x.ip.c_str(), x.port);
		u->bytes -= e.data.size(); u->q.pop_front(); ++nRead; g->note(" onRead service %d: %d bytes of sender %d", u->id, n, e.from);
		if (g->chance(1, 2)) { for (size_t k = 0, c = 1 + g->u(2); k < c; ++k) sendReply(*u, e.from); } if (g->chance(1, 8)) sendReply(*u, g->u(snd.size()));
		if (g->chance(1, 10)) { std::string t = g->blob(20); PBT_CHECK(*g, M().write(s, t.data(), t.size(), g->b()) != 0, "a stream write to a datagram session is accepted"); }
		if (g->chance(1, 10)) M().close(s);
		if (g->chance(1, 40)) { g->note("  removes its service"); remove(*u); if (g->b()) add(); }
	}
	void onError(lce::StSession &s, const char *m, int e)
	{
		PBT_CHECK(*g, !isTcp(s.iSvrId), "error %d on the stream service: %s", e, m); Udp *u = of(s.iSvrId); PBT_CHECK(*g, u && !u->gone, "an error for service %d", s.iSvrId); g->note(" onError service %d: %d", u->id, e);
		if (eagain) { eagain = false; PBT_CHECK(*g, e == lce::ERR_SOCKET || e == lce::ERR_NOT_READY, "error %d: %s", e, m); return; }
		if (!u->q.empty() && u->q.front().kind == EMPTY) { bool skip = u->q.size() > 1 && e != lce::ERR_SOCKET && u->q[1].kind != GOOD && u->q[1].kind != EMPTY; (void)skip; u->q.pop_front(); return; }
		PBT_CHECK(*g, !u->q.empty() && u->q.front().kind != GOOD, "error %d for a datagram of %zu bytes: %s", e, u->q.empty() ? 0 : u->q.front().data.size(), m); Gram x = u->q.front(); u->bytes -= x.data.size(); u->q.pop_front(); ++nBad;
		PBT_CHECK(*g, e == (x.kind == OVER ? lce::ERR_NO_BUFFER : x.kind == NOFILTER ? lce::ERR_PKG_FILTER : lce::ERR_INVALID_PACKAGE), "error %d for a datagram %s: %s", e, x.kind == OVER ? "over the limit" : x.kind == INVALID ? "that is invalid" : "without a filter", m);
		PBT_CHECK(*g, s.getPort() == snd[x.from].port && ipOf(s.stClientAddr) == snd[x.from].ip, "an error names another sender");
	}
	void onConnect(lce::StSession &, bool ok, void *) { PBT_CHECK(*g, ok, "a connection fails"); }
	void onClose(lce::StSession &) {}
	std::vector<Tcp> tcp; bool isTcp(int id) { for (auto &t : tcp) if (t.id == id) return true; return false; }
	static bool eagain;
	void add()
	{
		if (udp.size() >= 12) return; Udp u; u.init = g->pick({16, 64, 200, 1000, 10240}) + g->u(50); u.max = std::max<uint32_t>(u.init, g->pick({300, 2000, 10240, 70000, 102400}) + g->u(50)); u.pkg = g->pick({4, 4, 2, 1, 3, 5}); u.ip = g->chance(1, 4) ? ip2() : ip; if (u.pkg == 5 && g->chance(1, 2)) u.pkg = 4;
		uint16_t want = g->b() ? nm::freePort(u.ip, SOCK_DGRAM) : 0; u.id = M().createSrv(lce::SRV_UDP, u.ip, want, u.init, u.max); if (u.id < 0 && beyond) { g->note("a service beyond the table is refused"); return; } PBT_CHECK(*g, u.id >= 0, "createSrv: %s", M().getErrMsg()); PBT_CHECK(*g, M().setProcessor(u.id, this, u.pkg == 5 ? 0 : u.pkg) == 0, "setProcessor"); u.fd = -1; std::vector<int> k; for (auto &x : udp) if (!x.gone) k.push_back(x.fd); u.fd = nm::findSocket(SOCK_DGRAM, k); if (u.fd < 0) _exit(99); u.port = nm::localPort(u.fd); PBT_CHECK(*g, (!want || u.port == want) && nm::localIp(u.fd) == u.ip, "the service for %s:%u receives on %s:%u", u.ip.c_str(), want, nm::localIp(u.fd).c_str(), u.port); u.gone = false; u.bytes = 0; for (auto &x : udp) if (!x.gone && x.ip == u.ip && x.port == u.port) { M().rmSrv(u.id); return; } // the kernel gives a port twice to sockets that may share it
		udp.push_back(u); g->note("datagram service %d: package type %d, receive buffer %u to %u", u.id, u.pkg, u.init, u.max);
	}
	void remove(Udp &u) { u.gone = true; u.q.clear(); PBT_CHECK(*g, M().rmSrv(u.id) == 0, "rmSrv"); }
	void post()
	{
		std::vector<size_t> l; for (size_t i = 0; i < udp.size(); ++i) if (!udp[i].gone) l.push_back(i); if (l.empty()) return; Udp &u = udp[g->pick(l)]; Gram d; d.tail = 0; d.from = g->u(snd.size()); size_t ov = u.pkg == 3 ? 90 : nm::overhead(u.pkg), n; size_t big = std::min<size_t>(u.max, 65507);
		switch (g->u(10)) { case 0: n = u.init + g->u(3); if (n) --n; break; case 1: n = big; break; case 2: n = std::min<size_t>(65507, big + 1 + g->u(50)); break; case 3: n = g->u(big + 1); break; case 4: n = std::min<size_t>(65507, u.init * 2); break; default: n = 1 + g->size(400); }
		if (u.pkg == 3 || u.pkg == 1 || u.pkg == 2) { size_t body = n > ov ? n - ov : 0; if (u.pkg == 1) body = std::min<size_t>(body, 65000); d.data = nm::frame(u.pkg == 3 ? 3 : u.pkg, u.pkg == 3 ? g->text(body, "abc") : g->blob(body)); if (d.data.size() > 65507) return; d.kind = GOOD; } else { d.data = g->blob(n); d.kind = u.pkg == 5 ? NOFILTER : GOOD; }
		if ((u.pkg == 1 || u.pkg == 2) && g->chance(1, 6)) { d.kind = INVALID; switch (g->u(3)) { case 0: d.data[0] = 'x'; break; case 1: d.data = d.data.substr(0, d.data.size() - 1); break; default: d.data[d.data.size() - 1] = 'x'; } if (d.data.empty()) return; }
		else if ((u.pkg == 1 || u.pkg == 2) && g->chance(1, 6)) { d.tail = 1 + g->u(3); d.data += g->blob(d.tail); }
		if (g->chance(1, 25) || d.data.empty()) { d.data = ""; d.tail = 0; d.kind = EMPTY; }
		if (d.data.size() > u.max) d.kind = OVER;
		if (u.bytes + d.data.size() > 66000 || u.q.size() > 60) return;
		struct sockaddr_in a = nm::addr(u.ip, u.port); long r = syscall(SYS_sendto, snd[d.from].fd, d.data.data(), d.data.size(), MSG_DONTWAIT, &a, (long)sizeof a); if (r != (long)d.data.size()) return; if (d.kind == OVER) ++nOver;
		g->note("sender %d: %zu bytes to service %d%s", d.from, d.data.size(), u.id, d.kind == OVER ? ", over the limit" : d.kind == INVALID ? ", invalid" : ""); u.bytes += d.data.size(); u.q.push_back(d);
	}
	// a connection that may get a descriptor a datagram service had
	void stream()
	{
		Tcp &t = tcp[g->u(tcp.size())]; Peer p; p.pkg = 2; if (!p.dial(ip, t.port, 0)) g->fail("connecting fails"); size_t n = g->chance(1, 2) ? t.max : 10 + g->u(t.max - 10); std::string m = nm::frame(2, g->blob(n - 6)); p.stream = m; size_t k = 0; uint64_t t0 = nowMs();
		while (p.rcvd.size() < n && nowMs() - t0 < 3000) { p.push(g->chance(1, 2) ? 1 << 20 : 1 + g->u(500)); step(); p.read(1 << 20); if (p.eof) break; ++k; } PBT_CHECK(*g, p.rcvd == m, "a message of %zu bytes on a connection (limit %u) comes back as %zu bytes%s", n, t.max, p.rcvd.size(), p.eof ? ", it is closed" : ""); p.close(false); step(); g->label("stream connection");
	}
};
bool UWorld::eagain;
static void datagrams(G &g)
{
	UWorld &W = *new UWorld; W.g = &g; W.ip = myIp(); PBT_CHECK(g, M().init(200) == 0, "init"); size_t n = 1 + g.u(3); for (size_t i = 0; i < n; ++i) W.add();
	for (size_t i = 0, k = 1 + g.u(4); i < k; ++i) { Sender s; s.ip = g.b() ? W.ip : ip2(); s.fd = nm::high(socket(AF_INET, SOCK_DGRAM, 0)); struct sockaddr_in a = nm::addr(s.ip, 0); if (bind(s.fd, (struct sockaddr *)&a, sizeof a)) _exit(99); s.port = nm::localPort(s.fd); s.got = 0; W.snd.push_back(s); }
	{ std::vector<int> known; for (int i = 0; i < 2; ++i) { Tcp t; uint32_t init = g.pick({10, 100, 5000}); t.max = std::max<uint32_t>(init, g.pick({120, 900, 30000})); t.id = M().createSrv(lce::SRV_TCP, W.ip, 0, init, t.max, 100, 1 << 20); PBT_CHECK(g, t.id >= 0 && M().setProcessor(t.id, &W, 2) == 0, "createSrv"); int fd = nm::findSocket(SOCK_STREAM, known); known.push_back(fd); t.port = nm::localPort(fd); W.tcp.push_back(t); } }
	static UWorld *w; w = &W; static G *G0; G0 = &g; bool inject = g.chance(1, 3); W.eagain = false;
	if (inject) nm::g_limit = [](int fd, size_t len, bool out) -> long { int t; socklen_t l = sizeof t; if (!out && len && !w->eagain && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_DGRAM && G0->chance(1, 8)) { for (auto &u : w->udp) if (!u.gone && u.fd == fd) { w->eagain = true; ++w->nEagain; return -EAGAIN; } } return len; };
	for (size_t i = 0, k = 10 + g.size(g.thorough() ? 200 : 100); i < k; ++i) switch (g.u(12))
	{
	case 0: case 1: case 2: case 3: case 4: case 5: W.post(); break;
	case 6: if (g.chance(1, 4)) { for (auto &u : W.udp) if (!u.gone) { if (g.chance(1, 3)) { g.note("service %d is removed", u.id); W.remove(u); } break; } } break;
	case 7: if (g.chance(1, 4)) W.add(); else if (g.chance(1, 6)) { std::vector<int> b; for (;;) { int f = fcntl(0, F_DUPFD, 3); b.push_back(f); if (f >= 240) break; } W.beyond = true; g.note("all low descriptors are in use"); W.add(); W.beyond = false; for (int f : b) close(f); g.label("descriptors beyond the table"); } break;
	case 8: if (g.chance(1, 3)) W.stream(); break;
	case 9: { std::vector<size_t> l; for (size_t j = 0; j < W.udp.size(); ++j) if (!W.udp[j].gone) l.push_back(j); if (!l.empty()) W.sendReply(W.udp[g.pick(l)], g.u(W.snd.size())); break; }
	default: step();
	}
	nm::g_limit = NULL; uint64_t t0 = nowMs();
	for (;;) { step(); size_t left = 0; for (auto &u : W.udp) for (auto &d : u.q) left += d.kind != EMPTY; if (!left) break; if (nowMs() - t0 > 3000) for (auto &u : W.udp) if (!u.q.empty()) g.fail("%zu datagrams for service %d are not handed over, the first has %zu bytes", u.q.size(), u.id, u.q.front().data.size()); usleep(50); }
	for (size_t i = 0; i < W.snd.size(); ++i) { W.drain(i); PBT_CHECK(g, W.snd[i].due.empty(), "a reply to sender %zu is lost", i); }
	W.stream(); g.labelIf(W.nBad, "datagrams not handed over"); g.labelIf(W.nOver, "datagrams over the limit"); g.labelIf(W.nReply, "replies"); g.labelIf(W.nEagain, "a read that is not ready"); if (W.nRead > 5 && W.nReply) g.nontrivial();
}
// ---- outgoing connections
struct Conn { int no, where, fd, told, ended; bool ok, closed, open; lce::StSession s; std::unique_ptr<Peer> p; std::string expect; size_t msgs; uint16_t port; bool peerGone, immediate; };
struct Near { int fd; uint16_t port; bool open; };
struct CWorld : lce::CProcessor
{
	G *g; std::string ip; std::vector<std::unique_ptr<Conn>> cs; std::vector<Near> near_; std::vector<int> client; size_t nOk, nFail, nMsg, nEarly; Conn *calling;
	CWorld() : nOk(0), nFail(0), nMsg(0), nEarly(0), calling(NULL) {}
	Conn *at(lce::StSession &s) { Conn *r = NULL; for (auto &c : cs) if (c->open && c->fd == s.iFd) r = c.get(); return r; }
	void start()
	{
		if (cs.size() > 24) return; cs.emplace_back(new Conn); Conn *c = cs.back().get(); c->no = cs.size() - 1; c->told = c->ended = 0; c->ok = c->closed = c->peerGone = c->immediate = false; c->open = false; c->msgs = 0; c->fd = -1; c->where = g->u(near_.size() + 1); c->port = (size_t)c->where < near_.size() ? near_[c->where].port : 1; int id = g->pick(client);
		Conn *keep = calling; calling = c; int r = M().connect(id, ip, c->port, c); calling = keep; g->note("connection %d to %s: %d", c->no, c->port == 1 ? "a closed port" : "a listener", r);
		bool can = c->port != 1 && near_[c->where].open;
		if (r < 0) { PBT_CHECK(*g, !can || c->closed || c->told, "connect fails: %s", M().getErrMsg()); if (!c->told) { c->told = 1; ++nFail; } PBT_CHECK(*g, !c->open || c->closed || c->ended, "connect reports failure after it reported success"); c->open = false; return; }
		if (!c->told) { c->fd = r; c->open = true; } PBT_CHECK(*g, c->fd == r, "connect returns descriptor %d, the handler was told %d", r, c->fd);
	}
	void accept()
	{
		for (auto &l : near_) if (l.open) for (;;) { struct sockaddr_in a; socklen_t n = sizeof a; int f = (int)syscall(SYS_accept4, l.fd, &a, &n, 0); if (f < 0) break; f = nm::high(f); bool used = false; for (auto &c : cs) if (c->open && !c->p && nm::localPort(c->fd) == ntohs(a.sin_port) && c->port == l.port) { c->p.reset(new Peer); c->p->pkg = 2; c->p->adopt(f); used = true; break; } if (!used) ::close(f); }
	}
	void onConnect(lce::StSession &s, bool ok, void *pData)
	{
		bool known = false; for (auto &c : cs) known |= c.get() == pData; PBT_CHECK(*g, known, "the data given to connect is not passed on"); Conn *c = (Conn *)pData; g->note(" onConnect connection %d: %d", c->no, ok);
		PBT_CHECK(*g, !c->told, "the outcome of connection %d is reported twice", c->no); PBT_CHECK(*g, !c->closed, "the outcome of connection %d is reported, it was closed", c->no); c->told = 1; c->ok = ok; c->s = s;
		if (c->fd < 0) { c->fd = s.iFd; c->immediate = true; } PBT_CHECK(*g, c->fd == s.iFd, "connection %d has descriptor %d, %d is reported", c->no, c->fd, s.iFd); PBT_CHECK(*g, s.getPort() == c->port && ipOf(s.stClientAddr) == ip, "connection %d to port %d is reported as to port %d", c->no, c->port, s.getPort());
		bool can = c->port != 1 && (near_[c->where].open || c->p); PBT_CHECK(*g, ok || !can || c->peerGone, "connection %d fails", c->no); PBT_CHECK(*g, !ok || c->port != 1, "a connection to a closed port is reported as made");
		c->open = ok; if (ok) { ++nOk; if (g->chance(1, 2)) say(c); if (g->chance(1, 10)) end(c); } else ++nFail;
		if (g->chance(1, 6)) start();
	}
	void say(Conn *c) { std::string m = nm::frame(2, g->blob(g->size(3000))); std::string cp = m; int r = M().write(c->s, cp.data(), cp.size(), false); g->note("  %zu bytes on connection %d: %d", m.size(), c->no, r); if (r == 0) c->expect += m; else PBT_CHECK(*g, c->peerGone || c->expect.size() > 90000, "a message of %zu bytes is refused: %s", m.size(), M().getErrMsg()); }
	void end(Conn *c) { g->note("  connection %d is closed", c->no); lce::StSession s = c->s; if (!c->told) { s = lce::StSession(); s.iFd = c->fd; } c->closed = true; c->open = false; M().close(s); }
	void onRead(lce::StSession &s, const char *d, const int n)
	{
		Conn *c = at(s); PBT_CHECK(*g, c && c->told && c->ok && !c->closed, "a message on descriptor %d, which is not a connection", s.iFd); Peer *p = c->p.get(); PBT_CHECK(*g, p && c->msgs < p->whole() , "connection %d: a message nobody sent", c->no); PBT_CHECK(*g, std::string(d, n) == p->msgs[c->msgs], "connection %d: message %zu differs", c->no, c->msgs); ++c->msgs; ++nMsg; g->note(" onRead connection %d", c->no);
		if (g->chance(1, 3)) say(c); if (g->chance(1, 30)) end(c); else if (g->chance(1, 12)) start();
	}
	void over(lce::StSession &s, const char *what) { Conn *c = at(s); PBT_CHECK(*g, c && c->told && c->ok, "%s for descriptor %d, which is not a connection", what, s.iFd); PBT_CHECK(*g, c->peerGone, "%s for connection %d, whose other end is open", what, c->no); PBT_CHECK(*g, !c->ended, "the end of connection %d is reported twice", c->no); c->ended = 1; c->open = false; g->note(" %s connection %d", what, c->no); if (g->chance(1, 5)) start(); }
	void onClose(lce::StSession &s) { Conn *c = at(s); if (c && c->p && c->p->shut && !c->p->closed) PBT_CHECK(*g, c->msgs == c->p->msgs.size(), "connection %d ends before its messages are handed over", c->no); over(s, "onClose"); }
	void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; PBT_CHECK(*g, e == lce::ERR_SOCKET || e == lce::ERR_OP_EVENT, "error %d: %s", e, m); over(s, "onError"); }
};
static void outgoing(G &g)
{
	signal(SIGPIPE, SIG_IGN); CWorld &W = *new CWorld; W.g = &g; W.ip = myIp(); PBT_CHECK(g, M().init(200) == 0, "init"); for (size_t i = 0, n = 1 + g.u(3); i < n; ++i) { Near x; x.fd = nm::listener(W.ip, &x.port); x.open = true; W.near_.push_back(x); }
	for (size_t i = 0, n = 1 + g.u(2); i < n; ++i) { int id = M().createClient(100, 4000, 100, 100000); PBT_CHECK(g, id >= 0 && M().setProcessor(id, &W, 2) == 0, "createClient"); W.client.push_back(id); }
	static G *G0; G0 = &g; static unsigned now; now = g.u(3); nm::g_now = [](int) { return now == 1 || (now == 2 && G0->b()); }; int base; { int f = nm::high(fcntl(0, F_DUPFD, 0)); close(f); base = 0; for (int i = 3; i < nm::HIGH; ++i) base += fcntl(i, F_GETFD) >= 0; }
	auto check = [&](Conn *c) { Peer *p = c->p.get(); if (!p || p->closed) return; p->read(1 << 20); PBT_CHECK(g, c->expect.compare(0, p->rcvd.size(), p->rcvd) == 0, "connection %d: the other end receives other bytes", c->no); };
	for (size_t i = 0, n = 25 + g.size(g.thorough() ? 250 : 120); i < n; ++i)
	{
		W.accept(); switch (g.u(12))
		{
		case 0: case 1: W.start(); break;
		case 2: case 3: if (!W.cs.empty()) { std::vector<Conn *> l; for (auto &c : W.cs) if (c->open) l.push_back(c.get()); Conn *c = l.empty() ? W.cs[0].get() : g.pick(l); if (c->p && !c->p->closed && !c->p->shut) { c->p->say(nm::frame(2, g.blob(g.size(2000)))); if (!c->told) ++W.nEarly; } } break;
		case 4: case 5: for (auto &c : W.cs) if (c->p) c->p->push(g.b() ? 1 << 20 : 1 + g.u(300)); break;
		case 6: if (!W.cs.empty()) { Conn *c = g.pick(W.cs).get(); if (c->p && !c->p->closed && g.chance(1, 5)) { g.note("the other end of connection %d leaves", c->no); c->peerGone = true; if (g.b()) c->p->close(g.b()); else { while (c->p->canSend() && c->p->push(1 << 20)); if (c->p->sent == c->p->stream.size()) c->p->shutdown(); else c->p->close(true); } } } break;
		case 7: if (!W.cs.empty()) { Conn *c = g.pick(W.cs).get(); if (c->open && g.chance(1, 4)) W.end(c); else if (c->open && c->told) W.say(c); } break;
		case 8: if (g.chance(1, 12)) for (auto &l : W.near_) if (l.open) { W.accept(); bool pend = false; for (auto &c : W.cs) pend |= c->open && !c->p && c->port == l.port; if (!pend) { ::close(l.fd); l.open = false; g.note("a listener is gone"); } break; } break;
		case 9: for (auto &c : W.cs) if (g.b()) check(c.get()); break;
		default: step();
		}
	}
	W.accept(); uint64_t t0 = nowMs();
	for (;;)
	{
		step(); W.accept(); bool all = true; for (auto &c : W.cs) { Peer *p = c->p.get(); if (p && !p->closed) { p->push(1 << 20); check(c.get()); } if (c->closed) continue; if (!c->told) all = false; else if (c->ok && c->open) { if (c->peerGone || !p || p->canSend() || c->msgs < p->msgs.size() || p->rcvd.size() < c->expect.size()) all = false; } }
		if (all) break;
		if (nowMs() - t0 > 4000) for (auto &c : W.cs) { if (c->closed) continue; Peer *p = c->p.get(); if (!c->told) g.fail("the outcome of connection %d is never reported", c->no); if (c->ok && c->open) { if (c->peerGone) g.fail("the end of connection %d is never reported", c->no); if (!p) g.fail("connection %d does not arrive", c->no); if (c->msgs < p->msgs.size()) g.fail("connection %d: %zu of %zu messages are handed over", c->no, c->msgs, p->msgs.size()); if (p->rcvd.size() < c->expect.size()) g.fail("connection %d: the other end receives %zu of %zu bytes", c->no, p->rcvd.size(), c->expect.size()); } }
		usleep(50);
	}
	for (auto &c : W.cs) if (c->p && !c->p->closed && !c->open && (c->closed || c->ended)) { uint64_t t1 = nowMs(); while (!c->p->eof && nowMs() - t1 < 2000) { c->p->read(1 << 20); usleep(20); } PBT_CHECK(g, c->p->eof, "connection %d is over, its other end is not told", c->no); }
	int open = 0, fds = 0; for (auto &c : W.cs) open += c->open; for (int i = 3; i < nm::HIGH; ++i) fds += fcntl(i, F_GETFD) >= 0; PBT_CHECK(g, fds - base == open, "%d descriptors are in use, %d connections are open", fds - base, open);
	g.labelIf(W.nFail, "connections that fail"); g.labelIf(W.nEarly, "messages before the outcome"); g.labelIf(now, "connections made at once"); if (W.nOk > 2 && W.nMsg > 3) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"datagrams", datagrams, 12000, 200000, "one to three datagram services, several senders, datagrams of all sizes and kinds, replies, services removed and added, stream connections on reused descriptors; non-trivial: more than five datagrams handed over and a reply", 20000, F_ISOLATE},
		{"outgoing", outgoing, 12000, 200000, "outgoing connections to listeners that answer, leave or do not exist, with messages both ways; non-trivial: more than two connections made and three messages", 20000, F_ISOLATE}};
	return pbtMain(argc, argv, "C29", s);
}
