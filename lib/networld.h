// Model of a TCP server with its peers: what the handlers may be told, and what the peers may receive.
// Needs pbt.h, netmodel.h and the definition of lce::StSession before it.
#ifndef VERIF_NETWORLD_H
#define VERIF_NETWORLD_H
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using nm::Peer; using namespace pbt;
struct Srv { int id, type, pkg, fd; uint16_t port; uint32_t maxR, maxS; bool removed, nofilter; Srv() : nofilter(false) {} };
// a package filter of the program: 'E', three bytes of length, the body
struct Filter : lce::CPackageFilter
{
	int isWholePkg(const char *d, const int n, int &real, int &len)
	{
		if (n <= 0) return -1;
		if (*d != 'E') return -2;
		if (n < 4) return -1;
		real = (unsigned char)d[1] << 16 | (unsigned char)d[2] << 8 | (unsigned char)d[3]; len = real + 4; return n < len ? -1 : 0;
	}
	const char *getRealPkgData(const char *d, const int) { return d + 4; }
};
struct Gone { lce::StSession s; int worker; };
struct NetWorld
{
	int cur; // the event loop that runs
	virtual int xWrite(lce::StSession &s, const char *d, int n, bool bye) = 0;
	virtual int xClose(lce::StSession &s) = 0;
	virtual int xConnect(int id, uint16_t port, void *pData) = 0;
	virtual std::string xErr() = 0;
	virtual int xRemove(int) { return -1; }
	virtual void step() = 0;
	virtual ~NetWorld() {}
	bool canRemove;

	G *g; std::string ip; std::vector<Srv> srv; std::vector<std::unique_ptr<Peer>> peers; Peer *focus; std::map<int, Peer *> byFd; std::map<int, lce::StSession> ses; std::vector<Gone> dead;
	int far; uint16_t farPort; bool fuzz, quiet, stopped, slow; int depth; unsigned limits; uint64_t nMsg, nPart, nBlocked, nStale, nReuse, nHalf; std::string lastErr;
	NetWorld() : cur(0), canRemove(false), g(NULL), focus(NULL), far(-1), farPort(0), fuzz(true), quiet(false), stopped(false), slow(false), depth(0), limits(0), nMsg(0), nPart(0), nBlocked(0), nStale(0), nReuse(0), nHalf(0) {}
	Srv &of(int id) { for (auto &s : srv) if (s.id == id) return s; g->fail("a handler is called for service %d, which does not exist", id); }
	Peer *at(const lce::StSession &s, const char *what)
	{
		auto it = byFd.find(s.iFd); PBT_CHECK(*g, it != byFd.end(), "%s is called for descriptor %d, which is not a connection", what, s.iFd);
		Peer *p = it->second; PBT_CHECK(*g, s.iSvrId == p->srv, "%s: service %d instead of %d", what, s.iSvrId, p->srv);
		PBT_CHECK(*g, ntohs(s.stClientAddr.sin_port) == (p->outbound ? farPort : p->port), "%s on descriptor %d reports port %d, the connection is from %d", what, s.iFd, ntohs(s.stClientAddr.sin_port), p->port);
		return p;
	}
	void drop(Peer *p, bool still = false) { p->live = false; auto it = byFd.find(p->srvFd); if (it != byFd.end() && it->second == p) { byFd.erase(it); if (!still && (p->opens || p->ends_)) dead.push_back(Gone{ses[p->id], p->worker}); } }
	// a closing reply that is out has closed its connection
	void settle() { for (auto &q : peers) if (q->closing && q->live && (q->lost ? fcntl(q->srvFd, F_GETFD) < 0 : q->wire.size() == q->expect.size())) drop(q.get()); }
	void reused(int fd) { if (byFd.count(fd) && byFd[fd]->closing && byFd[fd]->lost) drop(byFd[fd]); }
	std::string payload(const Srv &s, int pkg) { if (slow && g->chance(1, 3)) return std::string(20000 + g->u(20000), (char)('a' + g->u(26))); size_t lim = g->chance(1, 6) ? s.maxS + 100 : 3000; return g->blob(g->chance(1, 12) ? 0 : 1 + g->size(lim)); }
	void reply(Peer *p, const std::string &d, bool bye)
	{
		lce::StSession s = ses[p->id]; Srv &sv = of(p->srv); size_t pend = p->pending(); bool room = pend + d.size() <= sv.maxS; std::string keep = p->tail; p->tail = d;
		bool was = p->closing; if (bye) p->closing = true;
		std::string cp = d; int r = xWrite(s, cp.data(), cp.size(), bye);
		g->note("  write %zu bytes to peer %d%s: %d (%zu pending before)", d.size(), p->id, bye ? ", then close" : "", r, pend);
		if (r == 0) { p->expect += d; p->tail = keep; if (bye) { p->mute = true; g->label("closing reply"); } }
		else
		{
			PBT_CHECK(*g, !room || p->closed || p->reset || p->lost, "a reply of %zu bytes is refused though %zu of %u bytes are pending: %s", d.size(), pend, sv.maxS, xErr().c_str());
			g->label("refused reply"); 
			if (p->wire.size() > p->expect.size()) { p->lost = true; drop(p); g->label("refused after a part was sent"); }
			else if (bye && p->live) { p->closing = was; g->label("refused closing reply"); } // it goes on
		}
		if (p->pending()) ++nBlocked;
	}
	void dial()
	{
		if (peers.size() > 14 || !fuzz) return; std::vector<Srv *> out; for (auto &x : srv) if (x.type == 3 && !x.removed) out.push_back(&x); if (out.empty()) return; Srv *s = out[g->u(out.size())];
		bool refuse = g->chance(1, 5); peers.emplace_back(new Peer); Peer *p = peers.back().get(); p->id = peers.size() - 1; p->pkg = s->pkg; p->outbound = true; p->worker = cur; p->srv = s->id; p->lost = false; p->settled = refuse;
		size_t before = byFd.size(); uint16_t port = refuse ? 1 : farPort; if (refuse) { p->port = 0; }
		int fd = xConnect(s->id, refuse ? 1 : farPort, p); g->note("  connect out as peer %d%s: %d", p->id, refuse ? " where nobody listens" : "", fd); (void)before; (void)port;
		settle(); if (fd < 0) { PBT_CHECK(*g, refuse || p->lost || p->opens, "connect fails: %s", xErr().c_str()); p->settled = true; if (p->opens == 0) p->lost = true; return; }
		if (p->opens == 0) { reused(fd); PBT_CHECK(*g, !byFd.count(fd), "connect returns descriptor %d, which peer %d has", fd, byFd[fd]->id); p->srvFd = fd; p->live = true; byFd[fd] = p; lce::StSession t; t.iFd = fd; t.iSvrId = s->id; ses[p->id] = t; for (auto &d : dead) if (d.s.iFd == fd) ++nReuse; }
		if (!refuse)
		{
			uint16_t lp = nm::localPort(fd); for (uint64_t t0 = nowMs(); p->fd < 0 && p->live && nowMs() - t0 < 3000;)
			{
				struct sockaddr_in a; socklen_t l = sizeof a; int c = (int)syscall(SYS_accept4, far, &a, &l, 0); if (c < 0) { usleep(500); continue; }
				c = nm::high(c); for (auto &q : peers) if (q->outbound && q->fd < 0 && q->srvFd >= 0 && q->live && nm::localPort(q->srvFd) == ntohs(a.sin_port)) { q->adopt(c); c = -1; break; }
				if (c >= 0) ::close(c);
			}
			(void)lp; PBT_CHECK(*g, p->fd >= 0 || !p->live, "the connection to the harness does not arrive");
		}
	}
	// it has ended its stream and still has something to get
	bool half(Peer *q) { return q->live && !q->closing && q->shut && !q->closed && q->pending() && q->sent == q->stream.size(); }
	// something a handler, or the program between two rounds of the loop, does
	void act(Peer *self, lce::StSession *s)
	{
		settle(); if (focus && half(focus) && focus->worker == cur && g->chance(2, 3)) { Peer *q = focus; focus = NULL; g->label("more for a client that sends no more"); for (size_t i = 1 + g->u(3); i && q->live && !q->closing; --i) reply(q, g->blob(1 + g->u(9)), false); return; }
		std::vector<Peer *> l; for (auto &q : peers) if (q->live && !q->closing && q->opens && q->worker == cur) l.push_back(q.get());
		switch (g->u(15))
		{
		case 0: case 1: case 2: case 3: case 4: case 5: if (self && self->live && !self->closing) for (size_t i = 0, n = 1 + g->u(3); i < n; ++i) { if (!self->live || self->closing) break; reply(self, payload(of(self->srv), self->pkg), false); } break;
		case 6: case 7: if (self && self->live && !self->closing && self->sent == self->stream.size() && self->delivered() && !self->bad && !self->big) { reply(self, payload(of(self->srv), self->pkg), true); settle(); } break;
		case 8: if (self && self->live) { g->note("  close peer %d", self->id); lce::StSession t = *s; self->lost = true; drop(self); xClose(t); } break;
		case 9: if (!l.empty()) { Peer *q = g->pick(l); reply(q, payload(of(q->srv), q->pkg), false); g->labelIf(q != self, "write to another connection"); } break;
		case 10: if (!l.empty() && g->chance(1, 2)) { Peer *q = g->pick(l); g->note("  close peer %d", q->id); lce::StSession t = ses[q->id]; q->lost = true; drop(q); xClose(t); } break;
		case 11: if (!dead.empty()) { Gone &o = dead[g->u(dead.size())]; if (o.worker != cur) break; lce::StSession t = o.s; bool used = byFd.count(t.iFd); ++nStale; std::string d = g->blob(1 + g->size(200)); int r = xWrite(t, d.data(), d.size(), g->b()); g->note("  write to a connection that is gone (descriptor %d%s): %d", t.iFd, used ? ", now another one" : "", r); PBT_CHECK(*g, r != 0, "a write to a connection that is gone is accepted (descriptor %d%s)", t.iFd, used ? ", which is another connection now" : ""); g->labelIf(used, "write to a session whose descriptor is used again"); } break;
		case 12: if (!dead.empty()) { Gone &o = dead[g->u(dead.size())]; if (o.worker != cur) break; lce::StSession t = o.s; g->note("  close a connection that is gone (descriptor %d)", t.iFd); xClose(t); } break;
		case 13: dial(); break;
		case 14: for (auto &q : peers) if (q->live && q->closing && !q->lost && q->opens && q->worker == cur) { lce::StSession t = ses[q->id]; std::string d = g->blob(1 + g->size(50)); int r = xWrite(t, d.data(), d.size(), g->b()); g->note("  write to peer %d, which is to close: %d", q->id, r); PBT_CHECK(*g, r != 0, "a reply is accepted after the one that closes the connection"); g->label("write after a closing reply"); break; } break;
		}
	}
	void onConnect(lce::StSession &s, bool ok, void *pData)
	{
		if (quiet) return; settle(); Peer *p = NULL;
		if (of(s.iSvrId).type == 3)
		{
			p = (Peer *)pData; PBT_CHECK(*g, p, "the data given to connect is lost"); PBT_CHECK(*g, p->opens == 0 && p->ends_ == 0, "the connection of peer %d is reported twice", p->id); PBT_CHECK(*g, s.iSvrId == p->srv, "connection reported for service %d instead of %d", s.iSvrId, p->srv);
			if (p->srvFd < 0) { reused(s.iFd); p->srvFd = s.iFd; p->live = true; byFd[s.iFd] = p; g->label("connected at once"); }
			PBT_CHECK(*g, p->srvFd == s.iFd && byFd.count(s.iFd) && byFd[s.iFd] == p && p->live, "connection reported with descriptor %d instead of %d", s.iFd, p->srvFd); PBT_CHECK(*g, ok == !p->settled || (p->closed && !p->settled), "a connection %s is reported as %s", p->settled ? "nobody accepts" : "that was accepted", ok ? "made" : "failed");
			ses[p->id] = s; if (!ok) { p->ends_++; p->lost = true; drop(p); } else { p->opens++; }
		}
		else
		{
			PBT_CHECK(*g, ok, "an accepted connection is reported as failed"); uint16_t port = ntohs(s.stClientAddr.sin_port);
			for (auto &q : peers) if (!q->outbound && q->port == port && q->srv == s.iSvrId && q->opens == 0) p = q.get();
			PBT_CHECK(*g, p, "a connection from port %d is reported, nobody connected from there", port); PBT_CHECK(*g, s.iSvrId == p->srv, "a connection to service %d is reported for %d", p->srv, s.iSvrId);
			reused(s.iFd); PBT_CHECK(*g, !byFd.count(s.iFd), "descriptor %d is reported as a new connection, it still is peer %d", s.iFd, byFd.count(s.iFd) ? byFd[s.iFd]->id : -1); PBT_CHECK(*g, !of(p->srv).removed, "a removed service accepts a connection");
			p->opens = 1; p->live = true; p->worker = cur; p->srvFd = s.iFd; byFd[s.iFd] = p; ses[p->id] = s; for (auto &d : dead) if (d.s.iFd == s.iFd) { ++nReuse; break; }
			int b = g->chance(1, 2) ? 4608 : 65536; setsockopt(s.iFd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b);
		}
		g->note(" onConnect peer %d, descriptor %d, %d", p->id, s.iFd, ok); int one = 1; setsockopt(s.iFd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		if (g->chance(1, 4)) act(ok ? p : NULL, &s);
		if (!ok && g->chance(1, 2)) { xClose(s); if (g->b()) dial(); }
	}
	void onRead(lce::StSession &s, const char *d, const int n)
	{
		if (quiet) return; settle(); Peer *p = at(s, "onRead"); std::string m(d, n); ++nMsg; PBT_CHECK(*g, p->opens == 1, "a message of peer %d comes before its connection is reported", p->id);
		if (p->pkg == 4) { p->rawGot += m; PBT_CHECK(*g, n > 0 && p->rawGot.size() <= p->sent && p->stream.compare(0, p->rawGot.size(), p->rawGot) == 0, "the bytes handed over are not those peer %d sent (%zu handed over, %zu sent)", p->id, p->rawGot.size(), p->sent); }
		else
		{
			PBT_CHECK(*g, p->got < p->msgs.size() && p->ends[p->got] <= p->sent, "peer %d sent %zu messages, another one is handed over: %s", p->id, p->whole(), quote(m, 60).c_str());
			PBT_CHECK(*g, m == p->msgs[p->got], "message %zu of peer %d is handed over as %s instead of %s", p->got, p->id, quote(m, 60).c_str(), quote(p->msgs[p->got], 60).c_str()); ++p->got;
		}
		g->note(" onRead peer %d: %d bytes", p->id, n);
		if (g->chance(1, 8) && !p->closing) { std::string e(d, n); size_t pend = p->pending(); p->tail = e; int r = xWrite(s, d, n, false); g->note("  echo: %d", r); if (r == 0) { p->expect += e; p->tail = ""; } else { PBT_CHECK(*g, pend + n > of(p->srv).maxS || p->closed || p->reset || p->lost, "an echo is refused"); if (p->wire.size() > p->expect.size()) { p->lost = true; drop(p); } } return; }
		act(p, &s); if (g->chance(1, 4)) act(p, &s);
		if (g->chance(1, 60) && fuzz) remove();
	}
	void gone(Peer *p, bool error)
	{
		p->ends_++; PBT_CHECK(*g, p->ends_ == 1, "the end of peer %d is reported %d times", p->id, p->ends_);
		PBT_CHECK(*g, p->shut || p->closed || p->reset || p->lost, "the end of peer %d is reported, it did not end", p->id);
		if (!error && p->shut && !p->closed && !p->reset && !p->lost) { ++nHalf; PBT_CHECK(*g, p->delivered(), "the end of a connection is reported before its messages: %s", p->describe().c_str()); PBT_CHECK(*g, p->pending() == 0, "a connection is ended with %zu accepted bytes not sent: %s", p->pending(), p->describe().c_str()); }
		else p->lost = true;
	}
	void onClose(lce::StSession &s)
	{
		if (quiet) return; settle(); Peer *p = at(s, "onClose"); g->note(" onClose peer %d", p->id); PBT_CHECK(*g, p->opens == 1, "onClose of a connection that was never reported"); gone(p, false); drop(p, true); // still open until the handler returns, or closes it
		if (g->chance(1, 4)) { g->note("  closes it itself"); xClose(s); dead.push_back(Gone{s, p->worker}); if (g->chance(1, 2)) dial(); }
		else { if (g->chance(1, 5)) act(NULL, &s); dead.push_back(Gone{s, p->worker}); }
	}
	void onError(lce::StSession &s, const char *msg, int e)
	{
		if (quiet) return; lastErr = msg;
		if (e == lce::ERR_MAX_CLIENT) { ++limits; g->note(" refused: %s", msg); return; }
		Peer *p = at(s, "onError"); g->note(" onError peer %d: %d %s", p->id, e, msg); if (e == lce::ERR_NOT_READY) return;
		if (e == lce::ERR_INVALID_PACKAGE) { PBT_CHECK(*g, p->bad && p->got == p->msgs.size() && p->sent > (p->ends.empty() ? 0 : p->ends.back()), "a package of peer %d is called invalid: %s", p->id, p->describe().c_str()); p->lost = true; p->ends_++; g->label("invalid package"); }
		else if (e == lce::ERR_NO_BUFFER) { PBT_CHECK(*g, p->big && p->got + 1 == p->msgs.size(), "no buffer for a message of peer %d: %s", p->id, p->describe().c_str()); p->lost = true; p->ends_++; g->label("message over the limit"); }
		else if (e == lce::ERR_PKG_FILTER) { PBT_CHECK(*g, of(p->srv).nofilter && p->sent, "a package filter is missing for service %d", p->srv); p->lost = true; p->ends_++; g->label("no package filter"); }
		else if (e == lce::ERR_SOCKET || e == lce::ERR_OP_EVENT) gone(p, true);
		else g->fail("unexpected error %d: %s", e, msg);
		PBT_CHECK(*g, p->ends_ == 1, "the end of peer %d is reported twice", p->id); drop(p);
		if (g->chance(1, 5)) act(NULL, &s);
	}
	void more(Peer *p)
	{
		Srv &s = of(p->srv);
		if (p->bad || p->big || p->stream.size() > 60000) return;
		if (s.nofilter) { p->bad = true; p->stream += g->blob(1 + g->size(50)); return; }
		for (size_t i = 0, n = 1 + g->u(5); i < n; ++i) { size_t lim = std::min<size_t>(s.maxR - nm::overhead(p->pkg), 30000); size_t len = g->chance(1, 6) ? lim - g->u(std::min<size_t>(lim, 4)) : g->size(std::min<size_t>(lim, 400)); if (p->pkg == 4 && !len) len = 1; if (p->pkg == 3) len = g->chance(1, 3) ? 0 : std::min<size_t>(len, lim); p->say(nm::frame(p->pkg, g->blob(len))); }
		if (p->pkg <= 2 && g->chance(1, 12)) { p->bad = true; p->stream += std::string(1, g->pick({'\0', '\x03', 'x', '\xff'})) + g->blob(g->size(30)); }
		else if ((p->pkg == 2 || p->pkg == 0) && g->chance(1, 12)) { p->big = true; p->say(nm::frame(p->pkg, g->blob(s.maxR - nm::overhead(p->pkg) + 1 + g->size(3000)))); }
	}
	void remove()
	{
		if (!canRemove) return;
		Srv &s = srv[g->u(srv.size())]; if (s.removed || srv.size() < 2 || g->chance(1, 2)) return; g->note("  remove service %d", s.id); s.removed = true; g->label("service removed");
		for (auto &q : peers) if (q->srv == s.id) { q->lost = true; if (q->live) drop(q.get()); }
		PBT_CHECK(*g, xRemove(s.id) == 0, "removing a service fails");
	}
	void newClient()
	{
		Srv &s = srv[g->u(srv.size())]; if (s.type != 1 || s.removed || peers.size() > 14) return;
		peers.emplace_back(new Peer); Peer *p = peers.back().get(); p->id = peers.size() - 1; p->pkg = s.pkg; p->srv = s.id; if (!p->dial(ip, s.port, g->chance(1, 2) ? 4096 : 0)) g->fail("connecting fails");
		g->note("peer %d connects to service %d", p->id, s.id);
	}
	void look(Peer *p)
	{
		std::string may = p->expect; if (p->rcvd.size() > may.size()) may += p->tail;
		PBT_CHECK(*g, p->rcvd.size() <= may.size() && may.compare(0, p->rcvd.size(), p->rcvd) == 0, "peer %d receives bytes that were not sent to it: %s", p->id, p->describe().c_str());
		if (p->rcvd.size() > p->expect.size()) PBT_CHECK(*g, p->lost, "a part of a refused message arrives on a connection that goes on: %s", p->describe().c_str());
	}
	bool done(Peer *p)
	{
		if (p->fd < 0 || p->closed) return !p->live || (p->fd < 0 && false);
		if (p->lost) return p->eof; // whatever arrived is a prefix; it must end
		if (p->closing) return p->eof && p->rcvd == p->expect;
		if (p->shut) return p->eof && p->rcvd == p->expect && p->ends_ == 1 && p->delivered();
		if (p->bad || p->big) return p->eof && p->ends_ == 1;
		return p->opens == 1 && p->delivered() && p->rcvd == p->expect && !p->eof;
	}
	static std::set<int> descriptors() { std::set<int> r; for (int i = 0; i < nm::HIGH; ++i) if (fcntl(i, F_GETFD) >= 0) r.insert(i); return r; }
	// with nothing to do the loop sleeps: no event is reported for a connection
	std::map<int, int> events;
	void idle(const char *phase)
	{
		struct Watch { Watch(NetWorld *w) { nm::g_event = [w](int fd) { ++w->events[fd]; }; } ~Watch() { nm::g_event = nullptr; } } watch(this);
		for (int i = 0; i < 200; ++i) { settle(); events.clear(); for (int k = 0; k < 3; ++k) step(); if (events.empty()) return; for (auto &q : peers) { Peer *p = q.get(); if (p->fd >= 0 && !p->closed) { p->read(1 << 20); look(p); } } usleep(i < 20 ? 50 : 1000); }
		std::string d; for (auto &e : events) d += " " + (byFd.count(e.first) ? byFd[e.first]->describe() : "descriptor " + std::to_string(e.first)); g->fail("%s, but the loop does not sleep: it gets events for%s", phase, d.c_str());
	}
	void finish(const char *phase)
	{
		uint64_t t0 = nowMs(); g->note("-- %s", phase);
		for (;;)
		{
			settle(); bool all = true; for (auto &q : peers) { Peer *p = q.get(); if (p->fd >= 0 && !p->closed) { if (!p->lost) p->push(1 << 20); p->read(1 << 20); look(p); } }
			step();
			for (size_t i = 0; i < peers.size(); ++i) { Peer *p = peers[i].get(); if (p->fd >= 0 && !p->closed) { p->read(1 << 20); look(p); } bool unsent = p->fd >= 0 && p->canSend() && !p->lost; if (unsent || !done(p)) all = false; }
			if (all) break;
			if (nowMs() - t0 > 4000) for (auto &q : peers) if (!done(q.get()) || (q->canSend() && !q->lost)) g->fail("after four seconds of quiet something is missing: %s%s%s", q->describe().c_str(), q->lost ? " lost" : "", q->outbound ? " outbound" : "");
			usleep(100);
		}
		idle(phase);
	}
	// the program does something outside the handlers
	virtual void between() { g->note("between rounds:"); std::vector<Peer *> l; for (auto &q : peers) if (q->live && q->opens && q->worker == cur) l.push_back(q.get()); if (!l.empty()) { Peer *q = g->pick(l); act(q, &ses[q->id]); } }
	void drive(size_t n)
	{
		G &g = *this->g; signal(SIGPIPE, SIG_DFL); std::set<int> before = descriptors();
		nm::g_limit = [this](int fd, size_t n, bool out) -> long { if (!fuzz || !n || !byFd.count(fd)) return n; G &g = *this->g; if (g.chance(1, 4)) { ++nPart; switch (g.u(4)) { case 0: return -EAGAIN; case 1: return -EINTR; default: return n < 2 ? (long)n : (long)(1 + g.size(n - 1)); } } return n; };
		nm::g_sent = [this](int fd, const char *d, long n) { auto it = byFd.find(fd); if (it != byFd.end()) it->second->wire.append(d, n); };
		nm::g_now = [this](int) { return fuzz && this->g->chance(1, 4); };
		for (size_t i = 0; i < n; ++i)
		{
			if (peers.empty() || g.chance(1, 8)) { newClient(); continue; }
			Peer *p = peers[g.u(peers.size())].get();
			if (slow && g.chance(1, 3)) for (auto &q : peers) if (q->live && !q->closing && !q->bad && !q->big && !q->shut && !q->closed && !q->mute && q->pending() > 3000) { q->push(1 << 20); if (q->sent < q->stream.size()) break; g.note("peer %d ends its stream with %zu bytes on the way to it", q->id, q->pending()); q->shutdown(); step(); break; }
			// somebody speaks, then a client that sends no more makes room: the handler of the one finds the other writable
			if (g.chance(1, slow ? 2 : 4)) for (auto &q : peers) if (half(q.get()) && p != q.get() && p->fd >= 0 && p->live) { if (p->sent == p->stream.size() && !p->mute) more(p); p->push(1 << 20); q->read(1 << 20); look(q.get()); g.note("peer %d speaks, peer %d reads", p->id, q->id); focus = q.get(); step(); focus = NULL; break; }
			size_t what = g.u(12); if (slow && what == 3 && g.chance(2, 3)) what = 4; if (slow && what == 5 && g.chance(3, 4)) what = 1;
			switch (what)
			{
			case 0: case 1: case 2: { if (p->fd < 0) break; if (p->sent == p->stream.size() && !p->mute) more(p); size_t k = p->push(g.chance(1, 3) ? 1 + g.size(40) : 1 << 20); g.note("peer %d sends %zu bytes (%zu of %zu)", p->id, k, p->sent, p->stream.size()); break; }
			case 3: { size_t o = p->rcvd.size(); p->read(g.chance(1, 2) ? 1 << 20 : 1 + g.u(5000)); look(p); g.note("peer %d reads %zu bytes", p->id, p->rcvd.size() - o); break; }
			case 4: if (g.chance(1, slow ? 1 : 3) && (!slow || p->pending()) && !p->mute && p->fd >= 0) { g.note("peer %d ends its stream", p->id); p->shutdown(); } break;
			case 5: if (g.chance(1, 4) && p->fd >= 0 && !p->closed) { bool rst = g.b(); g.note("peer %d closes%s", p->id, rst ? " with a reset" : ""); p->close(rst); p->lost = true; } break;
				case 6: if (g.chance(1, 2)) between(); break;
			case 7: if (g.chance(1, 15)) remove(); break;
			default: g.note("round"); step();
			}
		}
		fuzz = false; finish("everything flows");
		for (auto &q : peers) if (q->fd >= 0 && !q->mute) q->shutdown();
		finish("every peer ends its stream");
		settle(); 	for (auto &q : peers) { Peer *p = q.get(); PBT_CHECK(g, !p->live, "a connection stays open: %s", p->describe().c_str()); if (!p->lost && !p->outbound && !p->closing) PBT_CHECK(g, p->opens == 1 && p->ends_ == 1, "peer %d: %d connects, %d ends reported", p->id, p->opens, p->ends_); }
		for (auto &q : peers) if (q->outbound && !q->closed && q->fd >= 0) q->close(false);
		for (int fd : descriptors()) PBT_CHECK(g, before.count(fd), "descriptor %d stays open when every connection is over", fd);
		PBT_CHECK(g, limits == 0, "connections were refused below the limit: %s", lastErr.c_str());
		g.labelIf(nBlocked, "bytes pending after a write"); g.labelIf(nReuse, "descriptor used again"); g.labelIf(nStale, "write to a closed session"); g.labelIf(nHalf, "half-close"); g.labelIf(nPart, "short or failing system calls");
		if (nMsg > 3 && peers.size() > 1) g.nontrivial();
	}
};
#endif
