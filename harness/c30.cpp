// REPO_SRC: src/CTcpConnector.cpp src/CUdpConnector.cpp
// LIBS: -lpthread
// C30: blocking connectors transfer exactly the bytes asked for.
#include "pbt.h"
#include <atomic>
#include <net/if.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <memory>
#include <thread>
#include "netmodel.h"
#include "CTcpConnector.h"
#include "CUdpConnector.h"
using namespace pbt;
// the addresses of the host: none of them is a private one when this is set
static bool noPrivate, slow;
extern "C" int ioctl(int fd, unsigned long req, ...) { va_list v; va_start(v, req); void *p = va_arg(v, void *); va_end(v); if (noPrivate && req == SIOCGIFADDR) { struct ifreq *r = (struct ifreq *)p; struct sockaddr_in *a = (struct sockaddr_in *)&r->ifr_addr; memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); return 0; } return (int)syscall(SYS_ioctl, fd, req, p); }
static std::string myIp(int base = 10) { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", base + getpid() / 62500 % 100, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
static int lowFds() { int n = 0; for (int i = 3; i < nm::HIGH; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
static void room() { struct rlimit r; if (!getrlimit(RLIMIT_NOFILE, &r) && r.rlim_cur < 4096) { r.rlim_cur = std::min<rlim_t>(4096, r.rlim_max); setrlimit(RLIMIT_NOFILE, &r); } }
// what the other end does while the connector is in a call
struct Step { int us; size_t n; };            // wait, then send so many bytes
enum End { STAY, FIN, RST };
struct TWorld
{
	G &g; std::string ip; lce::CTcpConnector *c; int lfd, pfd; uint16_t port; bool up, desync; // up: the connector has a connection, as far as it was told
	std::string S, W, R; size_t pos; bool pshut, prst; std::vector<int> ballast; size_t nRead, nWrite, nFail, nRe; bool everConnected;
	TWorld(G &g_) : g(g_), c(new lce::CTcpConnector), lfd(-1), pfd(-1), port(0), up(false), desync(false), pos(0), pshut(false), prst(false), nRead(0), nWrite(0), nFail(0), nRe(0), everConnected(false) { ip = myIp(); listen(); }
	void listen() { lfd = nm::listener(ip, &port); }
	// the other end of a new connection
	void taken()
	{
		uint64_t t0 = nowMs(); int f = -1; while (f < 0 && nowMs() - t0 < 3000) { f = (int)syscall(SYS_accept4, lfd, NULL, NULL, 0); if (f < 0) usleep(50); } PBT_CHECK(g, f >= 0, "a connection that is reported does not arrive"); pfd = nm::high(f); nm::nonblock(pfd); int one = 1; setsockopt(pfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		S = W = R = ""; pos = 0; pshut = prst = desync = false; up = true; everConnected = true;
	}
	void slurp(size_t max = 1 << 30) { char b[65536]; while (pfd >= 0 && max) { long r = nm::rx(pfd, b, std::min(sizeof b, max)); if (r <= 0) break; R.append(b, r); max -= r; } PBT_CHECK(g, W.compare(0, R.size(), R) == 0 || !flying.empty(), "the other end receives other bytes than were written"); }
	std::string flying;
	// the connector's connection is over: all that it took must arrive, then the end
	void finish()
	{
		if (pfd < 0) return; if (!prst && !pshut) { uint64_t t0 = nowMs(); bool eof = false; char b[65536]; while (!eof && nowMs() - t0 < 3000) { long r = nm::rx(pfd, b, sizeof b); if (r > 0) R.append(b, r); else if (r == 0 || errno != EAGAIN) eof = true; else usleep(50); } PBT_CHECK(g, eof, "the connection is closed, the other end is not told"); PBT_CHECK(g, W.compare(0, R.size(), R) == 0, "the other end received other bytes than were written"); if (pos == S.size() && !desync) PBT_CHECK(g, R.size() == W.size(), "%zu of %zu bytes arrived before the connection was closed", R.size(), W.size()); }
		::close(pfd); pfd = -1; up = false;
	}
	void say(size_t n) { if (pfd < 0 || pshut) return; std::string d = g.blob(n); long r = nm::tx(pfd, d.data(), d.size()); if (r > 0) S.append(d, 0, r); }
	void connect(int where)
	{
		// 0 the listener, 1 nobody, 2 a listener that does not answer
		uint16_t p = port; int full = -1; std::vector<int> fill; if (where == 1) p = 1;
		if (where == 2) { full = nm::high(socket(AF_INET, SOCK_STREAM, 0)); struct sockaddr_in a = nm::addr(ip, 0); bind(full, (struct sockaddr *)&a, sizeof a); ::listen(full, 0); p = nm::localPort(full); for (int i = 0; i < 3; ++i) { int f = nm::high(socket(AF_INET, SOCK_STREAM, 0)); nm::nonblock(f); struct sockaddr_in b = nm::addr(ip, p); syscall(SYS_connect, f, &b, sizeof b); fill.push_back(f); } usleep(300); }
		int ms = where == 2 ? 10 + g.u(30) : 2000; slow = where == 2; uint64_t t0 = nowMs(); bool ok = c->connect(ip, p, ms); uint64_t dt = nowMs() - t0; g.note("connect to %s: %d", where == 0 ? "the listener" : where == 1 ? "a closed port" : "a listener that does not answer", ok); finish(); up = false;
		PBT_CHECK(g, ok == (where == 0), where ? "a connection to %s is reported as made" : "connecting to %s fails: %s", where == 1 ? "a closed port" : where == 2 ? "a listener that does not answer" : "a listener", c->getErrMsg()); PBT_CHECK(g, dt < (uint64_t)ms + 4000, "connecting takes %d ms, the limit is %d", (int)dt, ms);
		if (where == 2) PBT_CHECK(g, dt + 8 >= (uint64_t)ms, "connecting gives up after %d of %d ms", (int)dt, ms); if (ok) taken(); else ++nFail; if (full >= 0) ::close(full); for (int f : fill) ::close(f); lastPort = p; last = where;
	}
	uint16_t lastPort; int last;
	std::vector<Step> script(size_t n) { std::vector<Step> s; size_t late = n > 2 && g.chance(1, 4) ? 1 + g.u(2) : 0; n -= late; while (n) { size_t k = g.chance(1, 3) ? n : 1 + g.u(std::min<size_t>(n, g.pick({1, 10, 1000, 100000}))); if (s.size() > 12) k = n; s.push_back(Step{g.chance(1, 2) ? 0 : (int)g.u(300), k}); n -= k; } if (late) s.push_back(Step{(int)g.u(600), late}); return s; }
	std::thread play(const std::vector<Step> &st, End e, int endUs) // sends what S gets now
	{
		std::string d; size_t n = 0; for (auto &x : st) n += x.n; d = g.blob(n); S += d; int f = pfd; if (e != STAY) pshut = true; if (e == RST) prst = true;
		return std::thread([=] { size_t o = 0; for (auto &x : st) { if (x.us) usleep(x.us); size_t k = 0; while (k < x.n) { long r = nm::tx(f, d.data() + o + k, x.n - k); if (r > 0) k += r; else if (errno == EAGAIN) usleep(20); else return; } o += x.n; } if (e != STAY && endUs) usleep(endUs); if (e == FIN) ::shutdown(f, SHUT_WR); if (e == RST) { struct linger l = {1, 0}; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); int z = open("/dev/null", O_RDONLY); dup2(z, f); ::close(z); } });
	}
	void over() { up = false; } // the connector closed it by itself
	void take(int kind)
	{
		size_t avail = S.size() - pos, n = 1 + (g.chance(1, 6) ? g.edge(1 << 19) : g.chance(1, 4) ? g.u(100000) : g.size(3000)); std::string buf; int r; uint64_t t0; int ms = 2000; std::string why; std::thread th; bool silent = false, plain = true;
		if (!up || desync) { char b[16]; r = kind == 0 ? c->readn(b, 5, 20) : kind == 1 ? c->read(b, 5, 20) : c->read(buf, 20); if (!up) { PBT_CHECK(g, r < 0, "a read without a connection gives %d", r); g.note("read without a connection: %d", r); } else if (r == 0 || (kind == 0 && r >= 0 && r < 5)) over(); return; }
		End e = STAY; size_t more = 0;
		switch (pshut ? 9 : g.u(8))
		{
		case 0: e = FIN; more = g.b() ? 0 : g.u(n + 10); why = "then the other end closes"; break;
		case 1: e = RST; more = g.b() ? 0 : g.u(n + 10); why = "then the other end resets"; break;
		case 2: if (kind == 0 ? true : avail == 0) { silent = true; ms = 5 + g.u(30); more = kind == 0 ? (avail >= n ? 0 : g.u(n - avail)) : 0; why = "and no more"; if (kind == 0 && avail + more >= n) { silent = false; ms = 2000; } } else more = g.u(100); break;
		case 9: break;
		default: more = avail >= n ? g.u(50) : n - avail + (g.b() ? 0 : g.u(200)); if (kind != 0 && !avail && !more) more = 1;
		}
		if (more || e != STAY) { bool was = pshut; if (!was) { th = play(script(more), e, g.u(200)); plain = false; } } (void)plain; size_t total = S.size() - pos; std::string dst(n, '\xEE'); char *heap = new char[n];
		t0 = nowMs(); if (kind == 0) r = c->readn(heap, (int)n, ms); else if (kind == 1) r = c->read(heap, (int)n, ms); else { buf = "old"; r = c->read(buf, ms); } uint64_t dt = nowMs() - t0; if (th.joinable()) th.join(); std::string got = r > 0 ? (kind == 2 ? buf : std::string(heap, std::min<size_t>(r, n))) : ""; delete[] heap;
		if (prst && e == RST) { ::close(pfd); pfd = -1; }
		g.note("%s %zu bytes: %d (%zu there or under way %s)", kind == 0 ? "readn" : kind == 1 ? "read" : "read into a string", kind == 2 ? (size_t)65535 : n, r, total, why.c_str()); PBT_CHECK(g, dt < (uint64_t)ms + 5000, "a read with a limit of %d ms takes %d", ms, (int)dt);
		PBT_CHECK(g, r <= (int)(kind == 2 ? 65535 : n), "a read of %zu bytes gives %d", n, r); if (kind == 2 && r >= 0) PBT_CHECK(g, (int)buf.size() == r, "the string has %zu bytes, the result is %d", buf.size(), r); if (kind == 2 && r < 0) PBT_CHECK(g, buf.empty(), "a failed read leaves %zu bytes in the string", buf.size());
		if (r > 0) PBT_CHECK(g, S.compare(pos, r, got) == 0 && pos + r <= S.size(), "a read of %d bytes gives bytes that are not the next ones", r);
		if (r >= 0) pos += r;
		if (kind == 0 && r >= 0 && (size_t)r < n) { PBT_CHECK(g, pshut, "readn gives %d of %zu bytes, the connection is open", r, n); if (!prst) PBT_CHECK(g, (size_t)r == total, "readn gives %d of %zu bytes, %zu were sent before the end", r, n, total); over(); }
		if (kind == 0 && !prst && total >= n) PBT_CHECK(g, r == (int)n, "readn of %zu bytes gives %d: %s", n, r, c->getErrMsg());
		if (kind != 0 && !prst && total) PBT_CHECK(g, r > 0, "a read gives %d, %zu bytes were sent: %s", r, total, c->getErrMsg());
		if (kind != 0 && r == 0) { PBT_CHECK(g, pshut, "a read gives 0, the connection is open"); over(); }
		if (silent) { PBT_CHECK(g, r < 0, "a read that times out gives %d", r); PBT_CHECK(g, dt + 8 >= (uint64_t)ms, "a read gives up after %d of %d ms", (int)dt, ms); if (kind == 0) desync = total > 0; g.label("read times out"); ++nFail; }
		if (r < 0 && prst) { desync = true; ++nFail; } else if (r < 0) PBT_CHECK(g, silent, "a read of %zu bytes fails: %s", n, c->getErrMsg()); if (r > 0) ++nRead; if (pshut && r <= 0) g.label(prst ? "reset" : "closed");
		g.labelIf(kind == 0 && r == (int)n && n > 1, "exact read");
	}
	void put()
	{
		size_t n = 1 + (g.chance(1, 8) ? g.edge(1 << 20) : g.chance(1, 6) ? g.u(800000) : g.size(4000)); std::string d = g.blob(n); int ms = 2000; bool stuck = up && !pshut && g.chance(1, 10); if (stuck) { ms = 10 + g.u(20); n = 6000000; d = g.blob(1000); while (d.size() < n) d += d; n = d.size(); }
		if (!up) { if (everConnected && last == 0) { } }
		bool re = !up, can = up || (everConnected && last == 0); std::string old = W; std::thread th; flying = d; static std::atomic<bool> stop; stop = false; std::string extra; int f = pfd;
		if (re) { finish(); S = W = R = ""; pos = 0; pshut = prst = desync = false; }
		if (!re && !stuck && f >= 0) th = std::thread([&, f] { char b[65536]; while (!stop) { long r = nm::rx(f, b, sizeof b); if (r > 0) extra.append(b, r); else usleep(30); } });
		if (re && can) th = std::thread([&] { while (!stop && pfd < 0) { int x = (int)syscall(SYS_accept4, lfd, NULL, NULL, 0); if (x >= 0) { x = nm::high(x); nm::nonblock(x); pfd = x; } else usleep(50); } char b[65536]; while (!stop) { long r = nm::rx(pfd, b, sizeof b); if (r > 0) extra.append(b, r); else usleep(30); } });
		std::string copy = d; copy.shrink_to_fit(); uint64_t t0 = nowMs(); int r = c->write(copy.data(), (int)n, ms); uint64_t dt = nowMs() - t0; bool broken = pshut; 
		if (r > 0 && !broken) { uint64_t t1 = nowMs(); while (!stuck && extra.size() + R.size() < (re ? 0 : W.size()) + r && nowMs() - t1 < 3000) usleep(30); } stop = true; if (th.joinable()) th.join(); flying = ""; if (re && pfd >= 0) { up = true; ++nRe; } R += extra;
		g.note("write %zu bytes%s: %d%s", n, re ? " without a connection" : stuck ? " to one that does not read" : "", r, pshut ? " (the other end is gone)" : ""); PBT_CHECK(g, dt < (uint64_t)ms + 5000, "a write with a limit of %d ms takes %d", ms, (int)dt); PBT_CHECK(g, r <= (int)n, "a write of %zu bytes gives %d", n, r);
		if (!can) { PBT_CHECK(g, r < 0, "a write without a connection gives %d", r); ++nFail; return; }
		if (r > 0) { W.append(d, 0, r); ++nWrite; } if (r < 0) { up = false; ++nFail; PBT_CHECK(g, broken || stuck || prst || desync, "a write of %zu bytes fails: %s", n, c->getErrMsg()); }
		if (!broken && !stuck && !desync && !prst) PBT_CHECK(g, r == (int)n, "a write of %zu bytes gives %d, the other end reads", n, r);
		if (!prst) PBT_CHECK(g, W.compare(0, R.size(), R) == 0 || r < 0, "the other end receives other bytes than were written"); if (!broken && !stuck && r > 0) PBT_CHECK(g, R.size() == W.size(), "%zu of %zu bytes arrive", R.size(), W.size());
		if (stuck) { g.label("write to a peer that does not read"); if (r > 0) { uint64_t t1 = nowMs(); while (R.size() < W.size() && nowMs() - t1 < 3000) { slurp(); usleep(20); } PBT_CHECK(g, R == W, "%zu bytes are reported as written, %zu arrive", W.size(), R.size()); } else { slurp0(d); } }
	}
	void slurp0(const std::string &d) { uint64_t t0 = nowMs(); char b[65536]; while (nowMs() - t0 < 1000) { long r = nm::rx(pfd, b, sizeof b); if (r > 0) R.append(b, r); else if (r == 0 || errno != EAGAIN) break; else usleep(50); } std::string all = W + d; PBT_CHECK(g, all.compare(0, R.size(), R) == 0, "the other end receives other bytes than were written"); ::close(pfd); pfd = -1; up = false; }
};
static void stream(G &g)
{
	signal(SIGPIPE, SIG_DFL); room(); TWorld &w = *new TWorld(g); w.last = 0; int base = lowFds();
	if (g.chance(1, 12)) { int b; while ((b = fcntl(0, F_DUPFD, 3)) < 1030) w.ballast.push_back(b); close(b); base = lowFds(); g.note("1030 files are open"); g.label("descriptors above 1023"); }
	static G *G0; G0 = &g; static unsigned now, cut; now = g.u(3); cut = g.u(3); nm::g_now = [](int) { return !slow && (now == 1 || (now == 2 && G0->b())); }; static Rng *cutRng; cutRng = new Rng(g.u(1 << 30));
	nm::g_limit = [](int, size_t n, bool out) -> long { if (!out && cut && n > 1 && cutRng->next() % (cut == 1 ? 2 : 6) == 0) return 1 + cutRng->next() % n; return n; };
	if (g.chance(3, 4)) w.connect(0);
	for (size_t i = 0, n = 3 + g.u(g.thorough() ? 40 : 20); i < n; ++i) switch (g.u(12))
	{
	case 0: w.connect(g.pick({0, 0, 0, 0, 1, 1, 2})); break;
	case 1: case 2: case 3: case 4: w.take(0); break;
	case 5: w.take(1); break;
	case 6: w.take(2); break;
	case 7: if (g.chance(1, 3)) { g.note("close"); w.c->close(); w.up = false; w.finish(); } break;
	case 8: if (w.up && !w.pshut) { size_t k = 1 + g.size(2000); w.say(k); g.note("the other end sends %zu bytes", k); } break;
	default: w.put();
	}
	delete w.c; w.up = false; w.finish(); PBT_CHECK(g, lowFds() == base, "%d descriptors are left open", lowFds() - base); g.labelIf(w.nRe, "reconnected by a write"); g.labelIf(now, "connected at once"); if (w.nRead && w.nWrite) g.nontrivial();
}
// ---- datagrams
static void datagram(G &g)
{
	room(); lce::CUdpConnector *c = new lce::CUdpConnector; struct Far { int fd; uint16_t port; std::string ip; }; std::vector<Far> far; for (int i = 0; i < 2; ++i) { Far f; f.ip = i ? myIp(110) : myIp(); f.fd = nm::high(socket(AF_INET, SOCK_DGRAM, 0)); struct sockaddr_in a = nm::addr(f.ip, 0); if (bind(f.fd, (struct sockaddr *)&a, sizeof a)) _exit(99); f.port = nm::localPort(f.fd); far.push_back(f); }
	noPrivate = g.b(); int base = lowFds(), at = -1; uint16_t my = 0; std::string myAddr; size_t nW = 0, nR = 0; static char b[70000];
	for (size_t i = 0, n = 5 + g.u(g.thorough() ? 60 : 30); i < n; ++i) switch (at < 0 && g.chance(1, 2) ? 0 : g.u(10))
	{
	case 0: { if (at >= 0 && g.chance(1, 2)) break; int w = g.u(2); bool dflt = g.chance(1, 3); bool ok = c->connect(far[w].ip, far[w].port, dflt ? "" : myIp()); g.note("connect to %d%s: %d", w, dflt ? ", no address of its own" : "", ok); PBT_CHECK(g, ok, "connecting fails: %s", c->getErrMsg()); at = w; my = 0; PBT_CHECK(g, lowFds() == base + 1, "%d descriptors are open for one connector", lowFds() - base); g.labelIf(dflt, "no local address given"); break; }
	case 1: case 2: case 3: case 4: // out
	{
		size_t k = g.chance(1, 8) ? 65400 + g.u(300) : g.chance(1, 4) ? 1 + g.u(60000) : 1 + g.size(2000); std::string d = g.blob(k); d.shrink_to_fit(); int r = c->write(d.data(), (int)k); g.note("write %zu bytes: %d", k, r);
		if (at < 0) { PBT_CHECK(g, r < 0, "a write without a connection gives %d", r); break; } if (k > 65507) { PBT_CHECK(g, r < 0, "a datagram of %zu bytes is impossible, the write gives %d", k, r); g.label("too long"); break; }
		PBT_CHECK(g, r == (int)k, "a write of %zu bytes gives %d: %s", k, r, c->getErrMsg()); struct sockaddr_in a; socklen_t l = sizeof a; long x = syscall(SYS_recvfrom, far[at].fd, b, sizeof b, MSG_DONTWAIT, &a, &l); PBT_CHECK(g, x == (long)k && !memcmp(b, d.data(), k), "a datagram of %zu bytes arrives as %ld", k, x); uint16_t p = ntohs(a.sin_port); char t[32]; inet_ntop(AF_INET, &a.sin_addr, t, sizeof t);
		PBT_CHECK(g, !my || (p == my && myAddr == t), "the connector sends from another port than before"); my = p; myAddr = t; x = syscall(SYS_recvfrom, far[at].fd, b, sizeof b, MSG_DONTWAIT, &a, &l); PBT_CHECK(g, x < 0, "a datagram arrives twice"); ++nW; break;
	}
	case 5: case 6: case 7: case 8: // in
	{
		if (at < 0 || !my) { int r = c->read(b, 100, 5); PBT_CHECK(g, r < 0, "a read with nothing sent gives %d", r); break; } size_t m = 1 + g.u(3); std::vector<std::string> ds; size_t sum = 0; for (size_t j = 0; j < m; ++j) { std::string d = g.blob(g.chance(1, 10) ? 65507 : g.chance(1, 4) ? 1 + g.u(60000) : 1 + g.size(2000)); if (sum + d.size() > 100000) break; sum += d.size(); ds.push_back(d); } bool late = g.chance(1, 3); int us = g.u(400);
		auto send = [&] { struct sockaddr_in a = nm::addr(myAddr, my); for (auto &d : ds) syscall(SYS_sendto, far[at].fd, d.data(), d.size(), 0, &a, (long)sizeof a); }; std::thread th; if (late) th = std::thread([&] { usleep(us); send(); }); else send(); std::string fail;
		for (size_t j = 0; j < ds.size(); ++j) { std::string got; int r, k = g.u(3); if (k == 0) r = c->read(got, 2000); else { size_t sz = k == 1 ? ds[j].size() : std::min<size_t>(65536, ds[j].size() + 1 + g.u(100)); char *h = new char[sz]; r = c->read(h, (int)sz, 2000); got.assign(h, r > 0 ? r : 0); delete[] h; } g.note("read: %d of %zu", r, ds[j].size()); PBT_CHECK(g, r == (int)ds[j].size() && got == ds[j], "a datagram of %zu bytes is read as %d (%zu bytes): %s", ds[j].size(), r, got.size(), c->getErrMsg()); ++nR; }
		if (th.joinable()) th.join(); break;
	}
	default: if (g.b()) { int ms = 3 + g.u(15); uint64_t t0 = nowMs(); std::string s = "x"; int r = g.b() ? c->read(s, ms) : c->read(b, 100, ms); uint64_t dt = nowMs() - t0; g.note("read with nothing sent: %d", r); PBT_CHECK(g, r < 0, "a read with nothing sent gives %d", r); PBT_CHECK(g, dt < (uint64_t)ms + 5000, "a read with a limit of %d ms takes %d", ms, (int)dt); if (at >= 0) PBT_CHECK(g, dt + 8 >= (uint64_t)ms, "a read gives up after %d of %d ms", (int)dt, ms); g.label("read times out"); } else if (g.chance(1, 3)) { c->close(); at = -1; my = 0; g.note("close"); PBT_CHECK(g, lowFds() == base, "%d descriptors are left open", lowFds() - base); }
	}
	delete c; PBT_CHECK(g, lowFds() == base, "%d descriptors are left open", lowFds() - base); if (nW && nR) g.nontrivial();
}
// limits of seconds: what comes within them is read, and nothing gives up before they are over
struct Lane { int kind, ms, at; bool quiet; std::string d; int r; std::string got, why; uint64_t dt; bool ready; };
static void lane(Lane &l)
{
	std::string ip = myIp(); l.ready = false; l.r = -2; struct timespec w = {l.at / 1000, l.at % 1000 * 1000000l}; uint64_t t0;
	if (l.kind < 4)
	{
		uint16_t port; int lfd = nm::listener(ip, &port), f = -1; lce::CTcpConnector c; bool ok = c.connect(ip, port, l.ms); l.why = c.getErrMsg(); for (int i = 0; ok && f < 0 && i < 20000; ++i) { f = (int)syscall(SYS_accept4, lfd, NULL, NULL, 0); if (f < 0) usleep(100); } l.ready = f >= 0; if (f < 0) { close(lfd); return; } f = nm::high(f); nm::nonblock(f);
		std::atomic<bool> stop(false); std::string all; std::thread th([&] { if (l.quiet) return; syscall(SYS_nanosleep, &w, NULL); if (l.kind < 3) { size_t o = 0; while (o < l.d.size() && !stop) { long r = nm::tx(f, l.d.data() + o, l.d.size() - o); if (r > 0) o += r; else usleep(50); } } else { char b[65536]; while (!stop || all.size() < (size_t)std::max(l.r, 0)) { long r = nm::rx(f, b, sizeof b); if (r > 0) all.append(b, r); else if (r == 0 || errno != EAGAIN) break; else usleep(50); } } });
		t0 = nowMs(); std::string buf(l.d.size() + 1, 0); if (l.kind == 0) l.r = c.readn(&buf[0], (int)l.d.size(), l.ms); else if (l.kind == 1) l.r = c.read(&buf[0], (int)l.d.size(), l.ms); else if (l.kind == 2) l.r = c.read(buf, l.ms); else { while (l.d.size() < 12000000) l.d += l.d; l.r = c.write(l.d.data(), (int)l.d.size(), l.ms); } l.dt = nowMs() - t0; l.why = c.getErrMsg(); stop = true; th.join(); if (l.kind == 3) l.got = all; else if (l.r > 0) l.got = buf.substr(0, l.r); close(f); close(lfd);
	}
	else
	{
		int f = nm::high(socket(AF_INET, SOCK_DGRAM, 0)); struct sockaddr_in a = nm::addr(ip, 0), b; socklen_t n = sizeof b; char x[16]; bind(f, (struct sockaddr *)&a, sizeof a); lce::CUdpConnector c; if (!c.connect(ip, nm::localPort(f), ip) || c.write("hello", 5) != 5 || syscall(SYS_recvfrom, f, x, sizeof x, MSG_DONTWAIT, &b, &n) != 5) { l.why = c.getErrMsg(); close(f); return; } l.ready = true;
		std::thread th([&] { if (l.quiet) return; syscall(SYS_nanosleep, &w, NULL); syscall(SYS_sendto, f, l.d.data(), l.d.size(), 0, &b, (long)sizeof b); }); t0 = nowMs(); std::string buf(l.d.size() + 1, 0); l.r = l.kind == 4 ? c.read(&buf[0], (int)buf.size(), l.ms) : c.read(buf, l.ms); l.dt = nowMs() - t0; l.why = c.getErrMsg(); th.join(); if (l.r > 0) l.got = buf.substr(0, l.r); close(f);
	}
}
static void late(G &g)
{
	room(); static const char *N[] = {"readn", "read", "read into a string", "write to a peer that does not read", "datagram read", "datagram read into a string"}; std::vector<Lane> ls; signal(SIGPIPE, SIG_DFL);
	for (int k = 0; k < 6; ++k) for (int q = 0; q < 2; ++q) { Lane l; l.kind = k; l.quiet = q; l.ms = q ? 900 + g.u(400) : g.pick({4000, 5000, 8000, 10000, 60000, 100000, 1000000}) + g.u(1000); if (g.chance(1, 6)) l.ms = q ? 1000 : 5000; l.at = 1010 + g.u(200); l.d = g.blob(1 + g.u(1000)); l.dt = 0; ls.push_back(l); }
	{ std::vector<std::thread> th; for (auto &l : ls) th.emplace_back([&l] { lane(l); }); for (auto &t : th) t.join(); }
	for (auto &l : ls)
	{
		g.note("%s, limit %d ms, %s: %d after %d ms", N[l.kind], l.ms, l.quiet ? "nothing comes" : "the other end acts after a second", l.r, (int)l.dt); PBT_CHECK(g, l.ready, "connecting fails: %s", l.why.c_str());
		PBT_CHECK(g, l.dt < (uint64_t)l.ms + 5000, "a %s with a limit of %d ms takes %d", N[l.kind], l.ms, (int)l.dt);
		if (l.quiet) { PBT_CHECK(g, l.kind == 3 ? l.r < (int)l.d.size() : l.r < 0, "a %s that cannot be done gives %d", N[l.kind], l.r); PBT_CHECK(g, l.dt + 8 >= (uint64_t)l.ms, "a %s gives up after %d of %d ms", N[l.kind], (int)l.dt, l.ms); }
		else { PBT_CHECK(g, l.kind == 1 || l.kind == 2 ? l.r > 0 : l.r == (int)l.d.size(), "a %s of %zu bytes with a limit of %d ms gives %d after %d ms, the other end acted after %d: %s", N[l.kind], l.d.size(), l.ms, l.r, (int)l.dt, l.at, l.why.c_str()); PBT_CHECK(g, l.d.compare(0, l.r, l.got) == 0 && (size_t)l.r == l.got.size(), "a %s transfers other bytes", N[l.kind]); }
	}
	g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"stream", stream, 2500, 40000, "exact reads, reads and writes against a peer that sends in pieces, closes, resets, does not answer or does not read; non-trivial: a read and a write that transfer bytes", 30000, F_ISOLATE | F_RACY},
		{"datagram", datagram, 4000, 60000, "datagrams of all sizes both ways, timeouts, several connects; non-trivial: one each way", 30000, F_ISOLATE | F_RACY},
		{"late", late, 12, 200, "every call with a limit of seconds, the other end acting after one, or never; non-trivial: all", 40000, F_ISOLATE | F_RACY}};
	return pbtMain(argc, argv, "C30", s);
}
