// REPO_SRC: src/CCommMgr.cpp src/CEvent.cpp src/Utils.cpp
// LIBS: -lpthread
// C35: signals reach their handler and the system helpers do what they report.
#include "pbt.h"
#include <atomic>
#include <thread>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#undef MAP_FILE
#include "CCommMgr.h"
#include "Utils.h"
using namespace pbt;
typedef std::string S;
static void nap(int us) { struct timespec t = {us / 1000000, us % 1000000 * 1000L}; nanosleep(&t, NULL); }
static bool g_fake; static struct timeval g_tv;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { if (g_fake) { *tv = g_tv; return 0; } struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t *p) noexcept { struct timeval v; gettimeofday(&v, 0); if (p) *p = v.tv_sec; return v.tv_sec; }

// ---- signals
struct Log { int proc, sig; };
static Log g_log[4096]; static std::atomic<int> g_n(0); static int g_nest[128]; static int g_depth;
struct Proc : public lce::CProcessor
{
	int id;
	void onSignal(const int sig) { int i = g_n++; if (i < 4096) { g_log[i].proc = id; g_log[i].sig = sig; } if (sig >= 0 && sig < 128 && g_nest[sig] && g_depth < 3) { ++g_depth; int s = g_nest[sig]; raise(s); --g_depth; } }
};
static std::vector<int> sigs() { std::vector<int> v = {SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGTERM, SIGALRM, SIGCHLD, SIGWINCH, SIGURG, SIGIO, SIGPIPE, SIGPWR, SIGVTALRM, SIGTTIN, SIGTTOU, SIGTSTP, SIGCONT, SIGXCPU}; for (int i = SIGRTMIN; i <= SIGRTMAX; i += 5) v.push_back(i); v.push_back(SIGRTMAX); return v; }
static const char *send(unsigned how, int s) { switch (how) { case 0: raise(s); return "raise"; case 1: kill(getpid(), s); return "kill"; case 2: pthread_kill(pthread_self(), s); return "pthread_kill"; default: { union sigval v; v.sival_int = 1; sigqueue(getpid(), s, v); return "sigqueue"; } } }
static void signals(G &g)
{
	lce::CCommMgr &m = lce::CCommMgr::getInstance(); m.init(10); Proc p[4]; for (int i = 0; i < 4; ++i) p[i].id = i; std::vector<int> all = sigs(), use; size_t k = 1 + g.u(6); for (size_t i = 0; i < k; ++i) use.push_back(g.pick(all));
	memset(g_nest, 0, sizeof g_nest); g_n = 0; g_depth = 0; std::map<int, int> reg; std::vector<Log> want; size_t again = 0, got = 0;
	std::function<void(int, int)> expect = [&](int s, int depth) { Log l = {reg[s], s}; want.push_back(l); int t = g_nest[s]; if (t && depth < 3) expect(t, depth + 1); };
	for (size_t i = 0, n = 2 + g.size(60); i < n; ++i)
	{
		int s = g.pick(use); unsigned op = g.u(10);
		if (op < 3 || !reg.count(s))
		{
			if (g.chance(1, 8)) { g.note("no handler for %d", s); PBT_CHECK(g, m.addSigHandler(s, NULL) < 0, "no handler at all is taken for signal %d", s); continue; }
			int q = (int)g.u(4); g.note("handler %d for %d", q, s); again += reg.count(s); PBT_CHECK(g, m.addSigHandler(s, &p[q]) == 0, "addSigHandler of %d fails: %s", s, m.getErrMsg()); reg[s] = q;
		}
		// a handler may raise another registered signal, which arrives at once (its own is held back meanwhile)
		else if (op < 4) { int t = 0; if (g.b()) { t = g.pick(use); if (!reg.count(t) || t == s || g_nest[t]) t = 0; for (int x : use) if (g_nest[x] == s) t = 0; } g_nest[s] = t; if (t) g.note("the handler of %d raises %d", s, t); }
		else { int c = g.chance(1, 6) ? 1 + (int)g.u(20) : 1; unsigned how = g.u(4); const char *w = ""; for (; c > 0; --c) { expect(s, 0); w = send(how, s); ++got; } g.note("%s %d", w, s); }
		PBT_CHECK(g, (size_t)g_n == want.size(), "%d signals reached a handler instead of %zu", (int)g_n, want.size());
		for (size_t j = want.size() > 80 ? want.size() - 80 : 0; j < want.size() && j < 4096; ++j) PBT_CHECK(g, g_log[j].sig == want[j].sig && g_log[j].proc == want[j].proc, "signal %d reached handler %d as signal %d instead of handler %d", want[j].sig, g_log[j].proc, g_log[j].sig, want[j].proc);
	}
	if (again && got > 2) g.nontrivial(); g.labelIf(again, "handler replaced");
}
// signals arrive while the event loop serves timers and messages; the last one stops it
struct Loop : public lce::CProcessor
{
	std::vector<int> timers; std::vector<long> msgs; std::atomic<int> sig[128]; int stopSig; Loop() : stopSig(0) { for (auto &x : sig) x = 0; }
	void onTimer(const int id, void *) { timers.push_back(id); }
	void onMessage(const int, void *d) { msgs.push_back((long)d); }
	void onSignal(const int s) { ++sig[s]; if (s == stopSig) lce::CCommMgr::getInstance().stop(); }
};
static void loop(G &g)
{
	lce::CCommMgr &m = lce::CCommMgr::getInstance(); PBT_CHECK(g, m.init(10) == 0, "init fails"); Loop l; std::vector<int> use; for (size_t i = 0, n = 1 + g.u(4); i < n; ++i) use.push_back(SIGRTMIN + 1 + (int)g.u(20)); l.stopSig = g.pick({(int)SIGINT, (int)SIGTERM, (int)SIGUSR1});
	for (int s : use) m.addSigHandler(s, &l); m.addSigHandler(l.stopSig, &l); size_t nt = g.u(20), nm = g.u(200), ns = 1 + g.u(300); int last = 0;
	for (size_t i = 0; i < nt; ++i) { int d = (int)g.u(25); last = std::max(last, d); m.addTimer((int)i, d, &l); }
	g.note("%zu timers, %zu messages, %zu signals", nt, nm, ns); int count[128] = {0}; std::vector<std::pair<int, int> > plan; for (size_t i = 0; i < ns + nm; ++i) plan.push_back(std::make_pair(i < ns ? g.pick(use) : 0, g.chance(1, 5) ? (int)g.u(300) : 0)); g.shuffle(plan); pthread_t self = pthread_self(); bool toLoop = g.b(); std::atomic<int> posted(0), done(0), failed(0);
	for (auto &x : plan) if (x.first) ++count[x.first];
	std::thread t([&] {
		sigset_t ss; sigfillset(&ss); if (toLoop) pthread_sigmask(SIG_BLOCK, &ss, NULL);
		for (auto &x : plan) { if (x.second) nap(x.second); if (x.first) { if (toLoop) { while (pthread_kill(self, x.first) == EAGAIN) nap(50); } else while (sigqueue(getpid(), x.first, sigval()) < 0 && errno == EAGAIN) nap(50); } else { int n = posted++; if (m.sendMessage(1, &l, (void *)(long)n) < 0) ++failed; } }
		nap((last + 30) * 1000); for (int k = 0; k < 20 && (l.timers.size() < nt || l.msgs.size() < nm); ++k) nap(50000);
		done = 1; pthread_kill(self, l.stopSig); });
	uint64_t t0 = nowMs(); m.start(); uint64_t took = nowMs() - t0; bool early = !done; t.join();
	PBT_CHECK(g, !early, "the loop ended after %lu ms before it was told to", (unsigned long)took); PBT_CHECK(g, !failed, "posting fails"); PBT_CHECK(g, l.sig[l.stopSig] == 1, "the last signal reached the handler %d times", (int)l.sig[l.stopSig]);
	for (int s : use) PBT_CHECK(g, l.sig[s] == count[s], "signal %d was sent %d times and reached the handler %d times", s, count[s], (int)l.sig[s]);
	PBT_CHECK(g, l.timers.size() == nt, "%zu of %zu timers fired", l.timers.size(), nt); PBT_CHECK(g, l.msgs.size() == nm, "%zu of %zu messages arrived", l.msgs.size(), nm); for (size_t i = 0; i < nm; ++i) PBT_CHECK(g, l.msgs[i] == (long)i, "message %ld in place of %zu", l.msgs[i], i);
	if (nt && nm && ns > 5) g.nontrivial(); g.label(toLoop ? "to the loop thread" : "to either thread");
}
// ---- sockets
struct Fd { int fd; bool tcp, bound, listening, connected; uint32_t ip; uint16_t port; int peer; };
static S ipOf(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); return b; }
static uint32_t myNet() { return 0x7f000000u | ((uint32_t)getpid() % 65000 + 100) << 8; } // 127.x.y.*: an address range of this process
static bool nameIs(int fd, uint32_t ip, uint16_t port, bool peer) { struct sockaddr_in a; socklen_t n = sizeof a; memset(&a, 0, sizeof a); if ((peer ? getpeername(fd, (sockaddr *)&a, &n) : getsockname(fd, (sockaddr *)&a, &n)) < 0) return false; return a.sin_family == AF_INET && ntohl(a.sin_addr.s_addr) == ip && (port == 0 ? a.sin_port != 0 : ntohs(a.sin_port) == port); }
static int opt(int fd, int lvl, int o) { int v = -1; socklen_t n = sizeof v; if (getsockopt(fd, lvl, o, &v, &n) < 0) return -1; return v; }
static uint16_t portOf(int fd) { struct sockaddr_in a; socklen_t n = sizeof a; memset(&a, 0, sizeof a); getsockname(fd, (sockaddr *)&a, &n); return ntohs(a.sin_port); }
static S pattern(G &g, size_t n) { S s(n, 0); uint64_t x = g.num64() | 1; for (auto &c : s) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = (char)(x >> 56); } return s; }
static bool readable(int fd, int ms) { struct pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, ms) > 0; }
static uint16_t drawPort(G &g) { return (uint16_t)(g.chance(1, 4) ? 0 : 1024 + g.u(64512)); }
// whether the system itself says so, for an address somebody else may hold
static bool refBind(bool tcp, uint32_t ip, uint16_t port) { int f = socket(AF_INET, tcp ? SOCK_STREAM : SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(ip); bool ok = bind(f, (sockaddr *)&a, sizeof a) == 0; close(f); return ok; }
static void sockets(G &g)
{
	std::vector<Fd> v; size_t n = 3 + g.size(60), interesting = 0; int pp[2]; if (pipe(pp) < 0) return; 
	struct Close { std::vector<Fd> &v; int *pp; ~Close() { for (auto &f : v) close(f.fd); close(pp[0]); close(pp[1]); } } cl = {v, pp};
	for (size_t i = 0; i < n; ++i)
	{
		unsigned op = g.u(16); bool none = v.empty();
		if (op < 3 || none)
		{
			if (v.size() > 30) continue; Fd f; memset(&f, 0, sizeof f); f.peer = -1; f.tcp = g.chance(2, 3); f.fd = f.tcp ? lce::CreateTcpSock() : lce::CreateUdpSock(); PBT_CHECK(g, f.fd >= 0, "no socket"); g.note("%s socket %d", f.tcp ? "TCP" : "UDP", f.fd);
			PBT_CHECK(g, opt(f.fd, SOL_SOCKET, SO_TYPE) == (f.tcp ? SOCK_STREAM : SOCK_DGRAM) && opt(f.fd, SOL_SOCKET, SO_DOMAIN) == AF_INET, "a socket of another kind"); PBT_CHECK(g, !(fcntl(f.fd, F_GETFL) & O_NONBLOCK), "a new socket does not block"); v.push_back(f); continue;
		}
		Fd &f = v[g.u(v.size())];
		switch (op)
		{
		case 3: case 4: case 5:
		{
			uint32_t ip = myNet() + 1 + (uint32_t)g.u(3); uint16_t port = drawPort(g); bool bad = g.chance(1, 8); bool taken = false; if (!bad && g.chance(1, 5)) for (auto &o : v) if (o.bound && o.tcp == f.tcp && o.fd != f.fd) { ip = o.ip; port = o.port; } for (auto &o : v) taken |= o.bound && o.tcp == f.tcp && o.ip == ip && o.port == port && port;
			S host = bad ? g.pick({S("not an address"), S("999.1.1.1"), S("203.0.113.77")}) : ipOf(ip); bool had = portOf(f.fd) != 0; int r = lce::Bind(f.fd, host, port); g.note("bind %d to %s:%u -> %d", f.fd, host.c_str(), port, r);
			PBT_CHECK(g, r == 0 || r == -1, "Bind gives %d", r);
			if (had && !bad) { if (r == 0 && !nameIs(f.fd, ip, port, false)) PBT_CHECK(g, false, "Bind reports success but the socket has another address"); break; }
			if (bad) PBT_CHECK(g, r == -1, "Bind reports success for an address that is not here");
			else if (taken) { if (r == 0) PBT_CHECK(g, opt(f.fd, SOL_SOCKET, SO_REUSEADDR) == 1, "Bind reports success for an address in use"); }
			else if (r < 0 && !refBind(f.tcp, ip, port)) g.label("an address of somebody else");
			else PBT_CHECK(g, r == 0, "Bind to %s:%u fails: %s", host.c_str(), port, strerror(errno));
			if (r == 0) { PBT_CHECK(g, nameIs(f.fd, ip, port, false), "Bind to %s:%u reports success but the socket has another address", host.c_str(), port); f.bound = true; f.ip = ip; f.port = portOf(f.fd); ++interesting; }
			break;
		}
		case 6:
		{
			bool dead = g.chance(1, 6); int r = lce::Listen(dead ? pp[0] : f.fd); if (dead) { PBT_CHECK(g, r == -1, "Listen on a pipe gives %d", r); break; } g.note("listen %d -> %d", f.fd, r); bool ok = opt(f.fd, SOL_SOCKET, SO_ACCEPTCONN) == 1;
			PBT_CHECK(g, (r == 0) == ok && (r == 0 || r == -1), "Listen gives %d, but the socket %s", r, ok ? "listens" : "does not listen"); if (!f.tcp || f.connected) PBT_CHECK(g, r == -1, "such a socket listens"); else if (f.bound) { bool dup = false; for (auto &o : v) dup |= o.fd != f.fd && o.listening && o.ip == f.ip && o.port == f.port; PBT_CHECK(g, r == 0 || dup, "Listen fails: %s", strerror(errno)); }
			if (r == 0) { f.listening = true; if (!f.bound) { f.bound = true; f.ip = 0; f.port = portOf(f.fd); } }
			break;
		}
		case 7: case 8: case 9:
		{
			if (f.listening || f.connected) break; Fd *srv = NULL; for (auto &o : v) if (f.tcp ? o.listening : !o.tcp && o.bound && !o.connected) srv = &o; bool refuse = !srv || srv->fd == f.fd || g.chance(1, 4); uint32_t ip = refuse ? myNet() + 9 : srv->ip ? srv->ip : 0x7f000001u; uint16_t port = refuse ? (uint16_t)(1024 + g.u(60000)) : srv->port; bool nb = fcntl(f.fd, F_GETFL) & O_NONBLOCK;
			if (refuse && f.tcp && !refBind(true, ip, port)) { g.label("an address of somebody else"); break; } int r = lce::Connect(f.fd, ipOf(ip), port); int e = errno; g.note("connect %d to %s:%u -> %d", f.fd, ipOf(ip).c_str(), port, r);
			if (!f.tcp) { PBT_CHECK(g, r == 0 && nameIs(f.fd, ip, port, true), "a UDP socket is not connected to %s:%u", ipOf(ip).c_str(), port); f.connected = true; f.bound = true; f.ip = 0; f.port = 0; break; }
			if (refuse) { PBT_CHECK(g, r == -1, "Connect to %s:%u, where nobody listens, gives %d", ipOf(ip).c_str(), port, r); if (nb) { struct pollfd p = {f.fd, POLLOUT, 0}; poll(&p, 1, 2000); } close(f.fd); std::swap(f, v.back()); v.pop_back(); break; }
			if (r < 0 && nb && e == EINPROGRESS) { struct pollfd p = {f.fd, POLLOUT, 0}; PBT_CHECK(g, poll(&p, 1, 5000) > 0 && opt(f.fd, SOL_SOCKET, SO_ERROR) == 0, "a connection to a listening socket fails"); }
			else PBT_CHECK(g, r == 0, "Connect to a listening socket fails: %s", strerror(e));
			PBT_CHECK(g, nameIs(f.fd, ip, port, true), "connected to another address than %s:%u", ipOf(ip).c_str(), port); struct sockaddr_in a; socklen_t al = sizeof a; if (!readable(srv->fd, 3000)) PBT_CHECK(g, false, "the connection does not reach the listening socket"); int c = accept(srv->fd, (sockaddr *)&a, &al); PBT_CHECK(g, c >= 0, "nothing to accept"); f.connected = true; f.bound = true; f.ip = 0; f.port = 0; Fd nf; memset(&nf, 0, sizeof nf); nf.fd = c; nf.tcp = nf.connected = true; nf.bound = true; nf.peer = f.fd; f.peer = c; v.push_back(nf); interesting += 2; break;
		}
		case 10:
		{
			bool dead = g.chance(1, 8); int r = lce::SetNoneBlock(dead ? 1000000 : f.fd); if (dead) { PBT_CHECK(g, r == -1, "SetNoneBlock of no descriptor gives %d", r); break; } PBT_CHECK(g, r == 0 && (fcntl(f.fd, F_GETFL) & O_NONBLOCK), "SetNoneBlock gives %d", r); break;
		}
		case 11:
		{
			int r; if (g.chance(1, 6)) { r = lce::SetReUseAddr(pp[0]); PBT_CHECK(g, r == -1, "SetReUseAddr of a pipe gives %d", r); r = lce::SetNoDelay(pp[1]); PBT_CHECK(g, r == -1, "SetNoDelay of a pipe gives %d", r); break; }
			if (g.b()) { r = lce::SetReUseAddr(f.fd); PBT_CHECK(g, r == 0 && opt(f.fd, SOL_SOCKET, SO_REUSEADDR) == 1, "SetReUseAddr gives %d", r); } else { r = lce::SetNoDelay(f.fd); if (f.tcp) PBT_CHECK(g, r == 0 && opt(f.fd, IPPROTO_TCP, TCP_NODELAY) == 1, "SetNoDelay gives %d", r); else PBT_CHECK(g, r == -1, "SetNoDelay of a UDP socket gives %d", r); } break;
		}
		case 12:
		{
			int o = g.b() ? SO_SNDBUF : SO_RCVBUF; uint32_t z = (uint32_t)g.pick({0u, 1u, 2048u, 65536u, 262144u, 1000000u, 0x7fffffffu, (uint32_t)g.u(1 << 20)}); int ref = socket(AF_INET, f.tcp ? SOCK_STREAM : SOCK_DGRAM, 0); if (ref < 0) break; int rr = setsockopt(ref, SOL_SOCKET, o, &z, sizeof z), want = opt(ref, SOL_SOCKET, o); close(ref); int r = lce::SetSocketBufSize(f.fd, o, z);
			PBT_CHECK(g, (r == 0) == (rr == 0), "SetSocketBufSize of %u gives %d", z, r); if (!f.connected && !f.listening) PBT_CHECK(g, opt(f.fd, SOL_SOCKET, o) == want, "a buffer size of %u leads to %d instead of %d", z, opt(f.fd, SOL_SOCKET, o), want); PBT_CHECK(g, lce::SetSocketBufSize(pp[0], o, z) == -1, "SetSocketBufSize of a pipe succeeds"); break;
		}
		case 13: case 14:
		{
			if (!f.tcp || !f.connected || f.peer < 0)
			{
				if (f.tcp) break; Fd *to = NULL; for (auto &o : v) if (!o.tcp && o.bound && !o.connected && o.fd != f.fd) to = &o; if (!to) break; int so = opt(f.fd, SOL_SOCKET, SO_SNDBUF); if (so < 300000 || opt(to->fd, SOL_SOCKET, SO_RCVBUF) < 200000) break; 
				{ char junk[16]; while (recv(to->fd, junk, sizeof junk, MSG_DONTWAIT | MSG_TRUNC) >= 0) ; }
				size_t z = (size_t)g.pick({(size_t)0, (size_t)1, (size_t)65507, (size_t)65508, (size_t)100000, g.size(70000)}); S d = pattern(g, z); if (f.connected) break; uint32_t ip = to->ip; int r = lce::SendTo(f.fd, d.data(), (int)z, ipOf(ip), to->port); g.note("send %zu bytes to %s:%u -> %d", z, ipOf(ip).c_str(), to->port, r);
				if (z > 65507) { PBT_CHECK(g, r == -1, "a datagram of %zu bytes gives %d", z, r); break; } if (r < 0 && (errno == ENOBUFS || errno == EAGAIN)) break; PBT_CHECK(g, r == (int)z, "a datagram of %zu bytes gives %d: %s", z, r, strerror(errno)); f.bound = true; if (!f.port) f.port = portOf(f.fd);
				S b(70000, 0); struct sockaddr_in a; socklen_t al = sizeof a; PBT_CHECK(g, readable(to->fd, 3000), "the datagram does not arrive"); ssize_t q = recvfrom(to->fd, &b[0], b.size(), 0, (sockaddr *)&a, &al); PBT_CHECK(g, q == (ssize_t)z && !memcmp(b.data(), d.data(), z), "%zd bytes arrive instead of %zu", q, z); PBT_CHECK(g, ntohs(a.sin_port) == portOf(f.fd), "from another port"); ++interesting; break;
			}
			Fd *pe = NULL; for (auto &o : v) if (o.fd == f.peer && o.peer == f.fd) pe = &o;
			size_t z = (size_t)g.pick({(size_t)0, (size_t)1, (size_t)1000, g.size(20000), g.u(1 << 22)}); S d = pattern(g, z); bool nb = fcntl(f.fd, F_GETFL) & O_NONBLOCK; size_t cap = !nb ? 2000 : 1 << 22; if (pe) { int rb = opt(pe->fd, SOL_SOCKET, SO_RCVBUF); if (rb < 100000) cap = std::min(cap, (size_t)rb / 4); } if (z > cap) { z = cap; d.resize(z); } // a small window would take long
			if (!pe) { for (int k = 0; k < 3; ++k) { int r = lce::Send(f.fd, d.data(), (int)d.size()); if (r < 0) break; nap(200); } g.label("sent to a closed peer"); break; } // no SIGPIPE
			int r = lce::Send(f.fd, d.data(), (int)z); g.note("send %zu bytes on %d -> %d", z, f.fd, r); if (r < 0) { PBT_CHECK(g, nb && (errno == EAGAIN || errno == EWOULDBLOCK), "Send fails: %s", strerror(errno)); break; } PBT_CHECK(g, r <= (int)z && (r > 0 || z == 0) && (nb || r == (int)z), "Send of %zu bytes gives %d", z, r);
			S b(r, 0); size_t have = 0; while (have < (size_t)r) { if (!readable(pe->fd, 5000)) break; ssize_t q = recv(pe->fd, &b[have], b.size() - have, 0); if (q <= 0) break; have += q; } PBT_CHECK(g, have == (size_t)r && !memcmp(b.data(), d.data(), r), "%zu of %d bytes arrive as sent", have, r); char c; PBT_CHECK(g, recv(pe->fd, &c, 1, MSG_DONTWAIT) < 0, "more bytes arrive than were sent"); ++interesting; break;
		}
		default:
		{
			int fd = f.fd; g.note("close %d", fd); PBT_CHECK(g, lce::Close(fd) == 0, "Close fails"); PBT_CHECK(g, fcntl(fd, F_GETFD) == -1 && errno == EBADF, "still open after Close"); PBT_CHECK(g, lce::Close(fd) == -1, "Close of a closed descriptor succeeds"); std::swap(f, v.back()); v.pop_back(); break;
		}
		}
	}
	if (interesting > 3) g.nontrivial();
}
// as many connections as somebody who does not accept yet can be asked for
static void backlog(G &g)
{
	long max = 128; if (FILE *f = fopen("/proc/sys/net/core/somaxconn", "r")) { if (fscanf(f, "%ld", &max) != 1) max = 128; fclose(f); }
	size_t n = 1 + g.u(std::min(max, 600L)); int s = lce::CreateTcpSock(); uint32_t ip = myNet() + 77; PBT_CHECK(g, lce::Bind(s, ipOf(ip), 0) == 0 && lce::Listen(s) == 0, "cannot listen"); uint16_t port = portOf(s); std::vector<int> c; g.note("%zu connections before one is accepted, %ld allowed by the system", n, max); size_t ok = 0;
	for (size_t i = 0; i < n; ++i) { int f = lce::CreateTcpSock(); c.push_back(f); lce::SetNoneBlock(f); lce::Connect(f, ipOf(ip), port); } 
	for (int f : c) { struct pollfd p = {f, POLLOUT, 0}; ok += poll(&p, 1, 700) > 0 && opt(f, SOL_SOCKET, SO_ERROR) == 0; if (ok == 0) break; }
	size_t acc = 0; lce::SetNoneBlock(s); while (acc < n) { int a = accept(s, 0, 0); if (a < 0) break; close(a); ++acc; } for (int f : c) close(f); close(s); PBT_CHECK(g, acc == n, "%zu of %zu connections could be made before one was accepted", acc, n); if (n > 60) g.nontrivial();
}
// ---- limits: each in a process of its own, half of them without privileges
static rlim_t drawLim(G &g, bool core) { rlim_t v = (rlim_t)g.pick({(rlim_t)64, (rlim_t)65, (rlim_t)100, (rlim_t)1024, (rlim_t)1025, (rlim_t)4096, (rlim_t)(64 + g.u(5000))}); if (core) { switch (g.u(6)) { case 0: return 0; case 1: return RLIM_INFINITY; case 2: return ((rlim_t)1 << 32) + g.u(5); case 3: return ((rlim_t)1 << 31) - 2 + g.u(5); } } return v; }
static void limits(G &g)
{
	bool core = g.b(), drop = g.b(); int res = core ? RLIMIT_CORE : RLIMIT_NOFILE; struct rlimit was; getrlimit((__rlimit_resource_t)res, &was); struct rlimit st; st.rlim_max = std::min(drawLim(g, core), was.rlim_max); st.rlim_cur = std::min(drawLim(g, core), st.rlim_max); if (g.chance(1, 3)) st.rlim_cur = st.rlim_max; 
	if (setrlimit((__rlimit_resource_t)res, &st) < 0) { g.label("limit not accepted"); return; } if (drop && (setgid(65534) < 0 || setuid(65534) < 0)) drop = false; g.note("%s limit %llu of %llu%s", core ? "core" : "file", (unsigned long long)st.rlim_cur, (unsigned long long)st.rlim_max, drop ? ", unprivileged" : ""); size_t raised = 0;
	for (size_t i = 0, n = 1 + g.u(5); i < n; ++i)
	{
		struct rlimit b, a; getrlimit((__rlimit_resource_t)res, &b); size_t ask = (size_t)drawLim(g, core); if (g.chance(1, 4)) ask = (size_t)b.rlim_max; bool r = core ? lce::SetCoreLimit(ask) : lce::SetFileLimit(ask); getrlimit((__rlimit_resource_t)res, &a); g.note("asked for %zu -> %d, now %llu of %llu", ask, r, (unsigned long long)a.rlim_cur, (unsigned long long)a.rlim_max);
		PBT_CHECK(g, r == (a.rlim_cur >= ask), "asked for %zu it reports %s with a limit of %llu", ask, r ? "success" : "failure", (unsigned long long)a.rlim_cur); PBT_CHECK(g, a.rlim_cur >= b.rlim_cur, "the limit goes down from %llu to %llu", (unsigned long long)b.rlim_cur, (unsigned long long)a.rlim_cur);
		PBT_CHECK(g, a.rlim_max >= b.rlim_max, "asked for %zu the limit can no longer be raised to %llu but only to %llu", ask, (unsigned long long)b.rlim_max, (unsigned long long)a.rlim_max); if (ask <= b.rlim_max) PBT_CHECK(g, r, "a limit of %zu is allowed but not set", ask); raised += a.rlim_cur > b.rlim_cur;
		if (r && !core && ask < 3000) { int hi = dup2(0, (int)ask - 1); PBT_CHECK(g, hi == (int)ask - 1, "descriptor %zu cannot be opened", ask - 1); close(hi); }
	}
	if (raised) g.nontrivial(); g.labelIf(drop, "unprivileged");
}
// ---- text and time
static void text(G &g)
{
	uint32_t ip = g.chance(1, 4) ? (uint32_t)g.pick({0u, 1u, 0x7f000001u, 0x80000000u, 0xffffffffu, 0xff00ff00u}) : (uint32_t)g.num64(); PBT_CHECK(g, lce::InetNtoA(ip) == ipOf(ip), "address %08x is %s", ip, lce::InetNtoA(ip).c_str());
	S s = g.chance(1, 6) ? g.fill(g.size(5000), "ab\x80\xff") : pattern(g, g.size(300)), hex; for (char c : s) { S h = lce::charToHex(c); char w[8]; snprintf(w, sizeof w, "%02X", (unsigned char)c); PBT_CHECK(g, h == w, "%02x is written %s", (unsigned char)c, h.c_str()); PBT_CHECK(g, lce::hexToChar(h[0], h[1]) == c && lce::hexToChar((char)tolower(h[0]), (char)tolower(h[1])) == c, "%s is read %02x", h.c_str(), (unsigned char)lce::hexToChar(h[0], h[1])); }
	// the hash is a function of the bytes alone
	S b = S(g.u(16), 'x') + s + S(g.u(16), 'y'); size_t off = b.find(s); size_t h = lce::Hash(s); std::vector<char> copy(s.begin(), s.end()); PBT_CHECK(g, h == lce::Hash(S(s)) && h == lce::Hash(copy.data(), copy.size()) && h == lce::Hash(b.data() + off, s.size()), "equal strings hash differently"); int i = (int)g.num64(); long l = (long)g.num64(); PBT_CHECK(g, lce::Hash(i) == lce::Hash((char *)&i, sizeof i) && lce::Hash((unsigned)i) == lce::Hash(i) && lce::Hash(l) == lce::Hash((char *)&l, sizeof l) && lce::Hash((unsigned long)l) == lce::Hash(l), "equal numbers hash differently");
	if (!s.empty()) { S t = s; t[g.u(t.size())] ^= 1 + g.u(255); size_t last = t.size() - 1; S t2 = s; t2[last] ^= 1; PBT_CHECK(g, lce::Hash(t2) != h, "the last byte does not count"); (void)t; }
	g_fake = true; g_tv.tv_sec = (time_t)(g.chance(1, 4) ? g.pick({0ULL, 951782399ULL, 951782400ULL, 2147483647ULL, 2147483648ULL, 4294967296ULL, 253402300799ULL}) : g.u(4102444800ULL)); g_tv.tv_usec = (long)(g.chance(1, 3) ? g.pick({0, 999, 1000, 999999}) : (int)g.u(1000000)); uint64_t want = (uint64_t)g_tv.tv_sec * 1000 + g_tv.tv_usec / 1000, t = lce::GetTickCount(); S ts = lce::GetTimeString(); time_t sec = g_tv.tv_sec; g_fake = false; PBT_CHECK(g, t == want, "tick count %llu instead of %llu", (unsigned long long)t, (unsigned long long)want);
	struct tm tm; localtime_r(&sec, &tm); char w[64]; snprintf(w, sizeof w, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); PBT_CHECK(g, ts == w, "the time string is %s instead of %s", ts.c_str(), w); uint64_t q = g.num64(); PBT_CHECK(g, ntohll(htonll(q)) == q, "htonll and ntohll are not inverse"); uint64_t be = htonll(q); unsigned char *pb = (unsigned char *)&be; for (int k = 0; k < 8; ++k) PBT_CHECK(g, pb[k] == (unsigned char)(q >> (56 - 8 * k)), "htonll does not give network byte order"); if (s.size() > 3) g.nontrivial();
}
// ---- daemon
static void daemon(G &g)
{
	int p[2]; if (pipe(p) < 0) return; bool more = g.b(); struct { pid_t pid, sid, old; int bad; } r; memset(&r, 0, sizeof r); pid_t was = getsid(0); if (more) signal(SIGTERM, SIG_DFL); fflush(NULL); pid_t c = fork(); if (c < 0) { close(p[0]); close(p[1]); return; }
	if (c == 0)
	{
		close(p[0]); r.old = getpid(); lce::InitDaemon(); r.pid = getpid(); r.sid = getsid(0); int must[] = {SIGINT, SIGHUP, SIGQUIT, SIGPIPE, SIGTTOU, SIGTTIN, SIGCHLD, SIGTERM, SIGIO}; for (int s : must) { struct sigaction a; sigaction(s, NULL, &a); if (a.sa_handler != SIG_IGN) r.bad = s; }
		if (!r.bad) for (int s : must) raise(s); ssize_t x = write(p[1], &r, sizeof r); (void)x; _exit(0);
	}
	close(p[1]); ssize_t n = readable(p[0], 10000) ? read(p[0], &r, sizeof r) : -1; close(p[0]); int st = 0; waitpid(c, &st, 0); PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the calling process ends with %x", st); PBT_CHECK(g, n == (ssize_t)sizeof r, "nothing goes on in the background"); PBT_CHECK(g, r.pid != r.old && r.sid != was && r.sid != r.pid, "the daemon is process %d of session %d, it was started by %d of session %d", r.pid, r.sid, r.old, was); PBT_CHECK(g, !r.bad, "signal %d is not ignored", r.bad); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"signals", signals, 3000, 30000, "up to 60 registrations, replacements and deliveries of signals by every means, also from inside handlers; non-trivial: a handler replaced and over two signals", 20000, F_ISOLATE},
		{"loop", loop, 600, 8000, "an event loop with timers and messages that gets queued signals all the time and is stopped by one; non-trivial: all three kinds", 30000, F_ISOLATE | F_RACY},
		{"sockets", sockets, 60000, 600000, "up to 60 operations on TCP and UDP sockets through the helpers against the state the system reports; non-trivial: over three effective ones", 20000, 0},
		{"backlog", backlog, 150, 1500, "connections asked for before one is accepted; non-trivial: over 60", 30000, F_SERIAL},
		{"limits", limits, 3000, 30000, "file and core limits asked for one after the other, with and without privileges; non-trivial: one raised", 20000, F_ISOLATE},
		{"text", text, 60000, 1000000, "addresses, hexadecimal digits, hashes, byte order and times against references; non-trivial: over three bytes", 10000, 0},
		{"daemon", daemon, 60, 400, "a process that goes to the background; all non-trivial", 20000, F_ISOLATE}};
	return pbtMain(argc, argv, "C35", s);
}
