// REPO_SRC: src/CNetWorker.cpp src/CThread.cpp src/CEvent.cpp src/Utils.cpp
// LIBS: -lpthread
// C27: network workers hand over every message and reply exactly once.
// Every event loop runs in its own thread but only when the harness lets it: one round at a time.
#include "pbt.h"
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "netmodel.h"
#include "baton.h"
#include "CNetWorkerMgr.h"
#include "networld.h"
using namespace pbt; using nm::Peer;
static std::string myIp() { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
template <class M> static void launch(M &m, size_t workers) { baton::on = true; std::thread([&m] { m.start(); }).detach(); baton::waitFor(workers + 1); }
struct World;
static World *W; static G *G0;
static Filter g_filter;
struct Worker : lce::CNetWorker
{
	static std::vector<Worker *> all; int idx; std::vector<int> client; static uint32_t iR, iS; static std::vector<int> pkg;
	Worker() { idx = all.size(); all.push_back(this); }
	int init()
	{
		for (size_t i = 0; i < pkg.size(); ++i) client.push_back(createClient(pkg[i], iR, 2000 + 1000 * i, iS, 5000 + 1000 * i));
		for (size_t i = 0; i < pkg.size(); ++i) if (pkg[i] == 0) PBT_CHECK(*G0, setPkgFilter(client[i], NULL) == -1 && setPkgFilter(client[0] + 1000, &g_filter) == -1 && setPkgFilter(client[i], &g_filter) == 0, "setPkgFilter: %s", getErrMsg());
		return 0;
	}
	void onConnect(lce::StSession &s, bool ok, void *p); void onRead(lce::StSession &s, const char *d, const int n); void onClose(lce::StSession &s); void onError(lce::StSession &s, const char *m, int e); void onMessage(int, void *);
};
std::vector<Worker *> Worker::all; uint32_t Worker::iR = 100, Worker::iS = 50; std::vector<int> Worker::pkg;
struct World : NetWorld
{
	std::vector<int> loops;
	int xWrite(lce::StSession &s, const char *d, int n, bool bye) { return Worker::all[cur]->write(s, d, n, bye); }
	int xClose(lce::StSession &s) { return Worker::all[cur]->close(s); }
	int xConnect(int id, uint16_t port, void *p) { return Worker::all[cur]->connect(id, ip, port, p); }
	std::string xErr() { return Worker::all[cur]->getErrMsg(); }
	void step() { if (!fuzz) for (int l : loops) baton::round(l); else for (size_t i = 0, n = 1 + g->u(3); i < n; ++i) { size_t k = g->u(loops.size()); g->note(" loop %zu runs", k); baton::round(loops[k]); } }
	void between() { size_t i = g->u(Worker::all.size()); PBT_CHECK(*g, Worker::all[i]->sendMessage(1, NULL) == 0, "sendMessage"); baton::round(loops[g->chance(1, 2) ? i + 1 : g->u(loops.size())]); }
};
void Worker::onConnect(lce::StSession &s, bool ok, void *p) { W->cur = idx; W->NetWorld::onConnect(s, ok, p); }
void Worker::onRead(lce::StSession &s, const char *d, const int n) { W->cur = idx; W->NetWorld::onRead(s, d, n); }
void Worker::onClose(lce::StSession &s) { W->cur = idx; W->NetWorld::onClose(s); }
void Worker::onError(lce::StSession &s, const char *m, int e) { W->cur = idx; W->NetWorld::onError(s, m, e); }
void Worker::onMessage(int, void *) { W->cur = idx; W->NetWorld::between(); }
static void run(G &g, bool slow)
{
	signal(SIGPIPE, SIG_DFL); static lce::CNetWorkerMgr<Worker> M; W = new World; W->slow = slow; W->g = G0 = &g; W->ip = myIp(); size_t nw = 1 + g.u(3); for (size_t i = 0, n = g.chance(1, 6) ? 4 + g.u(6) : 1 + g.u(3); i < n; ++i) Worker::pkg.push_back(g.pick({2, 2, 0, 1, 4})); Worker::iR = 16 << g.u(6); Worker::iS = 16 << g.u(8);
	PBT_CHECK(g, M.init(nw, 200) == 0, "init: %s", M.getErrMsg()); W->far = nm::listener(W->ip, &W->farPort); std::vector<int> known; M.setErrHandler([](const char *m) { W->lastErr = m; ++W->limits; });
	for (size_t i = 0, n = slow ? 1 : 1 + g.u(2); i < n; ++i)
	{
		Srv s; s.type = 1; s.pkg = g.pick({2, 2, 2, 1, 3, 4, 0}); uint32_t iR = 16 << g.u(8), iS = 16 << g.u(9); s.maxR = std::max<uint32_t>(iR + 100, (uint32_t)g.pick({128, 300, 1000, 5000, 40000})); s.maxS = std::max<uint32_t>(iS, slow ? 200000 : g.pick({100, 3000, 20000, 100000})); s.removed = false;
		uint16_t want = g.b() ? nm::freePort(W->ip, SOCK_STREAM) : 0; s.id = M.createSrv(W->ip, want, s.pkg, iR, s.maxR, iS, s.maxS); PBT_CHECK(g, s.id >= 0, "createSrv: %s", M.getErrMsg());
		if (s.pkg == 0)
		{
			if (g.chance(1, 2)) PBT_CHECK(g, M.setPkgFilter(s.id, NULL) == -1 && M.setPkgFilter(-1, &g_filter) == -1 && M.setPkgFilter(1000, &g_filter) == -1, "setPkgFilter accepts what it cannot use");
			s.nofilter = g.chance(1, 4); if (!s.nofilter) { PBT_CHECK(g, M.setPkgFilter(s.id, &g_filter) == 0, "setPkgFilter: %s", M.getErrMsg()); g.label("own package filter"); }
		}
		s.fd = nm::findSocket(SOCK_STREAM, known); if (s.fd < 0) _exit(99); known.push_back(s.fd); s.port = nm::localPort(s.fd); PBT_CHECK(g, (!want || s.port == want) && nm::localIp(s.fd) == W->ip, "the service for %s:%u listens on %s:%u", W->ip.c_str(), want, nm::localIp(s.fd).c_str(), s.port); W->srv.push_back(s); g.note("service %d: package type %d, receive buffer %u to %u, send buffer %u to %u", s.id, s.pkg, iR, s.maxR, iS, s.maxS);
	}
	for (size_t i = 0; i < Worker::pkg.size(); ++i) { Srv s; s.type = 3; s.pkg = Worker::pkg[i]; s.maxR = 2000 + 1000 * i; s.maxS = std::max<uint32_t>(5000 + 1000 * i, Worker::iS); s.removed = false; s.port = 0; s.id = Worker::all[0]->client[i]; W->srv.push_back(s); }
	launch(M, nw); W->loops = baton::loops(); g.note("%zu workers", nw); g.labelIf(nw > 1, "several workers");
	W->drive(10 + g.size(g.thorough() ? 200 : 90));
}
static void history(G &g) { run(g, false); }
// clients that read little and stop sending while much is on its way to them
static void slow(G &g) { run(g, true); }
// echoes; knows which connections it was told of
struct Echo : lce::CNetWorker
{
	struct St { int opens, ends; bool left; std::string got; }; static std::map<uint64_t, St> st; static int live, max, table; static bool faulty; static uint64_t errs;
	uint64_t key(lce::StSession &s) { return (uint64_t)s.iSvrId << 32 | s.getPort(); }
	void onConnect(lce::StSession &s, bool ok, void *p) { if (p == this) { PBT_CHECK(*G0, s.iSvrId == client && s.iFd < table, "connection %d for service %d", s.iFd, s.iSvrId); return; } St &x = st[key(s)]; G0->note(" onConnect port %d, descriptor %d", s.getPort(), s.iFd); PBT_CHECK(*G0, ok && !x.opens, "the connection from port %d is reported twice", s.getPort()); PBT_CHECK(*G0, s.iFd < table, "descriptor %d is beyond the table of %d", s.iFd, table); x.opens = 1; ++live; PBT_CHECK(*G0, live <= max, "%d connections, the limit is %d", live, max); }
	void onRead(lce::StSession &s, const char *d, const int n) { St &x = st[key(s)]; PBT_CHECK(*G0, x.opens && !x.ends, "a message on a connection that is not open"); x.got.append(d, n); std::string r(d, n); int w = write(s, r.data(), n, false); G0->note(" onRead port %d, %d bytes, echo: %d", s.getPort(), n, w); if (w) { PBT_CHECK(*G0, faulty || x.left, "the echo is refused: %s", getErrMsg()); ++x.ends; --live; if (!faulty) close(s); } }
	void end(lce::StSession &s) { St &x = st[key(s)]; PBT_CHECK(*G0, x.opens && !x.ends, "the end of the connection from port %d is reported %d times", s.getPort(), x.ends + 1); x.ends = 1; --live; }
	void onClose(lce::StSession &s) { G0->note(" onClose port %d", s.getPort()); end(s); }
	void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; G0->note(" onError port %d: %s", s.getPort(), m); PBT_CHECK(*G0, faulty && (e == lce::ERR_OP_EVENT || e == lce::ERR_SOCKET), "error %d: %s", e, m); end(s); ++errs; }
	int client; static std::vector<Echo *> all; static uint16_t far; static int conns, refused; int init() { client = createClient(); all.push_back(this); return 0; }
	void onMessage(int, void *) { int r = connect(client, myIp(), far, this); G0->note(" connect out: %d", r); PBT_CHECK(*G0, r < table, "connect returns descriptor %d, beyond the table of %d", r, table); if (r >= 0) ++conns; else ++refused; }
};
std::vector<Echo *> Echo::all; uint16_t Echo::far; int Echo::conns, Echo::refused;
std::map<uint64_t, Echo::St> Echo::st; int Echo::live, Echo::max, Echo::table; bool Echo::faulty; uint64_t Echo::errs;
static std::vector<int> g_loops;
static void all() { for (int l : g_loops) baton::round(l); }
// a client from a port that was not used before
static bool dial(std::vector<std::unique_ptr<Peer>> &ps, uint16_t port)
{
	static std::set<uint16_t> seen; struct sockaddr_in any = nm::addr(myIp(), 0), to = nm::addr(myIp(), port);
	for (int i = 0; i < 50; ++i) { int s = nm::high(socket(AF_INET, SOCK_STREAM, 0)); if (s < 0 || bind(s, (struct sockaddr *)&any, sizeof any)) { ::close(s); return false; } if (!seen.insert(nm::localPort(s)).second) { ::close(s); continue; } if (syscall(SYS_connect, s, &to, sizeof to)) { ::close(s); return false; } std::unique_ptr<Peer> p(new Peer); p->adopt(s); ps.push_back(std::move(p)); return true; }
	return false;
}
static void some(G &g) { for (size_t i = 0, n = 1 + g.u(3); i < n; ++i) baton::round(g_loops[g.u(g_loops.size())]); }
static void limits(G &g)
{
	static lce::CNetWorkerMgr<Echo> M; G0 = &g; bool crowd = g.chance(1, 6); Echo::max = crowd ? g.range(100, 400) : g.range(25, 60); Echo::table = (uint32_t)((uint32_t)(Echo::max * 1.2f) * 1.2f); static int refused; refused = 0; static int max; max = Echo::max; size_t nw = 1 + g.u(3); bool files = g.chance(1, 3);
	PBT_CHECK(g, M.init(nw, max) == 0, "init"); PBT_CHECK(g, M.createSrv(myIp(), 0, 4) == 0, "createSrv"); std::vector<int> known; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)); nm::listener(myIp(), &Echo::far); nm::g_now = [](int) { return G0->b(); }; launch(M, nw); g_loops = baton::loops();
	M.setErrHandler([](const char *m) { int f = fcntl(0, F_DUPFD, 3); close(f); PBT_CHECK(*G0, f >= max, "a connection is refused though descriptor %d of %d is free: %s", f, max, m); ++refused; });
	std::vector<std::unique_ptr<Peer>> ps; std::vector<int> ballast; g.note("%zu workers, at most %d clients", nw, max);
	for (size_t i = 0, n = 5 + g.u(40); i < n; ++i) switch (g.u(9))
	{
	case 0: case 1: case 2: for (size_t k = 0, m = 1 + g.u(crowd ? 300 : 30); k < m && ps.size() < (crowd ? 700 : 250); ++k) if (!dial(ps, port)) g.fail("connecting fails"); g.note("%zu clients connected so far", ps.size()); break;
	case 3: case 4: some(g); break;
	case 5: { size_t k = 0, m = g.u(crowd ? 300 : 30); for (auto &p : ps) if (!p->closed && k < m && g.chance(1, 2)) { p->close(false); Echo::st[p->port].left = true; ++k; } g.note("%zu clients leave", k); break; }
	case 6: if (!files) break; for (size_t k = 0, m = g.u(30); k < m; ++k) { int b = open("/dev/null", O_RDONLY); if (b < Echo::table + 5) ballast.push_back(b); else close(b); } g.note("%zu other files are open", ballast.size()); break;
	case 7: { Echo *w = Echo::all[g.u(nw)]; if (files) { w->sendMessage(1, NULL); some(g); break; } }
	default: for (auto &p : ps) if (!p->closed && g.chance(1, 4)) { p->say(g.blob(1 + g.size(50))); p->push(1000); }
	}
	all(); all(); for (auto &p : ps) if (!p->closed) { p->say("hello"); p->push(1000); }
	uint64_t t0 = nowMs(); int ok = 0, eof = 0;
	for (;;) { all(); ok = eof = 0; int n = 0; for (auto &p : ps) if (!p->closed) { ++n; p->read(10000); PBT_CHECK(g, p->stream.compare(0, p->rcvd.size(), p->rcvd) == 0, "an echo differs"); if (p->rcvd.size() == p->stream.size()) ++ok; else if (p->eof) ++eof; } if (ok + eof == n) break; if (nowMs() - t0 > 4000) g.fail("of %d clients %d are answered and %d refused", n, ok, eof); usleep(100); }
	int told = 0; for (auto &p : ps) if (Echo::st[p->port].opens && !Echo::st[p->port].ends) ++told;
	PBT_CHECK(g, ok == Echo::live && told == ok, "%d clients are answered, %d connections are open, %d of them of present clients", ok, Echo::live, told);
	for (auto &p : ps) if (!p->closed) { bool opened = Echo::st[p->port].opens; PBT_CHECK(g, opened == (p->rcvd.size() == p->stream.size()), "the connection from port %d was %s but the client was %s", p->port, opened ? "reported" : "not reported", opened ? "refused" : "answered"); }
	for (int b : ballast) close(b); for (auto &p : ps) if (!p->closed) p->close(false);
	for (int i = 0; i < 3; ++i) all();
	PBT_CHECK(g, Echo::live == 0, "%d connections remain", Echo::live); g.labelIf(refused, "connections refused"); g.labelIf(crowd, "hundreds of clients"); g.labelIf(files, "other files are open"); g.labelIf(Echo::conns, "outgoing connections"); g.labelIf(Echo::refused, "outgoing connections refused"); if (refused && ok) g.nontrivial();
}
static void faults(G &g)
{
	static lce::CNetWorkerMgr<Echo> M; G0 = &g; int max = Echo::max = g.range(60, 70); Echo::table = 1000; Echo::faulty = true; size_t nw = 1 + g.u(3); PBT_CHECK(g, M.init(nw, max) == 0, "init"); PBT_CHECK(g, M.createSrv(myIp(), 0, 4) == 0, "createSrv"); std::vector<int> known; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known));
	launch(M, nw); g_loops = baton::loops(); static bool on; on = true; static unsigned rate, injected; rate = g.pick<unsigned>({2, 4, 20}); injected = 0;
	nm::g_ctl = [](int op, int fd) { if (on && op != EPOLL_CTL_DEL && G0->chance(1, rate)) { ++injected; G0->note(" epoll_ctl(%d) for %d fails", op, fd); return G0->pick({ENOMEM, ENOSPC}); } return 0; };
	nm::g_limit = [](int fd, size_t n, bool out) -> long { int t; socklen_t l = sizeof t; if (out && n && on && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && G0->chance(1, 2)) return G0->b() ? -EAGAIN : 1 + (long)G0->u(n); return n; };
	std::vector<std::unique_ptr<Peer>> ps; 
	for (size_t i = 0, n = 5 + g.u(60); i < n; ++i) switch (g.u(5))
	{
	case 0: if (!dial(ps, port)) g.fail("connecting fails"); if (!ps.empty()) g.note("a client connects from port %d", ps.back()->port); break;
	case 1: case 2: if (!ps.empty()) { Peer *p = g.pick(ps).get(); std::string d = g.blob(1 + g.size(300)); p->stream += d; p->push(d.size()); } break;
	default: some(g);
	}
	for (int i = 0; i < 3; ++i) all();
	on = false;
	uint64_t t0 = nowMs(); for (;;) { all(); bool ok = true; for (auto &p : ps) { p->read(1 << 20); PBT_CHECK(g, p->stream.compare(0, p->rcvd.size(), p->rcvd) == 0, "an echo differs"); Echo::St &x = Echo::st[p->port]; if (!p->eof && p->rcvd.size() != p->stream.size()) ok = false; if (p->eof && x.opens && !x.ends) g.fail("the connection from port %d ends and nobody is told", p->port); } if (ok) break; if (nowMs() - t0 > 3000) for (auto &p : ps) if (!p->eof && p->rcvd.size() != p->stream.size()) g.fail("the client from port %d (opened %d, ended %d) is neither answered nor ended: %zu of %zu bytes", p->port, Echo::st[p->port].opens, Echo::st[p->port].ends, p->rcvd.size(), p->stream.size()); usleep(100); }
	for (auto &p : ps) { p->close(false); }
	for (int i = 0; i < 4; ++i) { all(); usleep(50); }
	PBT_CHECK(g, Echo::live == 0, "%d connections remain", Echo::live);
	// nothing is left behind: many clients fit again
	nm::g_limit = nullptr; ps.clear(); for (int i = 0; i < max - 30; ++i) { size_t k = ps.size(); dial(ps, port); if (ps.size() > k) { ps.back()->say("x"); ps.back()->push(1); } }
	t0 = nowMs(); for (;;) { all(); size_t ok = 0; for (auto &p : ps) { p->read(10); ok += p->rcvd == "x"; } if (ok == ps.size()) break; if (nowMs() - t0 > 3000) g.fail("after %d failed calls only %zu of %zu clients are served", injected, ok, ps.size()); usleep(100); }
	if (injected && Echo::errs) g.nontrivial();
	g.labelIf(injected, "failed calls");
}
// the same with every loop running freely: what clients in several threads see, and what the handlers were told
struct Free : lce::CNetWorker
{
	struct St { std::atomic<int> opens, ends, bad; std::atomic<size_t> bytes; }; static St st[65536]; Rng r; static std::atomic<int> err; static bool slow; char what[200];
	Free() : r(77) {}
	void onConnect(lce::StSession &s, bool ok, void *p) { St &x = st[s.getPort()]; if (!ok || x.opens++) x.bad = 1; }
	void onRead(lce::StSession &s, const char *d, const int n) { St &x = st[s.getPort()]; if (x.opens != 1 || x.ends) x.bad = 2; x.bytes += n; if (slow && r.next() % 16 == 0) usleep(r.next() % 300); if (n > 6 && d[5] == 'Q') { write(s, d, n, true); x.ends = 1; } else if (write(s, d, n, false)) x.bad = 3; }
	void onClose(lce::StSession &s) { St &x = st[s.getPort()]; if (x.opens != 1 || x.ends++) x.bad = 4; }
	void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; St &x = st[s.getPort()]; x.bad = 5; }
	void onMessage(int, void *) {}
};
Free::St Free::st[65536]; std::atomic<int> Free::err; bool Free::slow;
static void threads(G &g)
{
	static lce::CNetWorkerMgr<Free> M; size_t nw = 1 + g.u(4), nc = 1 + g.u(4), per = 1 + g.u(4), rounds = 1 + g.u(6); Free::slow = g.b(); static std::string msg; PBT_CHECK(g, M.init(nw, 400) == 0, "init"); M.setErrHandler([](const char *m) { msg = m; Free::err++; });
	PBT_CHECK(g, M.createSrv(myIp(), 0, 2, 64, 20000, 64, 1 << 20) == 0, "createSrv"); std::vector<int> known; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)); g.note("%zu workers, %zu threads of clients, each %zu at a time, %zu times", nw, nc, per, rounds);
	std::thread([] { M.start(); }).detach(); std::vector<std::thread> th; std::mutex em; std::string fault; std::vector<uint64_t> seeds; for (size_t i = 0; i < nc; ++i) seeds.push_back(g.num64()); std::atomic<size_t> total(0);
	static std::atomic<int> seen[65536];
	for (size_t t = 0; t < nc; ++t) th.emplace_back([&, t] {
		Rng r(seeds[t]); auto bad = [&](const std::string &s) { std::lock_guard<std::mutex> l(em); if (fault.empty()) fault = s; };
		for (size_t k = 0; k < rounds; ++k)
		{
			std::vector<std::unique_ptr<Peer>> ps; std::vector<bool> q; for (size_t i = 0; i < per; ++i)
			{
				ps.emplace_back(new Peer); Peer *p = ps.back().get(); if (!p->dial(myIp(), port, r.next() % 3 ? 0 : 4096)) { bad("connecting fails"); return; } q.push_back(false); if (seen[p->port]++) { p->close(false); ps.pop_back(); q.pop_back(); continue; }
				for (size_t m = 0, n = r.next() % 12; m < n; ++m) { std::string b; for (size_t x = 0, l = r.next() % 2 ? r.next() % 60 : r.next() % 4000; x < l; ++x) b += (char)('a' + r.next() % 16); p->say(nm::frame(2, b)); }
				if (r.next() % 3 == 0) { q.back() = true; p->say(nm::frame(2, "Quit")); } // it echoes this one and closes
			}
			uint64_t t0 = nowMs(); size_t done = 0; std::vector<bool> fin(ps.size());
			while (done < ps.size())
			{
				bool moved = false;
				for (size_t i = 0; i < ps.size(); ++i)
				{
					Peer *p = ps[i].get(); if (fin[i]) continue; size_t a = p->sent + p->rcvd.size(); if (p->canSend()) p->push(1 + r.next() % 3000); p->read(r.next() % 2 ? 100000 : 500); moved |= a != p->sent + p->rcvd.size();
					if (p->rcvd.size() > p->stream.size() || p->stream.compare(0, p->rcvd.size(), p->rcvd)) { bad("an echo differs: " + p->describe()); return; }
					if (p->eof && !((q[i] || p->shut) && p->rcvd == p->stream)) { bad("a connection ends early: " + p->describe()); return; }
					if (p->rcvd == p->stream && (!q[i] || p->eof)) { if (!q[i] && p->stream.size() && r.next() % 3 == 0 && !p->shut) { p->shutdown(); moved = true; } else if (p->shut && !p->eof) { } else { p->close(false); fin[i] = true; ++done; total += p->rcvd.size(); continue; } }
					if (p->shut && p->eof) { p->close(false); fin[i] = true; ++done; }
				}
				if (moved) t0 = nowMs(); else { if (nowMs() - t0 > 3000) { for (size_t i = 0; i < ps.size(); ++i) if (!fin[i]) bad("no answer: " + ps[i]->describe()); return; } usleep(100); }
			}
		}
	});
	for (auto &t : th) t.join();
	PBT_CHECK(g, fault.empty(), "%s", fault.c_str()); PBT_CHECK(g, Free::err == 0, "the server reports: %s", msg.c_str());
	uint64_t t0 = nowMs(); for (int i = 0; i < 65536; ++i) if (seen[i] == 1) { Free::St &x = Free::st[i]; while ((x.opens != 1 || x.ends != 1) && nowMs() - t0 < 3000) usleep(200); PBT_CHECK(g, x.opens == 1 && x.ends == 1 && !x.bad, "connection from port %d: reported %d times, ended %d times (%d)", i, (int)x.opens, (int)x.ends, (int)x.bad); }
	if (nw > 1 && nc * per > 1 && total) g.nontrivial();
}
// descriptors are used again and again: whoever kept a session of a connection that is gone neither reaches nor ends the one that has its number now
struct Keep : lce::CNetWorker
{
	static std::vector<Keep *> all; static std::map<uint16_t, Peer *> from; static int mode; static size_t gone, hits; int client; std::vector<lce::StSession> dead; std::map<int, Peer *> live; Peer *calls; uint16_t farPort;
	Keep() : client(-1), calls(NULL), farPort(0) { all.push_back(this); }
	int init() { client = createClient(4); return 0; }
	void onConnect(lce::StSession &s, bool ok, void *pd) { PBT_CHECK(*G0, ok, "a connection fails"); PBT_CHECK(*G0, !live.count(s.iFd), "descriptor %d is reported as new while it is in use", s.iFd); Peer *p = s.iSvrId == client ? (Peer *)pd : from[s.getPort()]; PBT_CHECK(*G0, p, "a connection nobody made"); live[s.iFd] = p; p->srvFd = s.iFd; p->opens++; int b = 4608; setsockopt(s.iFd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
	void end(lce::StSession &s) { live.erase(s.iFd); dead.push_back(s); ++gone; }
	void onRead(lce::StSession &s, const char *d, const int n) { PBT_CHECK(*G0, live.count(s.iFd), "a message on descriptor %d, which is gone", s.iFd); Peer *p = live[s.iFd]; std::string m(d, n); if (m == "big") m.assign(30000, 'b'); if (m == "bye") { end(s); if (mode == 1) close(s); else { p->expect += m; PBT_CHECK(*G0, write(s, m.data(), n, true) == 0, "the last reply is refused"); } } else { p->expect += m; PBT_CHECK(*G0, write(s, m.data(), m.size(), false) == 0, "the echo is refused: %s", getErrMsg()); } }
	void onClose(lce::StSession &s) { PBT_CHECK(*G0, live.count(s.iFd), "descriptor %d ends twice", s.iFd); Peer *p = live[s.iFd]; PBT_CHECK(*G0, p->closed || (p->shut && p->rcvd.size() + 20000 > p->expect.size()), "a connection that is in use ends"); end(s); }
	void onError(lce::StSession &s, const char *m, int e) { if (e == lce::ERR_NOT_READY) return; PBT_CHECK(*G0, e == lce::ERR_SOCKET && live.count(s.iFd) && live[s.iFd]->closed, "error %d: %s", e, m); end(s); }
	void onMessage(int t, void *d)
	{
		if (t == 2) { PBT_CHECK(*G0, connect(client, myIp(), (uint16_t)(size_t)d, calls) >= 0, "connect: %s", getErrMsg()); return; }
		for (lce::StSession t : dead) { std::string d = "stale"; bool used = live.count(t.iFd); hits += used; if (G0->b()) PBT_CHECK(*G0, write(t, d.data(), d.size(), G0->chance(1, 3)) != 0, "a write to a connection that is gone is accepted (descriptor %d%s)", t.iFd, used ? ", which is another connection now" : ""); else close(t); }
	}
};
std::vector<Keep *> Keep::all; std::map<uint16_t, Peer *> Keep::from; int Keep::mode; size_t Keep::gone, Keep::hits;
static void reuse(G &g)
{
	static lce::CNetWorkerMgr<Keep> M; G0 = &g; size_t nw = g.pick<size_t>({1, 1, 2, 3}); PBT_CHECK(g, M.init(nw, 100) == 0, "init"); PBT_CHECK(g, M.createSrv(myIp(), 0, 4) == 0, "createSrv"); std::vector<int> known; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)), fp; int far = nm::listener(myIp(), &fp); launch(M, nw); g_loops = baton::loops();
	size_t n = g.chance(1, 4) ? 250 * nw + g.u(500) : 1 + g.size(200), most = g.range(1, 3); if (g.thorough() && g.chance(1, 200)) n = 65600; int every = g.range(1, 60), out = g.pick({0, 0, 3, 1}); std::vector<std::unique_ptr<Peer>> ps; g.note("%zu workers, %zu connections, at most %zu at a time", nw, n, most); g.labelIf(n > 256 * nw, "more than 256 connections"); g.labelIf(out, "outgoing ones too");
	auto echo = [&](Peer *p) { uint64_t t0 = nowMs(); size_t want = p->rcvd.size() + 2; p->stream += "hi"; p->push(2); while (p->rcvd.size() < want) { all(); p->read(100); PBT_CHECK(g, !p->eof, "a connection (descriptor %d) is ended", p->srvFd); if (p->rcvd.size() < want && nowMs() - t0 > 3000) g.fail("a client is not answered"); } PBT_CHECK(g, p->rcvd == p->expect, "a client receives %s instead of %s", quote(p->rcvd).c_str(), quote(p->expect).c_str()); };
	size_t total = 0;
	for (size_t i = 0; i < n; ++i)
	{
		ps.emplace_back(new Peer); Peer *p = ps.back().get(); uint64_t t0 = nowMs();
		if (out && g.u(out) == 0) { Keep *k = Keep::all[g.u(nw)]; k->calls = p; k->sendMessage(2, (void *)(size_t)fp); while (p->fd < 0) { all(); struct sockaddr_in a; socklen_t l = sizeof a; int c = nm::high((int)syscall(SYS_accept4, far, &a, &l, 0)); if (c >= 0) p->adopt(c); else if (nowMs() - t0 > 3000) g.fail("no connection arrives"); } }
		else
		{
			// the handler has to know the port before the loop runs
			if (!p->dial(myIp(), port, 4096)) g.fail("connecting fails"); Keep::from[p->port] = p;
		}
		while (!p->opens) { all(); if (nowMs() - t0 > 3000) g.fail("a connection is not reported"); }
		if (g.b()) echo(p);
		if (g.u(every) == 0 || i + 1 == n) { for (auto k : Keep::all) k->sendMessage(1, NULL); all(); for (auto &q : ps) echo(q.get()); }
		while (ps.size() >= most + (i + 1 == n))
		{
			size_t k = g.u(ps.size()); Peer *q = ps[k].get(); Keep::mode = g.chance(1, 8) ? 4 : g.u(4); size_t before = Keep::gone; if (Keep::mode == 4) { q->stream += "big"; q->push(3); q->shutdown(); g.label("half-closed with much to send"); } else if (Keep::mode >= 2) q->close(q->rcvd.size() == q->expect.size() && Keep::mode == 3); else { q->stream += "bye"; q->push(3); }
			t0 = nowMs(); while (Keep::gone == before) { all(); if (Keep::mode == 4) q->read(100000); if (nowMs() - t0 > 3000) g.fail("the end of a connection is not seen"); } if (Keep::mode == 4) { q->read(1 << 20); PBT_CHECK(g, q->rcvd == q->expect, "a client that sends no more receives %zu of %zu bytes", q->rcvd.size(), q->expect.size()); } q->close(false); ps.erase(ps.begin() + k); ++total;
		}
		for (auto k : Keep::all) if (k->dead.size() > 900) k->dead.erase(k->dead.begin() + 200 + g.u(600));
	}
	if (Keep::hits) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"history", history, 12000, 250000, "one to three workers, connections in and out, random traffic, replies, closes and faults, every loop stepped by the generator; non-trivial: four messages, two connections", 15000, F_ISOLATE},
		{"slow", slow, 5000, 80000, "the same with clients that read little and end their streams early, and long replies; non-trivial: as above", 15000, F_ISOLATE},
		{"limits", limits, 2000, 30000, "clients that come and go around the limit; non-trivial: some are answered and some refused", 15000, F_ISOLATE},
		{"faults", faults, 3000, 40000, "failing epoll_ctl calls while clients are served; non-trivial: a connection is ended by one", 15000, F_ISOLATE},
		{"threads", threads, 600, 10000, "echo under freely running workers and client threads; non-trivial: several workers, clients and bytes", 20000, F_ISOLATE | F_RACY},
		{"reuse", reuse, 1000, 12000, "one to some hundred connections one after the other, all their sessions kept and used again; non-trivial: a session is used whose descriptor is another connection's now", 60000, F_ISOLATE}};
	return pbtMain(argc, argv, "C27", s);
}
