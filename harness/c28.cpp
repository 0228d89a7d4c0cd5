// REPO_SRC: src/CCommMgr.cpp src/CEvent.cpp src/CTask.cpp src/CThread.cpp src/CHttpReader.cpp src/CHttpWriter.cpp src/Utils.cpp
// LIBS: -lpthread
// C28: worker pools run each request once and answer the right client.
#include "pbt.h"
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "netmodel.h"
#undef MAP_FILE
#include "CAnyWorkerPool.h"
#include "CRawWorkerPool.h"
#include "CHttpWorkerPool.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace pbt; using nm::Peer; typedef std::string S;
// requests that hold wait here
struct Gate { std::mutex m; std::condition_variable cv; bool open; int holding; Gate() : open(true), holding(0) {} void pass() { std::unique_lock<std::mutex> l(m); ++holding; cv.notify_all(); cv.wait(l, [&] { return open; }); --holding; } void set(bool o) { std::unique_lock<std::mutex> l(m); open = o; cv.notify_all(); } bool wait(int n, int ms) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return holding >= n; }); } };
static Gate gate;
// ---- task queue
struct Item { std::atomic<int> runs; int type; bool hold; int us; std::atomic<bool> accepted; size_t order, prod; Item *next; };
static Item items[4000]; static std::atomic<int> done(0), wrong(0), acc(0); static std::atomic<size_t> clockNo(0);
struct Task : lce::CTask
{
	int n; std::atomic<int> busy[64]; Task() : n(0) { for (auto &b : busy) b = 0; }
	void onWork(int type, void *d, int idx) { Item *i = (Item *)d; if (idx < 0 || idx >= n) { wrong = 1; return; } if (busy[idx]++) wrong = 2; if (i < items || i >= items + 4000 || i->type != type) wrong = 3; i->order = clockNo++; if (i->hold) gate.pass(); if (i->us) usleep(i->us); i->runs++; if (Item *x = i->next) { x->accepted = true; acc++; if (dispatch(x->type, x) != 0) { x->accepted = false; acc--; } } busy[idx]--; done++; }
};
static void tasks(G &g)
{
	Task *t = new Task; int nt = g.chance(1, 8) ? 7 + g.u(34) : 1 + g.u(6), max = g.chance(1, 3) ? 1 + g.u(3) : 1 + g.u(60); t->n = nt; PBT_CHECK(g, t->init(nt, max) == 0, "init"); size_t next = 0; g.note("%d threads, at most %d tasks wait", nt, max);
	size_t prod = 0; auto make = [&](bool hold) { Item &i = items[next++]; i.type = (int)g.num64(); i.hold = hold; i.prod = prod; i.us = g.chance(1, 20) ? g.u(200) : 0; return &i; };
	// a task that queues another one when it is run
	auto chain = [&](Item *i) { if (next > 3900) return i; Item *a = i; for (size_t k = 1 + g.u(3); k--; a = a->next) { a->next = make(false); a->next->prod = 1000 + next; } return i; };
	auto send = [&](Item *i) { bool ok = t->dispatch(i->type, i) == 0; i->accepted = ok; if (ok) ++acc; return ok; };
	auto finish = [&] { gate.set(true); uint64_t t0 = nowMs(); while (done < acc && nowMs() - t0 < 5000) usleep(50); PBT_CHECK(g, done == acc, "%d of %d accepted tasks are done", (int)done, (int)acc); };
	auto occupy = [&] { bool burst = nt <= max && g.b(); for (int i = 0; i < nt; ++i) { PBT_CHECK(g, send(make(true)), "a task is refused by an empty queue"); if (!burst) PBT_CHECK(g, gate.wait(i + 1, 5000), "a free thread does not take a task (%d of %d are busy)", i, nt); } PBT_CHECK(g, gate.wait(nt, 5000), "free threads do not take %d tasks that come at once", nt); };
	bool early = g.chance(1, 4); if (early) { size_t k = g.u(max + 1); for (size_t i = 0; i < k; ++i) PBT_CHECK(g, send(make(false)), "task %zu is refused, %d may wait", i, max); g.note("%zu tasks before the threads run", k); }
	PBT_CHECK(g, t->run() == 0, "run");
	for (size_t s = 0, n = 1 + g.u(8); s < n && next < 3000; ++s) switch (g.u(4))
	{
	case 0: { size_t k = 1 + g.u(max); finish(); g.note("%zu tasks at once", k); bool more = g.chance(1, 3); if (more) { k = 1 + g.u(std::min(max, 8)); g.label("tasks that queue tasks"); } for (size_t i = 0; i < k; ++i) PBT_CHECK(g, send(more ? chain(make(false)) : make(false)) || more, "task %zu of %zu is refused, %d may wait", i, k, max); if (g.b()) finish(); break; }
	case 1: // all threads are busy: the queue takes as many as it may and refuses the others
	{
		finish(); gate.set(false); occupy();
		int extra = 1 + g.u(5), ok = 0; for (int i = 0; i < max + extra; ++i) { bool r = send(make(false)); PBT_CHECK(g, r == (i < max), "task %d of those that wait is %s, %d may wait", i + 1, r ? "accepted" : "refused", max); ok += r; }
		g.note("%d tasks wait for %d busy threads", ok, nt); g.label("full queue"); break;
	}
	case 2: // all threads are busy and several producers come at once: the queue takes exactly as many as it may
	{
		finish(); gate.set(false); occupy();
		size_t np = 2 + g.u(5); int fill = g.u(2) ? g.u(max + 1) : max - 1; for (int i = 0; i < fill; ++i) PBT_CHECK(g, send(make(false)), "task %d of those that wait is refused, %d may wait", i + 1, max);
		size_t per = 1 + (max - fill + np - 1) / np; std::vector<std::vector<Item *>> w(np); for (auto &v : w) { ++prod; for (size_t i = 0; i < per; ++i) v.push_back(make(false)); } prod = 0; std::atomic<int> a(0), here(0); std::vector<std::thread> th;
		for (auto &v : w) th.emplace_back([&, t] { ++here; while (here < (int)np) {} for (Item *i : v) { bool ok = t->dispatch(i->type, i) == 0; i->accepted = ok; if (ok) ++a; } }); for (auto &x : th) x.join(); acc += a; g.note("%d tasks wait, %zu producers come with %zu each: %d are accepted", fill, np, per, (int)a); g.label("several producers, busy threads"); PBT_CHECK(g, fill + a == max, "%d tasks wait, %d may", fill + (int)a, max); break;
	}
	default: // several producers
	{
		finish(); size_t np = 2 + g.u(3), per = 1 + g.u(60); std::vector<std::vector<Item *>> w(np); for (auto &v : w) { ++prod; for (size_t i = 0; i < per && next < 3900; ++i) v.push_back(make(false)); } prod = 0; std::atomic<int> a(0); std::vector<std::thread> th;
		for (auto &v : w) th.emplace_back([&v, t, &a] { for (Item *i : v) { bool ok = t->dispatch(i->type, i) == 0; i->accepted = ok; if (ok) ++a; } }); for (auto &x : th) x.join(); acc += a; g.note("%zu producers, %d of %zu tasks accepted", np, (int)a, np * per); g.label("several producers"); PBT_CHECK(g, a >= std::min<int>(max, np * per), "only %d tasks are accepted, %d may wait", (int)a, max);
	}
	}
	finish(); usleep(200); PBT_CHECK(g, !wrong, "a task runs with wrong data (%d)", (int)wrong); std::map<size_t, size_t> last;
	for (size_t i = 0; i < next; ++i) { PBT_CHECK(g, items[i].runs == (items[i].accepted ? 1 : 0), "task %zu was %s and runs %d times", i, items[i].accepted ? "accepted" : "refused", (int)items[i].runs); }
	if (nt == 1) { for (size_t i = 0; i < next; ++i) { if (!items[i].accepted) continue; if (last.count(items[i].prod)) PBT_CHECK(g, items[i].order > last[items[i].prod], "task %zu runs before a task that its producer queued earlier", i); last[items[i].prod] = items[i].order; } if (acc > 5) g.label("one thread"); }
	if (nt > 1 && acc > 5) g.nontrivial();
}
// queues that hold very many tasks
struct Vast : lce::CTask { std::vector<std::atomic<int>> runs; std::atomic<int> done, bad; Vast(size_t n) : runs(n), done(0), bad(0) { for (auto &x : runs) x = 0; } void onWork(int t, void *d, int) { if (t == -1) gate.pass(); else { size_t i = (size_t)d; if (i >= runs.size() || t != (int)(i * 7)) bad = 1; else runs[i]++; } ++done; } };
static void vast(G &g)
{
	int max = g.pick({255, 256, 257, 10000, 32767, 32768, 40000, 65535, 65536, 65537, 100000, 131072 + 5}), nt = 1 + g.u(4), extra = 1 + g.u(3); size_t all = max + extra; auto *t = new Vast(all); PBT_CHECK(g, t->init(nt, max) == 0 && t->run() == 0, "init and run"); g.note("%d threads, %d tasks may wait", nt, max);
	for (int round = 0, n = 1 + g.u(2); round < n; ++round)
	{
		gate.set(false); t->done = 0; for (auto &x : t->runs) x = 0; for (int i = 0; i < nt; ++i) { PBT_CHECK(g, t->dispatch(-1, NULL) == 0, "a task is refused by an empty queue"); PBT_CHECK(g, gate.wait(i + 1, 5000), "a free thread does not take a task"); }
		int fill = g.chance(3, 4) ? (int)all : (int)g.u(all); for (int i = 0; i < fill; ++i) { bool ok = t->dispatch(i * 7, (void *)(size_t)i) == 0; PBT_CHECK(g, ok == (i < max), "task %d of those that wait is %s, %d may", i + 1, ok ? "accepted" : "refused", max); }
		gate.set(true); int want = nt + std::min(fill, max); uint64_t t0 = nowMs(); while (t->done < want && nowMs() - t0 < 10000) usleep(100); PBT_CHECK(g, t->done == want && !t->bad, "%d of %d accepted tasks are done", (int)t->done, want); for (int i = 0; i < (int)all; ++i) PBT_CHECK(g, t->runs[i] == (i < std::min(fill, max)), "task %d runs %d times", i, (int)t->runs[i]);
	}
	if (max > 10000) g.nontrivial();
}
// ---- pools
enum Op { ECHO, CLOSE, THROW, SLOW, HOLD, BIG, QUIET, NOPS }; // QUIET: a raw worker that says nothing and closes
struct Req { int op, peer, pool; std::string data; std::atomic<int> runs; bool answered, refused; Req() : op(0), peer(-1), pool(0), runs(0), answered(false), refused(false) {} };
static Req *reqs; static size_t nReq; static std::mutex em; static std::vector<std::string> errs; static std::atomic<int> started(0), bad(0), finished(0);
static size_t g_max = 3000;
static std::string head(int id, int op) { char b[20]; snprintf(b, sizeof b, "%08d%d", id, op); return b; }
static std::string answer(int id, const std::string &data, int op) { std::string r(data.rbegin(), data.rend()); if (op == BIG) { std::string x = r + "."; size_t n = id % 7 == 3 ? 200000 : 20000; r.reserve(n + x.size()); while (r.size() < n) r += x; } return head(id, op) + r; }
// what a worker does with a request; returns the text of the answer
static std::string serve(const std::string &t, bool &close)
{
	started++; if (t.size() < 9) { bad = 1; throw std::runtime_error("short"); } int id = atoi(t.substr(0, 8).c_str()), op = t[8] - '0'; if (id < 0 || (size_t)id >= nReq || reqs[id].op != op || reqs[id].data != t.substr(9)) { bad = 2; throw std::runtime_error("wrong data"); }
	reqs[id].runs++; if (op == SLOW) usleep(300); if (op == HOLD) gate.pass(); if (op == THROW) { finished++; throw std::runtime_error("thrown by " + head(id, op)); } close = op == CLOSE || op == QUIET; return answer(id, t.substr(9), op);
}
struct Busy { std::atomic<int> &n; Busy(std::atomic<int> &x) : n(x) { if (n++) bad = 3; } ~Busy() { n--; } };
struct RawW : lce::CRawWorker { std::atomic<int> n; RawW() : n(0) {} void onRequest(lce::CRawRequest &q, lce::CRawResponse &r) { Busy b(n); const std::string &m = q.getReader(); bool c = false; if (m.size() < 6) { bad = 4; return; } S t = serve(m.substr(5, m.size() - 6), c); if (t[8] != '0' + QUIET) r.getWriter() = nm::frame(2, t); r.setCloseFlag(c); finished++; } };
struct AnyW : lce::CAnyWorker { std::atomic<int> n; AnyW() : n(0) {} void onRequest(lce::CAnyRequest &q, lce::CAnyResponse &r) { Busy b(n); bool c = false; std::string t = q.getReader()["text"]; r.getWriter()["text"] = serve(t, c); r.getWriter().head().setSeq(q.getReader().head().getSeq()); r.getWriter().head().setCmd(7); r.setCloseFlag(c); finished++; } };
struct HttpW : lce::CHttpWorker { std::atomic<int> n; HttpW() : n(0) {} void onRequest(lce::CHttpRequest &q, lce::CHttpResponse &r) { Busy b(n); bool c = false; std::string t = serve(q.getReader().getBody(), c); r.getWriter().begin(); r.getWriter() << t; r.getWriter().end(); r.setCloseFlag(c); finished++; } };
static int handed[3], capacity[3], threadsOf[3];
static int refusedBy[3]; static void onErr(const char *m) { std::lock_guard<std::mutex> l(em); errs.push_back(m); }
template <class P> struct Pool : P { int k; void onRead(lce::StSession &s, const char *d, const int n) { size_t b; { std::lock_guard<std::mutex> l(em); b = errs.size(); } P::onRead(s, d, n); ++handed[k]; (void)b; } };
static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }
struct Stop : lce::CProcessor { void onMessage(int, void *) { M().stop(); } }; static Stop stopper;
static void step() { M().sendMessage(1, &stopper, NULL); M().start(); }
static std::string myIp() { char ip[32]; snprintf(ip, sizeof ip, "127.%d.%d.%d", 10 + getpid() / 62500 % 200, getpid() / 250 % 250, 1 + getpid() % 250); return ip; }
static std::string encode(int kind, int id, const std::string &text)
{
	if (kind == 0) return nm::frame(2, text); if (kind == 2) return nm::frame(3, text);
	lce::CAnyPackage p; p.head().setStx(2); p.head().setSeq(id); p.head().setCmd(3); p["text"] = text; p.encode(); p.head().setLen(p.size() + 1); p.setEtx(); return std::string(p.data(), p.size());
}
// takes one answer from the front; false: not complete
static bool take(G &g, int kind, std::string &b, std::string &text, long &seq)
{
	seq = -1; if (kind == 2)
	{
		size_t e = b.find("\r\n\r\n"); if (e == std::string::npos) return false; PBT_CHECK(g, b.compare(0, 13, "HTTP/1.1 200 ") == 0, "the answer starts with %s", quote(b, 40).c_str()); size_t c = b.find("Content-Length: "); PBT_CHECK(g, c < e, "no length in an answer"); size_t n = atoi(b.c_str() + c + 16);
		if (b.size() < e + 4 + n) return false; text = b.substr(e + 4, n); b.erase(0, e + 4 + n); return true;
	}
	if (b.size() < 5) return false; size_t n = (uint8_t)b[1] << 24 | (uint8_t)b[2] << 16 | (uint8_t)b[3] << 8 | (uint8_t)b[4]; PBT_CHECK(g, b[0] == 2 && n >= 6 && n < 300000, "the answer is not a message: %s", quote(b, 40).c_str()); if (b.size() < n) return false; PBT_CHECK(g, b[n - 1] == 3, "an answer of %zu bytes does not end properly", n); std::string m = b.substr(0, n); b.erase(0, n);
	if (kind == 0) { text = m.substr(5, n - 6); return true; }
	lce::CAnyPackage p; try { p.decode(m.data(), m.size()); } catch (const std::exception &e) { g.fail("an answer cannot be decoded: %s", e.what()); } text = (std::string)p["text"]; seq = p.head().getSeq(); PBT_CHECK(g, p.head().getCmd() == 7, "an answer has another head"); return true;
}
static void pools(G &g)
{
	reqs = new Req[g_max]; std::string ip = myIp(); PBT_CHECK(g, M().init(200) == 0, "init"); size_t ns = 1 + g.u(3); std::vector<int> kind, known; std::vector<uint16_t> port; static bool handler; handler = g.chance(3, 4);
	for (size_t i = 0; i < ns; ++i)
	{
		int k = g.u(3); kind.push_back(k); int n = threadsOf[i] = g.chance(1, 10) ? 5 + g.u(36) : 1 + g.u(4), q = capacity[i] = g.chance(1, 3) ? 1 + g.u(5) : 1000; lce::CProcessor *pr;
		if (k == 0) { auto *p = new Pool<lce::CRawWorkerPool<RawW>>; p->k = i; p->init(n, q); if (handler) p->setErrHandler(onErr); p->run(); pr = p; } else if (k == 1) { auto *p = new Pool<lce::CAnyWorkerPool<AnyW>>; p->k = i; p->init(n, q); if (handler) p->setErrHandler(onErr); p->run(); pr = p; } else { auto *p = new Pool<lce::CHttpWorkerPool<HttpW>>; p->k = i; p->init(n, q); if (handler) p->setErrHandler(onErr); p->run(); pr = p; }
		int id = M().createSrv(lce::SRV_TCP, ip, 0, 200, 50000, 100, 256 << 20); PBT_CHECK(g, id >= 0, "createSrv"); M().setProcessor(id, pr, k == 2 ? 3 : 2); int fd = nm::findSocket(SOCK_STREAM, known); known.push_back(fd); port.push_back(nm::localPort(fd)); g.note("service %zu: %s pool of %d threads, %d requests may wait", i, k == 0 ? "raw" : k == 1 ? "any" : "http", n, q);
	}
	std::vector<std::unique_ptr<Peer>> ps; std::vector<std::string> buf; std::vector<int> closes; size_t nBad = 0, answers = 0, lost = 0; bool shutGate = false;
	auto receive = [&](Peer *p) {
		size_t o = p->rcvd.size(); p->read(1 << 20); buf[p->id].append(p->rcvd, o, std::string::npos); std::string t; long seq;
		while (take(g, kind[p->srv], buf[p->id], t, seq))
		{
			PBT_CHECK(g, t.size() >= 9, "a short answer"); int id = atoi(t.substr(0, 8).c_str()); PBT_CHECK(g, id >= 0 && (size_t)id < nReq && reqs[id].peer == p->id, "client %d gets the answer to request %d, which %s", p->id, id, (size_t)id < nReq ? "another client sent" : "nobody sent"); Req &r = reqs[id];
			PBT_CHECK(g, !r.answered, "request %d is answered twice", id); PBT_CHECK(g, r.op != THROW && r.op != QUIET, "request %d is answered, it failed or says nothing", id); r.answered = true; ++answers; PBT_CHECK(g, t == answer(id, r.data, r.op), "the answer to request %d is %s", id, quote(t, 60).c_str()); PBT_CHECK(g, seq == -1 || seq == id, "the answer to request %d has sequence number %ld", id, seq);
			PBT_CHECK(g, !closes[p->id] || closes[p->id] != 2, "an answer follows the one that closes"); if (r.op == CLOSE) closes[p->id] = 2;
		}
	};
	for (size_t i = 0, n = 5 + g.size(g.thorough() ? 300 : 120); i < n; ++i) switch (g.u(10))
	{
	case 0: if (ps.size() < 8) { size_t s = g.u(ns); ps.emplace_back(new Peer); Peer *p = ps.back().get(); p->id = ps.size() - 1; p->srv = s; buf.push_back(""); closes.push_back(0); if (!p->dial(ip, port[s], 0)) g.fail("connecting fails"); g.note("client %d connects to service %zu", p->id, s); } break;
	case 1: case 2: case 3: case 4: // requests
	{
		if (ps.empty()) break; Peer *p = g.pick(ps).get(); if (p->closed || p->bad || closes[p->id]) break;
		for (size_t k = 0, m = 1 + g.u(6); k < m && nReq < g_max - 10; ++k)
		{
			Req &r = reqs[nReq]; r.op = g.pick({(int)ECHO, (int)ECHO, (int)ECHO, (int)SLOW, (int)THROW, (int)BIG, (int)HOLD}); if (g.chance(1, 25)) r.op = kind[p->srv] == 0 && g.chance(1, 3) ? QUIET : CLOSE; r.peer = p->id; r.pool = p->srv; r.data = kind[p->srv] == 2 ? g.text(g.size(g.chance(1, 10) ? 12000 : 300), "abcdefghij") : g.blob(g.size(g.chance(1, 10) ? 5000 : 300)); 
			p->stream += encode(kind[p->srv], nReq, head(nReq, r.op) + r.data); g.note("client %d: request %zu, kind %d, %zu bytes", p->id, nReq, r.op, r.data.size()); ++nReq; if (r.op == CLOSE || r.op == QUIET) { closes[p->id] = 1; break; }
		}
		break;
	}
	case 5: for (auto &p : ps) p->push(g.b() ? 1 << 20 : 1 + g.u(400)); break;
	case 6: if (!ps.empty()) { Peer *p = g.pick(ps).get(); if (!p->closed && !p->bad && kind[p->srv] == 1 && !closes[p->id] && g.chance(1, 3))
	{
		std::string m; bool valid = true; for (int k = 0; valid && k < 6; ++k) { std::string e = encode(1, 0, g.text(g.size(30), "abc")), body = e.substr(5, e.size() - 6); switch (g.u(3)) { case 0: body.resize(g.u(body.size())); break; case 1: body[g.u(body.size())] ^= 1 + g.u(255); break; default: body.resize(body.size() - g.u(body.size() / 2)); body += g.blob(g.u(10)); } m = nm::frame(2, body); try { lce::CAnyPackage t; t.decode(m.data(), m.size()); } catch (const std::exception &) { valid = false; } }
		if (!valid) { p->bad = true; p->stream += m; ++nBad; g.note("client %d: a request that cannot be decoded", p->id); } } } break;
	case 7: if (!ps.empty() && g.chance(1, 5)) { Peer *p = g.pick(ps).get(); if (!p->closed) { p->close(g.b()); g.note("client %d leaves", p->id); } } break;
	case 8: shutGate = !shutGate && g.chance(1, 2); gate.set(!shutGate); break;
	default: step(); for (auto &p : ps) if (!p->closed && g.b()) receive(p.get()); if (g.chance(1, 4)) usleep(100);
	}
	auto quiet = [&] { for (size_t i = 0; i < nReq; ++i) if (reqs[i].op == QUIET && reqs[i].runs && closes[reqs[i].peer] < 2) closes[reqs[i].peer] = 3; };
	gate.set(true); uint64_t t0 = nowMs();
	for (;;)
	{
		quiet();
		bool all = true; for (auto &p : ps) if (!p->closed && p->canSend()) { p->push(1 << 20); all = false; }
		step(); for (auto &p : ps) if (!p->closed) receive(p.get());
		size_t missing = 0, throws_ = 0, refusals = 0; { std::lock_guard<std::mutex> l(em); for (auto &e : errs) { if (e == "task queue full") ++refusals; else if (e.compare(0, 9, "thrown by") == 0) ++throws_; } }
		for (size_t i = 0; i < nReq; ++i) { Req &r = reqs[i]; Peer *p = ps[r.peer].get(); if (p->closed || p->bad || closes[r.peer] >= 2) continue; if (r.answered || (r.op == THROW && r.runs)) continue; ++missing; }
		for (auto &p : ps) if (!p->closed && (p->bad || closes[p->id] >= 2) && !p->eof) all = false;
		if (handler && all && missing <= refusals) { lost = refusals; break; }
		if (!handler && all && (missing == 0 || nowMs() - t0 > 400)) { int cap = 0; for (size_t i = 0; i < ns; ++i) cap |= capacity[i] < 1000; PBT_CHECK(g, !missing || cap, "%zu requests are not answered", missing); break; }
		if (nowMs() - t0 > 5000) { for (auto &p : ps) if (!p->closed && (p->bad || closes[p->id] >= 2) && !p->eof) g.fail("client %d: the connection does not end", p->id); g.fail("%zu requests are neither answered nor refused (%zu refused, %zu failed)", missing, refusals, throws_); }
		usleep(200);
	}
	if (handler) for (;;) { size_t ran = 0, told = 0; for (size_t i = 0; i < nReq; ++i) ran += reqs[i].op == THROW && reqs[i].runs; { std::lock_guard<std::mutex> l(em); for (auto &e : errs) told += e.compare(0, 9, "thrown by") == 0; } if (ran == told) break; PBT_CHECK(g, nowMs() - t0 < 8000, "%zu of %zu failures are reported", told, ran); usleep(100); } // those of clients that left, too
	usleep(300); step(); for (auto &p : ps) if (!p->closed) receive(p.get());
	quiet();
	size_t never = 0, thrown = 0; for (size_t i = 0; i < nReq; ++i) { Req &r = reqs[i]; PBT_CHECK(g, r.runs <= 1, "request %zu runs %d times", i, (int)r.runs); PBT_CHECK(g, !r.answered || r.runs == 1, "request %zu is answered and never ran", i); if (r.op == THROW && r.runs) ++thrown; Peer *p = ps[r.peer].get(); if (!r.runs && !p->closed && !p->bad && closes[r.peer] < 2) ++never; }
	PBT_CHECK(g, !bad, "a worker gets wrong data or runs twice at a time (%d)", (int)bad);
	for (auto &p : ps) if (!p->closed && !p->bad && closes[p->id] < 2) PBT_CHECK(g, !p->eof, "the connection of client %d ends", p->id);
	if (handler)
	{
		std::map<std::string, int> n; size_t other = 0; { std::lock_guard<std::mutex> l(em); for (auto &e : errs) n[e]++; } for (auto &e : n) if (e.first.compare(0, 9, "thrown by") == 0) PBT_CHECK(g, e.second == 1, "'%s' is reported %d times", e.first.c_str(), e.second); else if (e.first != "task queue full") other += e.second;
		size_t full_ = n.count("task queue full") ? n["task queue full"] : 0; PBT_CHECK(g, never <= full_, "%zu requests never ran, %zu were refused", never, full_);
		bool small = false; for (size_t i = 0; i < ns; ++i) small |= capacity[i] < 1000; PBT_CHECK(g, small || !full_, "a request is refused below the limit"); g.labelIf(full_, "requests refused");
	}
	g.labelIf(nBad, "requests that cannot be decoded"); g.labelIf(thrown, "failing requests"); g.labelIf(ns > 1, "several pools"); g.labelIf(!handler, "no error handler"); (void)lost;
	if (answers > 5 && ps.size() > 1) g.nontrivial();
}
// a pool that is full refuses visibly, keeps nothing of what it refuses and recovers
static void full(G &g)
{
	g_max = 1000; reqs = new Req[g_max]; std::string ip = myIp(); PBT_CHECK(g, M().init(100) == 0, "init"); int k = g.u(3), n = 1 + g.u(3), q = 1 + g.u(4); lce::CProcessor *pr;
	if (k == 0) { auto *p = new lce::CRawWorkerPool<RawW>; p->init(n, q); p->setErrHandler(onErr); p->run(); pr = p; } else if (k == 1) { auto *p = new lce::CAnyWorkerPool<AnyW>; p->init(n, q); p->setErrHandler(onErr); p->run(); pr = p; } else { auto *p = new lce::CHttpWorkerPool<HttpW>; p->init(n, q); p->setErrHandler(onErr); p->run(); pr = p; }
	int id = M().createSrv(lce::SRV_TCP, ip, 0, 4000, 100000, 100, 1 << 20); M().setProcessor(id, pr, k == 2 ? 3 : 2); std::vector<int> known; uint16_t port = nm::localPort(nm::findSocket(SOCK_STREAM, known)); Peer p; p.id = 0; p.srv = 0; if (!p.dial(ip, port, 0)) g.fail("connecting fails");
	auto ask = [&](int op, size_t len) { Req &r = reqs[nReq]; r.op = op; r.peer = 0; r.data = std::string(len, 'd'); p.stream += encode(k, nReq, head(nReq, op) + r.data); ++nReq; uint64_t t0 = nowMs(); while (p.canSend() && nowMs() - t0 < 3000) { p.push(1 << 20); step(); } for (int i = 0; i < 3; ++i) step(); };
	auto refusals = [&] { std::lock_guard<std::mutex> l(em); return errs.size(); };
	gate.set(false); for (int i = 0; i < n; ++i) { ask(HOLD, 10); PBT_CHECK(g, gate.wait(i + 1, 5000), "a free worker does not take a request"); }
	for (int i = 0; i < q; ++i) { ask(ECHO, 10); PBT_CHECK(g, refusals() == 0, "request %d of those that wait is refused, %d may wait", i + 1, q); }
	{ std::lock_guard<std::mutex> l(em); errs.reserve(400); } size_t len = 3000 + g.u(4000), m = 40 + g.u(60); for (int i = 0; i < 5; ++i) ask(ECHO, len); PBT_CHECK(g, refusals() == 5, "%zu of 5 requests beyond the limit are refused", refusals());
	p.stream.erase(0, p.sent); p.sent = 0; p.stream.reserve(1 << 20); size_t before = __sanitizer_get_current_allocated_bytes(); size_t own = 0; for (size_t i = 0; i < m; ++i) { ask(ECHO, len); own += reqs[nReq - 1].data.capacity(); p.stream.clear(); p.sent = 0; } size_t after = __sanitizer_get_current_allocated_bytes();
	PBT_CHECK(g, refusals() == 5 + m, "%zu of %zu requests beyond the limit are refused", refusals() - 5, m); PBT_CHECK(g, after < before + own + m * 600, "%zu refused requests of %zu bytes leave %zu bytes of memory in use", m, len, after - before - own); // a record of each is about 200 bytes
	gate.set(true); size_t want = n + q, got = 0; uint64_t t0 = nowMs(); std::string b; std::set<int> ids; while (got < want && nowMs() - t0 < 5000) { step(); size_t o = p.rcvd.size(); p.read(1 << 20); b.append(p.rcvd, o, std::string::npos); std::string t; long seq; while (take(g, k, b, t, seq)) { ++got; ids.insert(atoi(t.substr(0, 8).c_str())); } usleep(100); }
	PBT_CHECK(g, ids.size() == want, "%zu of %zu accepted requests are answered", ids.size(), want); for (int i : ids) PBT_CHECK(g, (size_t)i < want, "request %d was refused and is answered", i);
	size_t old = nReq; ask(ECHO, 5); t0 = nowMs(); bool ok = false; while (!ok && nowMs() - t0 < 5000) { step(); size_t o = p.rcvd.size(); p.read(1 << 20); b.append(p.rcvd, o, std::string::npos); std::string t; long seq; while (take(g, k, b, t, seq)) ok |= atoi(t.substr(0, 8).c_str()) == (int)old; usleep(50); }
	PBT_CHECK(g, ok, "after it was full the pool does not answer"); g.note("%s pool of %d, %d may wait", k == 0 ? "raw" : k == 1 ? "any" : "http", n, q); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"tasks", tasks, 3000, 50000, "tasks from one or several threads, with free and with busy workers; non-trivial: several workers, more than five tasks", 20000, F_ISOLATE | F_RACY},
		{"vast", vast, 150, 2000, "queues filled with up to 131000 tasks; non-trivial: over 10000", 30000, F_ISOLATE | F_RACY},
		{"pools", pools, 3000, 50000, "one to three pools of all kinds, several clients, answers, failures, closes and requests that cannot be decoded; non-trivial: more than five answers, two clients", 20000, F_ISOLATE | F_RACY},
		{"full", full, 600, 8000, "a pool whose workers are all busy and whose queue is full; all non-trivial", 20000, F_ISOLATE | F_RACY}};
	return pbtMain(argc, argv, "C28", s);
}
