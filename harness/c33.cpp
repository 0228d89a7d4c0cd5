// REPO_SRC: src/CThread.cpp src/CTask.cpp src/CCommMgr.cpp src/CEvent.cpp src/CHttpReader.cpp src/CHttpWriter.cpp src/CNetWorker.cpp src/CAsyncLog.cpp src/Utils.cpp
// LIBS: -lpthread -Wl,--wrap=pthread_create
// C33: threads and task queues start once, end when told and never disturb others.
#include "pbt.h"
#include <atomic>
#include <memory>
#include <thread>
#include <dirent.h>
#undef MAP_FILE
#include "CAnyWorkerPool.h"
#include "CRawWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CThread.h"
#include "CNetWorkerMgr.h"
#include "CAsyncLog.h"
#include "CTask.h"
#include "CSingleton.h"
using namespace pbt;
static void nap(int us) { struct timespec t = {us / 1000000, us % 1000000 * 1000L}; nanosleep(&t, NULL); }
static uint64_t now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ULL + t.tv_nsec / 1000000; }
static int threads() { int n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return -1; while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
// waits up to five seconds, which is not a matter of speed
template <class F> static bool soon(F f, int ms = 5000) { uint64_t t = now(); for (int us = 20; !f(); us = us < 1000 ? us * 2 : us) { if (now() - t > (uint64_t)ms) return f(); nap(us); } return true; }

// the system may have no thread for the code under test (calls of the harness' own std::thread are not wrapped)
static uint64_t noThread; static int asked, denied;
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { if (asked < 64 && noThread >> asked++ & 1) { ++denied; return EAGAIN; } return __real_pthread_create(t, a, f, p); }

// what one started body does; lives longer than the thread object
struct Body { std::atomic<int> runs, pings, pongs, leave, ended, sawStop, kind, wrongPid, pipe, wrote; pthread_t self; Body() : runs(0), pings(0), pongs(0), leave(0), ended(0), sawStop(0), kind(0), wrongPid(0), pipe(-1), wrote(0), self(0) {} };
typedef std::shared_ptr<Body> BodyP;
struct AtEnd { BodyP b; ~AtEnd() { b->ended = 1; } };
struct Thr : public lce::CThread
{
	BodyP b; Thr(BodyP x) : b(x) {}
	int run()
	{
		BodyP me = b; AtEnd end = {me}; me->self = pthread_self(); if (getPid() != (pid_t)syscall(SYS_gettid)) me->wrongPid = 1; ++me->runs; int k = me->kind; if (me->pipe >= 0) { char c = 'x'; me->wrote = write(me->pipe, &c, 1); ::close(me->pipe); }
		if (k == 1) return 0;
		while (!me->leave) { int p = me->pings; if (me->pongs != p) me->pongs = p; if (k == 2 && isStoped()) { me->sawStop = 1; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); break; } nap(100); }
		return 0;
	}
};
enum { FRESH, RUNNING, LEFT, STOPPED, JOINED };
struct Obj { std::unique_ptr<Thr> t; BodyP b; int st; bool detached; Obj() : st(FRESH), detached(false) {} };
static void alive(G &g, std::vector<Obj> &v, std::vector<BodyP> &old, const char *what)
{
	for (auto &s : v) if (s.st == RUNNING && s.b->kind != 1)
	{
		int p = ++s.b->pings; BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->pongs == p || b->ended; }) && !b->ended, "%s: a running thread that was not stopped has ended or hangs", what);
	}
	for (auto &s : v) if (s.st != FRESH) PBT_CHECK(g, s.b->runs == 1, "%s: a body ran %d times for one start", what, (int)s.b->runs);
	for (auto &b : old) PBT_CHECK(g, b->runs <= 1, "%s: a body ran %d times", what, (int)b->runs);
}
static void lifecycle(G &g)
{
	signal(SIGPIPE, SIG_DFL); std::vector<Obj> v(2 + g.u(4)); std::vector<BodyP> old; int base = threads(), starts = 0, destroyed = 0, restarts = 0;
	for (auto &s : v) { s.b.reset(new Body); s.t.reset(new Thr(s.b)); }
	for (size_t i = 0, n = 3 + g.size(24); i < n; ++i)
	{
		size_t k = g.u(v.size()); Obj &s = v[k]; char what[80]; what[0] = 0;
		switch (g.u(9))
		{
		case 0: case 1: case 2:
			if (s.detached && s.st != FRESH && s.b->ended) { nap(500); old.push_back(s.b); s.b.reset(new Body); s.t->b = s.b; ++restarts; s.st = FRESH; s.detached = false; g.label("started again after detach"); }
			if (s.st == JOINED) { s.b.reset(new Body); s.t->b = s.b; ++restarts; s.st = FRESH; }
			if (s.st != FRESH) break;
			s.b->kind = g.pick({0, 0, 1, 2}); snprintf(what, sizeof what, "start %zu (kind %d)", k, (int)s.b->kind); if (g.chance(1, 6)) { int p[2]; if (pipe(p) == 0) { ::close(p[0]); s.b->pipe = p[1]; strcat(what, ", writes to nobody"); g.label("writes to a pipe nobody reads"); } } g.note("%s", what);
			PBT_CHECK(g, s.t->start() == 0, "start fails"); { BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->runs > 0; }), "the body does not run"); }
			PBT_CHECK(g, s.b->kind != 0 || (soon([&] { return s.b->pipe < 0 || s.b->wrote; }) && (s.b->pipe < 0 || s.b->wrote == -1)), "a write to a pipe nobody reads does not come back"); PBT_CHECK(g, !s.b->wrongPid, "the thread gets the kernel id of another one"); PBT_CHECK(g, !pthread_equal(s.b->self, pthread_self()), "the body runs on the thread that started it"); PBT_CHECK(g, s.b->kind != 0 || !s.b->ended, "the body has ended"); s.st = s.b->kind == 1 ? LEFT : RUNNING; s.detached = false; ++starts; break;
		case 3: if (s.st == RUNNING) { snprintf(what, sizeof what, "%zu leaves", k); g.note("%s", what); s.b->leave = 1; s.st = LEFT; if (g.b()) { BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->ended == 1; }), "the body does not end"); nap(300); } } break;
		case 4: if ((s.st == LEFT || s.st == STOPPED) && !s.detached) { snprintf(what, sizeof what, "join %zu", k); g.note("%s", what); PBT_CHECK(g, s.t->join() == 0, "join fails"); PBT_CHECK(g, s.b->ended, "join returns before the body has ended"); s.st = JOINED; if (g.b()) s.t->join(); } break;
		case 5: if (s.st == RUNNING || s.st == LEFT) { snprintf(what, sizeof what, "stop %zu", k); g.note("%s", what); s.t->stop(); PBT_CHECK(g, s.t->isStoped(), "isStoped is not set"); BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->ended == 1; }), "a stopped thread does not end"); s.st = STOPPED; } break;
		case 6: if (s.st != FRESH && s.st != JOINED && !s.detached) { snprintf(what, sizeof what, "detach %zu", k); g.note("%s", what); PBT_CHECK(g, s.t->detach() == 0, "detach fails"); s.detached = true; if (g.chance(1, 4)) s.t->detach(); } break;
		case 7:
		{
			static const char *const nm[] = {"fresh", "running", "left", "stopped", "joined"}; snprintf(what, sizeof what, "destroy %zu (%s%s)", k, nm[s.st], s.detached ? ", detached" : ""); g.note("%s", what); ++destroyed;
			BodyP b = s.b; int st = s.st; if (st != FRESH && b->kind == 2) { if (st == RUNNING) s.t->stop(); PBT_CHECK(g, soon([&] { return b->ended == 1; }), "a thread that looks for isStoped does not end"); }
			s.t.reset(); if (st != FRESH) PBT_CHECK(g, soon([&] { return b->ended == 1; }), "the thread of a destroyed object does not end"); old.push_back(b);
			s.b.reset(new Body); s.t.reset(new Thr(s.b)); s.st = FRESH; s.detached = false; break;
		}
		default: if (s.st == STOPPED || s.st == JOINED || s.st == LEFT) { snprintf(what, sizeof what, "stop %zu again", k); g.note("%s", what); s.t->stop(); if (s.st == LEFT) { BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->ended == 1; }), "does not end"); s.st = STOPPED; } } break;
		}
		if (what[0]) alive(g, v, old, what);
	}
	g.note("destroy all"); for (auto &s : v) { BodyP b = s.b; if (s.st != FRESH && b->kind == 2) { if (s.st == RUNNING) s.t->stop(); PBT_CHECK(g, soon([&] { return b->ended == 1; }), "a thread that looks for isStoped does not end"); } s.t.reset(); }
	for (auto &s : v) if (s.st != FRESH) { BodyP b = s.b; PBT_CHECK(g, soon([&] { return b->ended == 1; }), "the thread of a destroyed object does not end"); }
	PBT_CHECK(g, soon([&] { return threads() == base; }), "%d threads are left of %d", threads(), base);
	g.labelIf(restarts, "started again after join"); g.labelIf(destroyed, "destroyed in between"); if (starts > 2 && destroyed) g.nontrivial();
}

struct Item { std::atomic<int> n, type; Item() : n(0), type(-1) {} };
struct Shared { std::atomic<int> gate, busy, done, bad, destroyed; Shared() : gate(1), busy(0), done(0), bad(0), destroyed(0) {} };
struct Task : public lce::CTask
{
	Shared *s; int workers; Task(Shared *x, int n) : s(x), workers(n) {} ~Task() { stop(); join(); }
	void onWork(int type, void *data, int index)
	{
		struct Busy { Shared *s; Busy(Shared *x) : s(x) { ++s->busy; } ~Busy() { --s->busy; } } busy(s); Shared *sh = s;
		if (sh->destroyed || index < 0 || index >= workers) sh->bad = 1;
		Item *it = (Item *)data; ++it->n; if (it->type != type) sh->bad = 1; while (!sh->gate) nap(100); ++sh->done;
	}
};
static void tasks(G &g)
{
	int base = threads(), n = 1 + g.u(6), limit = 1 + g.size(40); std::unique_ptr<Shared> sh(new Shared); std::vector<std::unique_ptr<Item> > it; std::vector<int> accepted;
	std::unique_ptr<Task> t(new Task(sh.get(), n)); bool running = false, stopped = false; int acc = 0;
	g.note("%d workers, at most %d tasks wait", n, limit); if (g.chance(9, 10)) PBT_CHECK(g, t->init(n, limit) == 0, "init");
	else { g.note("destroyed without init"); t.reset(); return; }
	for (size_t i = 0, k = 2 + g.size(16); i < k; ++i) switch (g.u(7))
	{
	case 0: if (!running && !stopped) { g.note("run"); PBT_CHECK(g, t->run() == 0, "run"); running = true; } break;
	case 1: case 2: case 3:
	{
		size_t m = 1 + g.size(12); g.note("%zu tasks", m);
		for (size_t j = 0; j < m; ++j)
		{
			it.emplace_back(new Item); int ty = (int)g.u(1000); it.back()->type = ty; accepted.push_back(0);
			if (t->dispatch(ty, it.back().get()) == 0) { ++acc; accepted.back() = 1; }
		}
		break;
	}
	case 4: if (running && !stopped) { g.note("wait until all are done"); sh->gate = 1; PBT_CHECK(g, soon([&] { return sh->done == acc; }), "%d of %d accepted tasks are done", (int)sh->done, acc); } break;
	case 5: if (!stopped) { sh->gate = !sh->gate; g.note(sh->gate ? "workers go on" : "workers wait"); } break;
	default: if (running && !stopped && g.chance(1, 2)) { g.note("stop"); t->stop(); stopped = true; PBT_CHECK(g, soon([&] { return threads() == base; }), "%d of %d workers do not end", threads() - base, n); g.label("stopped"); }
	}
	for (size_t i = 0; i < it.size(); ++i) PBT_CHECK(g, it[i]->n <= accepted[i], "a task ran %d times, accepted %d times", (int)it[i]->n, accepted[i]);
	if (running && !stopped && g.chance(1, 3)) { sh->gate = 1; PBT_CHECK(g, soon([&] { return sh->done == acc; }), "%d of %d accepted tasks are done", (int)sh->done, acc); g.label("all done"); }
	if (running && !stopped && g.b()) { g.note("stop"); t->stop(); stopped = true; PBT_CHECK(g, soon([&] { return threads() == base; }), "%d of %d workers do not end", threads() - base, n); }
	g.note("destroy"); if (running && !stopped) g.label("destroyed while the workers run");
	t.reset(); sh->destroyed = 1; PBT_CHECK(g, soon([&] { return threads() == base; }), "%d workers are left", threads() - base); PBT_CHECK(g, !sh->bad, "a worker runs after the end, or with a wrong number");
	for (size_t i = 0; i < it.size(); ++i) PBT_CHECK(g, it[i]->n <= accepted[i], "a task ran %d times, accepted %d times", (int)it[i]->n, accepted[i]);
	if (running && acc > 2) g.nontrivial();
}
// a pool is destroyed while its workers are busy
static Shared *shared;
struct Watch { std::atomic<int> in; Watch() : in(0) {} ~Watch() { if (in) shared->bad = 1; in = -1000; } void work() { struct In { std::atomic<int> &n; In(std::atomic<int> &x) : n(x) { ++n; } ~In() { if (n < 0) shared->bad = 2; --n; } } x(in); ++shared->busy; while (!shared->gate) { if (in < 0) shared->bad = 2; nap(100); } ++shared->done; } };
struct RawW : lce::CRawWorker { Watch w; void onRequest(lce::CRawRequest &, lce::CRawResponse &) { w.work(); } };
struct AnyW : lce::CAnyWorker { Watch w; void onRequest(lce::CAnyRequest &, lce::CAnyResponse &) { w.work(); } };
struct HttpW : lce::CHttpWorker { Watch w; void onRequest(lce::CHttpRequest &, lce::CHttpResponse &) { w.work(); } };
template <class P> static void onePool(G &g, const std::string &request)
{
	PBT_CHECK(g, lce::CCommMgr::getInstance().init(50) == 0, "init"); int base = threads(); shared = new Shared; std::unique_ptr<P> p(new P); int n = 1 + g.u(4), m = g.size(20); shared->gate = g.b(); bool run = g.chance(7, 8); lce::StSession s;
	PBT_CHECK(g, p->init(n, 100) == 0, "init"); if (run) PBT_CHECK(g, p->run() == 0, "run"); for (int i = 0; i < m; ++i) p->onRead(s, request.data(), (int)request.size());
	int want = !run ? 0 : shared->gate ? m : std::min(m, n); if (g.chance(3, 4)) PBT_CHECK(g, soon([&] { return shared->busy >= want; }), "%d of %d requests are taken", (int)shared->busy, want); else if (g.b()) nap(g.u(500));
	g.note("%d workers, %d requests, %s; destroyed", n, m, shared->gate ? "served" : "held"); if (g.b()) { p->stop(); if (g.b()) PBT_CHECK(g, soon([&] { return threads() == base; }), "%d of %d workers do not end", threads() - base, n); }
	p.reset(); PBT_CHECK(g, soon([&] { return threads() == base; }), "%d workers are left", threads() - base); PBT_CHECK(g, !shared->bad, "a worker object is destroyed while it serves a request"); PBT_CHECK(g, shared->done <= m, "%d requests served of %d", (int)shared->done, m); if (m && run) g.nontrivial();
}
static void pools(G &g)
{
	switch (g.u(3))
	{
	case 0: onePool<lce::CRawWorkerPool<RawW> >(g, "x"); break;
	case 1: { lce::CAnyPackage p; p["a"] = 1; p.encode(); p.head().setLen(p.size() + 1); p.setEtx(); onePool<lce::CAnyWorkerPool<AnyW> >(g, std::string(p.data(), p.size())); break; }
	default: onePool<lce::CHttpWorkerPool<HttpW> >(g, "GET /a?b=c HTTP/1.1\r\n\r\n");
	}
}
struct Slow { static std::atomic<int> made, fail; int value; Slow() { int us = us_; nap(us); if (fail-- > 0) throw std::runtime_error("not yet"); ++made; nap(us); value = 4711; } static int us_; };
std::atomic<int> Slow::made(0), Slow::fail(0); int Slow::us_ = 0;
static void singleton(G &g)
{
	Slow::us_ = g.u(2000); Slow::fail = g.b() ? 0 : (int)g.u(4); size_t n = 2 + g.u(7); std::atomic<int> go(0); std::vector<Slow *> p(n); std::vector<int> val(n); std::vector<std::thread> t; std::atomic<int> threw(0); int fails = Slow::fail;
	for (size_t i = 0; i < n; ++i) { int d = g.b() ? 0 : (int)g.u(2000); t.emplace_back([&, i, d] { while (!go) sched_yield(); if (d) nap(d); for (;;) try { Slow &s = lce::CSingleton<Slow>::getInstance(); p[i] = &s; val[i] = s.value; break; } catch (const std::runtime_error &) { ++threw; } }); }
	go = 1; for (auto &x : t) x.join(); g.note("%zu threads, construction takes %d us and fails %d times", n, Slow::us_, fails);
	PBT_CHECK(g, Slow::made == 1, "the singleton is constructed %d times", (int)Slow::made); PBT_CHECK(g, threw == fails, "%d failed constructions, %d exceptions", fails, (int)threw); for (size_t i = 0; i < n; ++i) { PBT_CHECK(g, p[i] == p[0], "two instances are handed out"); PBT_CHECK(g, val[i] == 4711, "an instance is handed out before it is constructed"); } g.nontrivial(); g.labelIf(fails, "construction fails first");
}
// threads the system refuses: whoever asked is told, what runs goes on
struct Idle : lce::CNetWorker { int init() { return 0; } void onMessage(int, void *) {} };
static void refused(G &g)
{
	int base = threads(); noThread = 0; asked = denied = 0; uint64_t mask = 0; int n = 1 + g.u(6), kind = g.u(4); if (g.chance(3, 4)) mask |= 1ULL << g.u(n); if (g.chance(1, 4)) mask |= 1ULL << g.u(n); if (g.chance(1, 8)) mask = ~0ULL;
	static const char *const nm[] = {"threads", "task queue", "network workers", "log"}; g.note("%s (%d), refused: %llx", nm[kind], n, (unsigned long long)mask); g.label(nm[kind]);
	if (kind == 0)
	{
		std::vector<Obj> v(n); for (auto &s : v) { s.b.reset(new Body); s.t.reset(new Thr(s.b)); } noThread = mask;
		for (auto &s : v)
		{
			int d = denied; s.b->kind = g.u(2); bool ok = s.t->start() == 0; BodyP b = s.b; if (denied == d) { PBT_CHECK(g, ok, "start fails"); PBT_CHECK(g, soon([&] { return b->runs > 0; }), "the body does not run"); s.st = b->kind ? LEFT : RUNNING; continue; }
			PBT_CHECK(g, !ok, "a thread that the system refuses is said to be started"); PBT_CHECK(g, !b->runs, "a refused thread runs");
			for (int i = g.u(3); i > 0; --i) switch (g.u(3)) { case 0: PBT_CHECK(g, s.t->join() == 0, "join of a thread that was refused"); break; case 1: s.t->stop(); break; default: s.t->detach(); }
			if (g.b()) { uint64_t keep = noThread; noThread = 0; PBT_CHECK(g, s.t->start() == 0, "start fails after it was refused"); noThread = keep; PBT_CHECK(g, soon([&] { return b->runs > 0; }), "the body does not run"); s.st = b->kind ? LEFT : RUNNING; g.label("started later"); }
		}
		std::vector<BodyP> none; alive(g, v, none, "threads refused"); for (auto &s : v) { if (s.st == RUNNING && g.b()) { s.b->leave = 1; PBT_CHECK(g, s.t->join() == 0 && s.b->ended, "join"); } BodyP b = s.b; int st = s.st; s.t.reset(); if (st != FRESH) PBT_CHECK(g, soon([&] { return b->ended == 1; }), "the thread of a destroyed object does not end"); }
	}
	else if (kind == 1)
	{
		std::unique_ptr<Shared> sh(new Shared); std::unique_ptr<Task> t(new Task(sh.get(), n)); PBT_CHECK(g, t->init(n, 100) == 0, "init"); std::vector<std::unique_ptr<Item> > it; noThread = mask; int r = t->run(); PBT_CHECK(g, (r == 0) == (denied == 0), "%d of %d threads are refused, run returns %d", denied, n, r); noThread = 0;
		int k = g.u(20); for (int i = 0; i < k; ++i) { it.emplace_back(new Item); it.back()->type = i; PBT_CHECK(g, t->dispatch(i, it.back().get()) == 0, "dispatch"); } if (r == 0 || threads() > base) PBT_CHECK(g, soon([&] { return sh->done == k; }), "%d of %d tasks are done by %d threads", (int)sh->done, k, threads() - base); if (g.b()) t->stop(); t.reset(); sh->destroyed = 1; for (auto &i : it) PBT_CHECK(g, i->n <= 1, "a task runs twice");
	}
	else if (kind == 2)
	{
		auto *m = new lce::CNetWorkerMgr<Idle>; PBT_CHECK(g, m->init(n, 50) == 0, "init"); if (!(mask & ((1ULL << n) - 1))) { g.label("none refused"); return; } noThread = mask; std::atomic<int> back(0); int r = 0; std::thread t([&] { r = m->start(); back = 1; }); bool ended = soon([&] { return back == 1; }, 3000); if (!denied) { t.detach(); return; }
		if (!ended) { t.detach(); g.fail("%d of %d workers are refused and the manager runs", denied, n); } t.join(); PBT_CHECK(g, r != 0, "%d of %d workers are refused, start returns 0", denied, n); g.nontrivial(); return; // the workers that run wait for connections
	}
	else
	{
		std::string dir = scratch(); lce::CAsyncLog *l = new lce::CAsyncLog; noThread = mask; bool ok = l->init(dir + "/log", 1, 1 << 20, 3, false, 1 << 16); PBT_CHECK(g, ok == (denied == 0), "the writer of a log is %s, init returns %d", denied ? "refused" : "started", ok); noThread = 0; delete l;
	}
	PBT_CHECK(g, soon([&] { return threads() == base; }), "%d threads are left of %d", threads(), base); g.labelIf(denied, "refused"); if (denied) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"lifecycle", lifecycle, 6000, 40000, "start, join, stop, detach, destroy and restart of two to five thread objects in any order; non-trivial: three starts and a destruction in between", 30000, F_ISOLATE},
		{"tasks", tasks, 1500, 20000, "task queues that run, stop and are destroyed with waiting and running tasks; non-trivial: running and more than two tasks", 30000, F_ISOLATE},
		{"pools", pools, 1500, 20000, "worker pools of the three kinds destroyed with idle and busy workers; non-trivial: running and at least one request", 30000, F_ISOLATE},
		{"refused", refused, 2000, 20000, "threads, task queues, network workers and logs when the system refuses some of their threads; non-trivial: one refused", 30000, F_ISOLATE},
		{"singleton", singleton, 600, 8000, "two to eight threads that ask for a slow singleton at once; all non-trivial", 20000, F_ISOLATE}};
	return pbtMain(argc, argv, "C33", s);
}
