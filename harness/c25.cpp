// REPO_SRC: src/CEvent.cpp src/CCommMgr.cpp src/CNetWorker.cpp src/CThread.cpp src/Utils.cpp
// LIBS: -lpthread
// C25: event-loop messages are delivered exactly once, in order.
#include "pbt.h"
#include "vloop.h"
#include <memory>
#include <semaphore.h>
#include <pthread.h>
#include <dlfcn.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "CCommMgr.h"
#include "CNetWorker.h"
using namespace pbt;

struct Msg { int type; void *data; int proc; };
struct World { G *g; lce::CEvent ev; std::vector<Msg> pending; size_t next, posted; int budget, depth; bool burstInHandler; World() : g(NULL), next(0), posted(0), budget(0), depth(0), burstInHandler(false) {} };
static World *W;
static void onMsg(int type, void *data);
// who delivers the messages: an event loop, the server manager or a network worker
enum { LOOP, SERVER, WORKER }; static int front = LOOP, procNo = -1;
struct Proc : lce::CProcessor { int k; void onMessage(int t, void *d) { procNo = k; onMsg(t, d); procNo = -1; } };
struct Work : lce::CNetWorker { void onMessage(int t, void *d) { onMsg(t, d); } static bool stopped; static sem_t go, back; static bool waiting() { if (!stopped) return false; stopped = false; sem_post(&back); while (sem_wait(&go)) {} return true; }
	static void *loop(void *w) { ((lce::CThread *)w)->run(); return NULL; }
	void turn() { static bool on; if (!on) { on = true; sem_init(&go, 0, 0); sem_init(&back, 0, 0); pthread_t t; pthread_create(&t, NULL, loop, (lce::CThread *)this); } else sem_post(&go); while (sem_wait(&back)) {} }
	 void onConnect(lce::StSession &, bool, void *) {} void onRead(lce::StSession &, const char *, const int) {} void onClose(lce::StSession &) {} void onError(lce::StSession &, const char *, int) {} };
bool Work::stopped; sem_t Work::go, Work::back; // a worker cannot be told to leave its loop: it has a thread of its own that rests where it waits next
static Proc procs[3]; static Work *work; static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }
static void stopLoop() { if (front == LOOP) W->ev.stop(); else if (front == SERVER) M().stop(); else Work::stopped = true; }
static void runLoop() { if (front == LOOP) W->ev.run(); else if (front == SERVER) M().start(); else work->turn(); }
static void post(G &g, int type)
{
	void *data = (void *)(uintptr_t)(++W->posted * 16 + 3); if (g.chance(1, 10)) data = NULL; int proc = front == SERVER ? (int)g.u(3) : -1; W->pending.push_back(Msg{type, data, proc});
	int r;
	if (front == SERVER) { if (g.chance(1, 20)) PBT_CHECK(g, M().sendMessage(type, NULL, data) == -1, "a message without a processor is accepted"); r = M().sendMessage(type, &procs[proc], data); }
	else if (front == WORKER) r = work->sendMessage(type, data);
	else if (W->posted % 3) r = W->ev.addMessage(type, onMsg, data);
	else { void *want = data; r = W->ev.addMessage(type, [want](int t, void *d) { PBT_CHECK(*W->g, d == want, "a message runs the handler of another"); onMsg(t, d); }, data); }
	PBT_CHECK(g, r == 0, "posting message %zu fails (%d)", W->posted, r);
}
static void onMsg(int type, void *data)
{
	G &g = *W->g;
	PBT_CHECK(g, W->next < W->pending.size(), "a message is delivered that was not posted, or a second time (type %d)", type);
	Msg &m = W->pending[W->next++];
	PBT_CHECK(g, m.type == type && m.data == data, "message %zu is due (type %d), delivered is type %d data %lu", W->next - 1, m.type, type, (unsigned long)((uintptr_t)data / 16));
	PBT_CHECK(g, m.proc == procNo, "message %zu of processor %d is given to %d", W->next - 1, m.proc, procNo);
	if (W->budget > 0 && W->depth == 0 && (W->next % 7) == 3)
	{
		++W->depth; --W->budget; size_t n = g.chance(1, 50) ? 60000 + g.u(10000) : g.u(4); if (n > 1000) { g.note("  %zu messages posted by a handler", n); W->burstInHandler = true; } for (size_t i = 0; i < n; ++i) post(g, (int)g.range(-5, 5)); --W->depth;
	}
}
static void history(G &g)
{
	std::unique_ptr<World> w(new World); W = w.get(); W->g = &g; for (int i = 0; i < 3; ++i) procs[i].k = i; if (front == WORKER) work = new Work; PBT_CHECK(g, (front == LOOP ? W->ev.init(256) : front == SERVER ? M().init(100) : ((lce::CNetWorker *)work)->init(100)) == 0, "init"); W->budget = g.u(20);
	vloop::g_wait = [](int, int r) { if (Work::waiting()) return; if (r == 0) stopLoop(); }; // nothing ready: the loop would sleep
	bool big = false;
	for (size_t i = 0, n = 1 + g.size(20); i < n; ++i)
	{
		if (g.chance(1, 3)) { g.note("run the loop"); runLoop(); PBT_CHECK(g, W->next == W->pending.size(), "%zu of %zu messages were delivered before the loop went to sleep", W->next, W->pending.size()); }
		else { size_t k = g.chance(1, 40) ? 65000 + g.u(70000) : g.chance(1, 6) ? g.u(3000) : g.u(5); g.note("post %zu", k); if (k > 60000) big = true; for (size_t j = 0; j < k; ++j) post(g, (int)(j % 3 ? j : (size_t)g.range(-2147483647 - 1, 2147483647))); }
	}
	runLoop(); PBT_CHECK(g, W->next == W->pending.size(), "%zu of %zu messages were delivered", W->next, W->pending.size());
	g.labelIf(big, "burst over 65000"); g.labelIf(W->burstInHandler, "burst posted by a handler"); if (W->posted > 5) g.nontrivial();
	vloop::g_wait = nullptr; W = NULL;
}
static void server(G &g) { front = SERVER; history(g); }
static void worker(G &g) { front = WORKER; history(g); }
// a handler that keeps posting does not keep timers, sockets or stop() from being served
struct Spin { G *g; lce::CEvent *ev; uint64_t n; bool timer, fd; int fan; };
static Spin *S;
static void spin(int, void *) { if (++S->n > 300000) S->g->fail("%lu messages were delivered while a due timer (%s) and a readable descriptor (%s) wait", (unsigned long)S->n, S->timer ? "served" : "not served", S->fd ? "served" : "not served"); vloop::g_us += 100; for (int i = 0; i < S->fan; ++i) if (S->n < 200000 || i == 0) S->ev->addMessage(1, spin, NULL); S->fan = 1; if (S->timer && S->fd) S->ev->stop(); }
static void fairness(G &g)
{
	lce::CEvent ev; Spin s = {&g, &ev, 0, false, false, 1 + (int)g.u(3)}; S = &s; ev.init(256); int p[2]; if (pipe(p)) _exit(99); 
	uint32_t d = g.u(50); g.note("a handler reposts itself; timer in %u ms, fan %d", d, s.fan);
	vloop::g_wait = [](int, int) {};
	ev.addTimer(5, d, [](int, void *) { S->timer = true; }, NULL); ev.addFdEvent(p[0], lce::CEvent::EV_READ, [](int fd, void *) { char c[8]; if (read(fd, c, 8) > 0) S->fd = true; }, NULL); ev.addMessage(1, spin, NULL);
	if (write(p[1], "x", 1) != 1) _exit(99);
	ev.run(); PBT_CHECK(g, s.timer && s.fd, "the loop ended early"); ev.delFdEvent(p[0], lce::CEvent::EV_READ); close(p[0]); close(p[1]); g.nontrivial(); vloop::g_wait = nullptr;
}
// timers that are armed again without delay do not keep messages or sockets from being served either
static void timers(G &g)
{
	lce::CEvent ev; int n = 1 + g.u(3); Spin s = {&g, &ev, 0, false, false, n}; S = &s; ev.init(256); int p[2]; if (pipe(p)) _exit(99); static int step; step = g.pick({50, 400, 1000, 1700}); static bool msg; msg = false;
	g.note("%d timers arm themselves again without delay, %d us per handler", n, step); vloop::g_wait = [](int, int) {};
	static std::function<void(int, void *)> again; again = [](int id, void *) { if (++S->n > 100000) S->g->fail("timers fired %lu times while a message (%s) and a readable descriptor (%s) wait", (unsigned long)S->n, msg ? "served" : "not served", S->fd ? "served" : "not served"); vloop::g_us += step; S->ev->addTimer(id, 0, again, NULL); };
	for (int i = 0; i < n; ++i) ev.addTimer(i, 0, again, NULL);
	ev.addFdEvent(p[0], lce::CEvent::EV_READ, [](int fd, void *) { char c[8]; if (read(fd, c, 8) > 0) S->fd = true; if (msg) S->ev->stop(); }, NULL); if (write(p[1], "x", 1) != 1) _exit(99); ev.addMessage(1, [](int, void *) { msg = true; if (S->fd) S->ev->stop(); }, NULL);
	ev.run(); PBT_CHECK(g, msg && s.fd, "the loop ended early"); ev.delFdEvent(p[0], lce::CEvent::EV_READ); close(p[0]); close(p[1]); g.nontrivial(); vloop::g_wait = nullptr; again = nullptr;
}
// another thread posts exactly when the loop's thread takes or gives back a lock or reads the pipe
struct Between { lce::CEvent *ev; std::vector<int> at; size_t next; int point, posted, got, bad; std::mutex m; std::condition_variable c; int want, done, idle; bool quit; };
static Between *BT; static thread_local bool t_loop;
static void onBetween(int type, void *data) { if (type != 7 || data != (void *)(uintptr_t)(BT->got + 1)) BT->bad = BT->got + 1; ++BT->got; }
static void point()
{
	if (!t_loop || !BT) return; Between &b = *BT; ++b.point; if (b.next >= b.at.size() || b.at[b.next] > b.point) return; ++b.next;
	t_loop = false; { std::unique_lock<std::mutex> l(b.m); ++b.want; b.c.notify_all(); b.c.wait_for(l, std::chrono::milliseconds(60), [&] { return b.done == b.want; }); } t_loop = true; // may have to wait for a lock that is held here
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) { typedef int (*F)(pthread_mutex_t *); static F f = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock"); point(); int r = f(m); return r; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) { typedef int (*F)(pthread_mutex_t *); static F f = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); point(); return r; }
static void between(G &g)
{
	lce::CEvent ev; ev.init(64); Between b; b.ev = &ev; b.next = 0; b.point = b.posted = b.got = b.bad = b.want = b.done = b.idle = 0; b.quit = false; BT = &b;
	for (size_t i = 0, n = 1 + g.u(5), k = 0; i < n; ++i) b.at.push_back(k += 1 + g.u(g.chance(1, 4) ? 30 : 6));
	std::unique_ptr<World> w(new World); W = w.get(); W->g = &g; size_t first = 1 + g.u(4); std::string s; for (int k : b.at) s += " " + std::to_string(k); g.note("%zu messages, then one at each of the points%s", first, s.c_str());
	std::thread t([&b] { for (;;) { { std::unique_lock<std::mutex> l(b.m); b.c.wait(l, [&] { return b.quit || b.want > b.done; }); if (b.want == b.done) return; } b.ev->addMessage(7, onBetween, (void *)(uintptr_t)++b.posted); { std::unique_lock<std::mutex> l(b.m); ++b.done; b.c.notify_all(); } } });
	for (size_t i = 0; i < first; ++i) ev.addMessage(1, [](int, void *) { ++W->next; }, NULL);
	vloop::g_wait = [](int, int r) { if (r) return; t_loop = false; { std::unique_lock<std::mutex> l(BT->m); BT->c.wait(l, [] { return BT->done == BT->want; }); } if (BT->idle == BT->want + 1) BT->ev->stop(); else BT->idle = BT->want + 1; t_loop = true; }; // twice idle, nothing posted between
	int posted, got; t_loop = true; ev.run(); t_loop = false; posted = b.posted; got = b.got; { std::unique_lock<std::mutex> l(b.m); b.quit = true; b.c.notify_all(); } t.join(); BT = NULL; vloop::g_wait = nullptr; size_t run = W->next; W = NULL;
	PBT_CHECK(g, run == first, "%zu of %zu messages were delivered before the loop went to sleep", run, first); PBT_CHECK(g, !b.bad, "the message %d posted from the other thread is not the one delivered", b.bad);
	PBT_CHECK(g, got == posted, "%d of %d messages posted while the loop worked were delivered before it went to sleep", got, posted); if (b.next) g.nontrivial();
}
// many threads post while the loop runs in another
struct Poster { lce::CEvent *ev; int id, n; unsigned gap; };
struct Recv { G *g; std::vector<std::vector<unsigned char> > seen; std::vector<int> next; volatile int total; int bad, badA, badB; };
static Recv *R;
static void onPosted(int type, void *data)
{
	int b = (int)(uintptr_t)data; Recv &r = *R; 
	if (type < 0 || type >= (int)r.next.size() || b != r.next[type]) { if (!r.bad) { r.bad = 1; r.badA = type; r.badB = b; } } else ++r.next[type];
	__sync_fetch_and_add(&r.total, 1);
}
static void *poster(void *p) { Poster *t = (Poster *)p; for (int i = 0; i < t->n; ++i) { if (t->ev->addMessage(t->id, onPosted, (void *)(uintptr_t)i)) abort(); if (t->gap && i % t->gap == 0) sched_yield(); } return NULL; }
static void *looper(void *p) { ((lce::CEvent *)p)->run(); return NULL; }
static void threads(G &g)
{
	vloop::g_wait = nullptr; lce::CEvent ev; ev.init(64); int n = 1 + g.u(6), tot = 0; std::vector<Poster> ps(n); std::vector<pthread_t> id(n); pthread_t lp; bool late = g.chance(1, 4), big = g.chance(1, 6);
	Recv r = {&g, {}, std::vector<int>(n, 0), 0, 0, 0, 0}; R = &r;
	for (int i = 0; i < n; ++i) { ps[i] = Poster{&ev, i, (int)(big ? 20000 + g.u(20000) : 1 + g.u(3000)), (unsigned)g.u(20)}; tot += ps[i].n; }
	g.note("%d posters, %d messages, loop started %s", n, tot, late ? "late" : "first");
	if (!late) pthread_create(&lp, NULL, looper, &ev);
	for (int i = 0; i < n; ++i) pthread_create(&id[i], NULL, poster, &ps[i]);
	if (late) { if (g.b()) for (int i = 0; i < n; ++i) pthread_join(id[i], NULL), id[i] = 0; pthread_create(&lp, NULL, looper, &ev); }
	for (int i = 0; i < n; ++i) if (id[i]) pthread_join(id[i], NULL);
	uint64_t t0 = nowMs(); while (r.total < tot && nowMs() - t0 < 8000) { struct timespec ts = {0, 200000}; nanosleep(&ts, NULL); }
	ev.addMessage(0, [](int, void *d) { ((lce::CEvent *)d)->stop(); }, &ev); pthread_join(lp, NULL);
	PBT_CHECK(g, !r.bad, "poster %d: message %d where %d is due", r.badA, r.badB, r.badA >= 0 && r.badA < n ? r.next[r.badA] : -1);
	PBT_CHECK(g, r.total == tot, "%d of %d messages were delivered", (int)r.total, tot);
	g.labelIf(tot > 65536, "over 65536 messages"); if (n > 1) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"history", history, 3000, 40000, "bursts up to 135000 messages posted from outside and from handlers; non-trivial: over five messages", 8000, 0},
		{"server", server, 1500, 20000, "the same through the server manager with three processors; non-trivial: as above", 8000, F_ISOLATE},
		{"worker", worker, 1500, 20000, "the same through a network worker; non-trivial: as above", 8000, F_ISOLATE},
		{"fairness", fairness, 300, 3000, "self-reposting handlers against a due timer and a readable pipe", 20000, 0},
		{"timers", timers, 300, 3000, "timers armed again without delay against a message and a readable pipe", 20000, 0},
		{"between", between, 4000, 40000, "a second thread posts at generated points between the locks taken by the loop; non-trivial: one was posted there", 15000, F_RACY},
		{"threads", threads, 300, 5000, "concurrent posters, some before the loop starts; non-trivial: two posters", 15000, F_RACY}};
	return pbtMain(argc, argv, "C25", s);
}
