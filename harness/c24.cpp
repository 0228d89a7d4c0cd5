// SCALE: 2.5
// REPO_SRC: src/CEvent.cpp src/CCommMgr.cpp src/CNetWorker.cpp src/CThread.cpp src/Utils.cpp
// LIBS: -lpthread
// C24: timers fire once, on time, in deadline order.
#include "pbt.h"
#include "vloop.h"
#include <memory>
#include <semaphore.h>
#include "CCommMgr.h"
#include "CNetWorker.h"
using namespace pbt;

struct Armed { int64_t due; void *data; uint64_t seq; int proc; };
struct World
{
	G *g; lce::CEvent ev; std::map<int, Armed> armed; uint64_t seq, fired, rearmedInHandler, cancelledDue; int64_t handlerMs; int budget, depth; bool fromData; int waits, maxWaits; int64_t maxDelay; bool inBatch; int64_t lastDue;
	World() : g(NULL), seq(0), fired(0), rearmedInHandler(0), cancelledDue(0), handlerMs(0), budget(0), depth(0), fromData(false), waits(0), maxWaits(0), maxDelay(0), inBatch(false), lastDue(0) {}
};
static World *W;
static const int IDS[] = {0, 1, 2, 3, 7, -1, -2147483647 - 1, 2147483647, 100, 101, 102, 103, 104, 105, 106};
static void onTimer(int id, void *data);
// who drives the timers: an event loop, the server manager or a network worker
enum { LOOP, SERVER, WORKER }; static int front = LOOP, procNo = -1;
struct Proc : lce::CProcessor { int k; void onTimer(int id, void *d) { procNo = k; ::onTimer(id, d); procNo = -1; } void onMessage(int, void *) { lce::CCommMgr::getInstance().stop(); } };
struct Work : lce::CNetWorker { void onTimer(int id, void *d) { ::onTimer(id, d); } void onMessage(int, void *) { halt(); } static bool stopped; static void halt() { stopped = true; } static sem_t go, back; static bool waiting() { if (!stopped) return false; stopped = false; sem_post(&back); while (sem_wait(&go)) {} return true; }
	static void *loop(void *w) { ((lce::CThread *)w)->run(); return NULL; }
	void turn() { static bool on; if (!on) { on = true; sem_init(&go, 0, 0); sem_init(&back, 0, 0); pthread_t t; pthread_create(&t, NULL, loop, (lce::CThread *)this); } else sem_post(&go); while (sem_wait(&back)) {} }
	 void onConnect(lce::StSession &, bool, void *) {} void onRead(lce::StSession &, const char *, const int) {} void onClose(lce::StSession &) {} void onError(lce::StSession &, const char *, int) {} };
bool Work::stopped; sem_t Work::go, Work::back; // a worker cannot be told to leave its loop: it has a thread of its own that rests where it waits next
static Proc procs[3]; static Work *work; static lce::CCommMgr &M() { return lce::CCommMgr::getInstance(); }
static void stopLoop() { if (front == LOOP) W->ev.stop(); else if (front == SERVER) M().stop(); else work->halt(); }
static void runLoop() { if (front == LOOP) W->ev.run(); else if (front == SERVER) M().start(); else work->turn(); }
static void postStop() { if (front == LOOP) W->ev.addMessage(1, [](int, void *) { W->ev.stop(); }, NULL); else if (front == SERVER) M().sendMessage(1, &procs[W->g->u(3)], NULL); else work->sendMessage(1, NULL); }
static int cancel(int id) { return front == LOOP ? W->ev.delTimer(id) : front == SERVER ? M().delTimer(id) : work->delTimer(id); }
static void action(G &g)
{
	int id = IDS[g.u(g.b() ? 5 : 15)];
	switch (g.u(7))
	{
	case 0: case 1: case 2: case 3:
	{
		uint32_t delay; switch (g.u(8)) { case 0: delay = W->depth ? 1 : 0; break; case 1: delay = 1 + g.u(3); break; case 2: delay = 3000 + g.range(-2, 2); break; case 3: delay = g.chance(1, 4) ? (uint32_t)g.num64() : g.u(100000); break; default: delay = 1 + g.u(40); }
		if (W->depth && g.chance(1, 5) && W->budget > 0) { --W->budget; delay = 0; }
		void *data = (void *)(uintptr_t)(++W->seq); g.note("%s arm %d in %u ms, data %lu", W->depth ? "  (handler)" : "", id, delay, (unsigned long)W->seq);
		if (W->depth) ++W->rearmedInHandler; g.labelIf(W->armed.count(id), "re-armed while armed"); g.labelIf(delay > 0x7fffffffu, "delay over 2^31 ms");
		int r, proc = -1; if (g.chance(1, 10)) data = NULL;
		if (front == SERVER) { proc = g.u(3); if (g.chance(1, 10)) PBT_CHECK(g, M().addTimer(id, delay, NULL, data) == -1, "a timer without a processor is accepted"); r = M().addTimer(id, delay, &procs[proc], data); }
		else if (front == WORKER) r = work->addTimer(id, delay, data);
		else if (g.b()) r = W->ev.addTimer(id, delay, onTimer, data);
		else { uint64_t want = (uint64_t)(uintptr_t)data; r = W->ev.addTimer(id, delay, [want](int i, void *d) { PBT_CHECK(*W->g, (uint64_t)(uintptr_t)d == want, "timer %d runs the handler of an older arming", i); onTimer(i, d); }, data); }
		PBT_CHECK(g, r == 0, "addTimer returns %d", r);
		W->armed[id] = Armed{vloop::ms() + delay, data, W->seq, proc}; W->maxDelay = std::max<int64_t>(W->maxDelay, delay);
		break;
	}
	case 4: case 5:
	{
		g.note("%s cancel %d%s", W->depth ? "  (handler)" : "", id, W->armed.count(id) ? "" : " (not armed)");
		if (W->armed.count(id) && W->armed[id].due <= vloop::ms()) ++W->cancelledDue;
		PBT_CHECK(g, cancel(id) == 0, "delTimer fails"); W->armed.erase(id); break;
	}
	default:
		if (g.chance(1, 8) && !W->depth) { int64_t back = g.u(50); g.note("clock back %ld ms", (long)back); vloop::g_us -= back * 1000; break; }
		int64_t d = g.chance(1, 3) ? g.u(5) : g.u(60); g.note("%s clock +%ld ms", W->depth ? "  (handler)" : "", (long)d); vloop::g_us += d * 1000 + g.u(999); if (W->depth) W->handlerMs += d + 1;
	}
}
static void onTimer(int id, void *data)
{
	G &g = *W->g; ++W->fired; auto it = W->armed.find(id);
	g.note("  fires %d data %lu", id, (unsigned long)(uintptr_t)data);
	PBT_CHECK(g, it != W->armed.end(), "timer %d fires though it is not armed (cancelled, or fired already)", id);
	PBT_CHECK(g, it->second.data == data, "timer %d fires with data %lu, armed with %lu", id, (unsigned long)(uintptr_t)data, (unsigned long)it->second.seq);
	PBT_CHECK(g, it->second.proc == procNo, "timer %d of processor %d is given to %d", id, it->second.proc, procNo);
	PBT_CHECK(g, it->second.due <= vloop::ms(), "timer %d fires %ld ms before its deadline", id, (long)(it->second.due - vloop::ms()));
	for (auto &a : W->armed) PBT_CHECK(g, a.second.due >= it->second.due, "timer %d (due %ld) fires before timer %d (due %ld)", id, (long)it->second.due, a.first, (long)a.second.due);
	W->armed.erase(it);
	++W->depth; for (size_t i = 0, n = g.chance(1, 2) ? g.u(3) : 0; i < n; ++i) action(g); --W->depth;
}
static void step(G &g)
{
	int64_t now = vloop::ms(); W->handlerMs = 0;
	postStop(); runLoop();
	for (auto &a : W->armed) PBT_CHECK(g, a.second.due > now, "timer %d was due %ld ms ago and did not fire", a.first, (long)(now - a.second.due));
}
static int64_t earliest() { int64_t d = INT64_MAX; for (auto &a : W->armed) d = std::min(d, a.second.due); return d; }
static void prepare(G &g) { vloop::g_us = 1700000000000000LL + (int64_t)g.u(1000000); delete W; W = new World; W->g = &g; vloop::g_wait = nullptr; W->budget = 10; for (int i = 0; i < 3; ++i) procs[i].k = i; if (front == SERVER) PBT_CHECK(g, M().init(100) == 0, "init"); else if (front == WORKER) { work = new Work; PBT_CHECK(g, ((lce::CNetWorker *)work)->init(100) == 0, "init"); } else if (W->ev.init(256)) { perror("init"); _exit(99); } }
// the loop runs one iteration at a time, the clock is moved in between
static void stepped(G &g)
{
	prepare(g); vloop::g_wait = [](int, int) { Work::waiting(); };
	for (size_t i = 0, n = 1 + g.size(80); i < n; ++i) { if (g.chance(1, 4)) { g.note("run the loop"); step(g); } else action(g); }
	vloop::g_us += (W->maxDelay + 1000) * 1000; for (int i = 0; i < 40 && !W->armed.empty(); ++i) { step(g); vloop::g_us += (W->maxDelay + 1000) * 1000; }
	g.labelIf(W->rearmedInHandler, "armed inside a handler"); g.labelIf(W->cancelledDue, "cancelled after the deadline"); if (W->fired > 2 && W->seq > 3) g.nontrivial();
	delete W; W = NULL;
}
// the loop sleeps by itself: time passes only while it waits, so lateness shows
static void sleeping(G &g)
{
	prepare(g); W->maxWaits = 60;
	vloop::g_wait = [](int timeout, int ready) {
		if (Work::waiting()) return; G &gg = *W->g; int64_t now = vloop::ms(), due = earliest(); ++W->waits;
		if (due != INT64_MAX)
		{
			PBT_CHECK(gg, timeout >= 0, "the loop waits without a limit (%d) though a timer is due in %ld ms", timeout, (long)(due - now));
			PBT_CHECK(gg, timeout <= std::max<int64_t>(0, due - now) + W->handlerMs, "the loop waits %d ms though a timer is due in %ld ms (%ld ms were spent in handlers)", timeout, (long)(due - now), (long)W->handlerMs);
		}
		W->handlerMs = 0;
		if (ready <= 0) { int64_t adv = timeout < 0 ? 3000 : timeout; if (due != INT64_MAX && W->waits > 5 && due - now > 20000 && adv <= 3000 && adv > 0) adv = (due - now - 1500) / adv * adv; if (adv > 0) vloop::g_us += adv * 1000; }
		if (W->armed.empty() || W->waits >= W->maxWaits) stopLoop();
	};
	for (int round = 0; round < 3; ++round)
	{
		for (size_t i = 0, n = 1 + g.size(20); i < n; ++i) action(g);
		if (W->armed.empty()) { if (front == LOOP) W->ev.addTimer(1, 10, onTimer, NULL); else if (front == SERVER) M().addTimer(1, 10, &procs[2]); else work->addTimer(1, 10); W->armed[1] = Armed{vloop::ms() + 10, NULL, 0, front == SERVER ? 2 : -1}; }
		g.note("run until idle"); W->waits = 0; runLoop();
	}
	g.labelIf(W->waits >= W->maxWaits, "still armed at the end");
	g.labelIf(W->rearmedInHandler, "armed inside a handler"); if (W->fired > 3) g.nontrivial();
	vloop::g_wait = nullptr; delete W; W = NULL;
}
static void server(G &g) { front = SERVER; if (g.b()) stepped(g); else sleeping(g); }
static void worker(G &g) { front = WORKER; if (g.b()) stepped(g); else sleeping(g); }
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"stepped", stepped, 12000, 200000, "arm, re-arm, cancel and clock movement, also inside handlers, with the loop stepped; non-trivial: three firings and four armings", 10000, 0},
		{"sleeping", sleeping, 10000, 150000, "the loop's own waits drive a virtual clock, so waiting too long is visible; non-trivial: four firings", 10000, 0},
		{"server", server, 4000, 50000, "either of these through the server manager with three processors; non-trivial: as above", 10000, F_ISOLATE},
		{"worker", worker, 4000, 50000, "either of these through a network worker; non-trivial: as above", 10000, F_ISOLATE}};
	return pbtMain(argc, argv, "C24", s);
}
