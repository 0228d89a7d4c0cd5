// C18: in-process queues deliver each item once, in order, within capacity; locks and conditions behave.
#include "pbt.h"
#include <deque>
#include <stdexcept>
#include <stdint.h>
#include <sched.h>
#include "CCircleQueue.h"
#include "CBlockQueue.h"
#include "CLock.h"
using namespace pbt; using namespace lce;
typedef std::string S;

static long long usNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
static void circle(G &g)
{
	CCircleQueue<S> q; unsigned cap = g.chance(1, 40) ? 0 : 1 + g.u(g.pick({1, 4, 30})); q.init(cap); size_t lim = cap ? cap : 1000; std::deque<S> m; unsigned id = 0; size_t n = cap ? g.size(100) : 2500; int full = 0;
	for (size_t i = 0; i < n; ++i)
	{
		if (g.chance(cap ? 5 : 9, cap ? 9 : 10)) { S s = "item" + std::to_string(id++); bool r = q.enque(s); PBT_CHECK(g, r == (m.size() < lim), "enque answers %d with %zu of %zu items", r, m.size(), lim); if (r) m.push_back(s); else ++full; }
		else { S s = "untouched"; bool r = q.deque(s); PBT_CHECK(g, r == !m.empty() && s == (m.empty() ? S("untouched") : m.front()), "deque answers %d with %s", r, s.c_str()); if (r) m.pop_front(); }
		PBT_CHECK(g, q.empty() == m.empty() && q.full() == (m.size() == lim), "empty %d full %d with %zu of %zu items", q.empty(), q.full(), m.size(), lim);
	}
	g.note("capacity %u, %zu steps", cap, n); if (full && id > 2 * lim) g.nontrivial(); g.labelIf(full, "was full");
}
static void block(G &g)
{
	int cap = g.chance(1, 40) ? 0 : 1 + (int)g.u(g.pick({1, 4, 30})); CBlockQueue<S> q(cap); size_t lim = cap ? cap : 1000; std::deque<S> m; unsigned id = 0; size_t n = g.size(100); int timeouts = 0;
	g.note("capacity %d", cap); PBT_CHECK(g, q.max_size() == (int)lim, "max_size is %d", q.max_size());
	for (size_t i = 0; i < n; ++i)
	{
		switch (g.u(12))
		{
		case 0: case 1: case 2: case 3: case 4: if (m.size() < lim) { S s = "item" + std::to_string(id++); g.note("push"); PBT_CHECK(g, q.push(s), "push fails with %zu of %zu items", m.size(), lim); m.push_back(s); } break;
		case 5: case 6: case 7: if (!m.empty()) { S s; g.note("pop"); PBT_CHECK(g, q.pop(s) && s == m.front(), "pop gives %s instead of %s", s.c_str(), m.front().c_str()); m.pop_front(); } break;
		case 8: case 9: { int t = m.empty() ? (int)g.pick({0, 1, 3, 7}) : (int)g.u(5000); if (m.empty() && timeouts > 3) break; S s = "untouched"; g.note("timed pop %d ms", t); long long a = usNow(); bool r = q.pop(s, t); long long d = usNow() - a; PBT_CHECK(g, r == !m.empty() && s == (m.empty() ? S("untouched") : m.front()), "timed pop answers %d with %s", r, s.c_str()); if (r) m.pop_front(); else { ++timeouts; PBT_CHECK(g, d >= t * 1000LL - 1500, "a pop with %d ms gave up after %lld us", t, d); } break; }
		case 10: { S f = "x", b = "x"; bool r1 = q.front(f), r2 = q.back(b); PBT_CHECK(g, r1 == !m.empty() && r2 == r1 && f == (m.empty() ? S("x") : m.front()) && b == (m.empty() ? S("x") : m.back()), "front %d %s, back %d %s", r1, f.c_str(), r2, b.c_str()); break; }
		default: if (g.chance(1, 4)) { g.note("clear"); q.clear(); m.clear(); }
		}
		PBT_CHECK(g, q.size() == (int)m.size() && q.empty() == m.empty() && q.full() == (m.size() == lim), "size %d empty %d full %d with %zu items", q.size(), q.empty(), q.full(), m.size());
	}
	if (id > lim) g.nontrivial(); g.labelIf(timeouts, "timed out");
}
// ---- threads ----
struct XRng { uint64_t x; explicit XRng(uint64_t s) : x(s | 1) {} uint32_t u(uint32_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 20) % n; } void jitter(int k) { switch (k) { case 0: break; case 1: if (!u(3)) sched_yield(); break; case 2: if (!u(4)) usleep(u(60)); break; default: if (!u(20)) usleep(u(2000)); } } };
struct Item { int p, n; };
struct Log { int p, n; };
static void spsc(G &g)
{
	static CCircleQueue<Item> *q; q = new CCircleQueue<Item>; unsigned cap = 1 + g.u(6); q->init(cap); int n = 200 + (int)g.u(g.thorough() ? 20000 : 2000); int jp = (int)g.u(4), jc = (int)g.u(4); uint64_t s1 = g.num64(), s2 = g.num64(); if (jp == 3 || jc == 3) n = std::min(n, 600);
	g.note("capacity %u, %d items, jitter %d/%d", cap, n, jp, jc);
	struct A { int n, j; uint64_t s; int bad; int at; } a = {n, jp, s1, 0, 0}, c = {n, jc, s2, 0, 0}; pthread_t t1, t2;
	pthread_create(&t1, 0, [](void *v) -> void * { A *a = (A *)v; XRng r(a->s); for (int i = 0; i < a->n;) { Item it = {i * 7 + 1, i}; if (q->enque(it)) ++i; else sched_yield(); r.jitter(a->j); } return 0; }, &a);
	pthread_create(&t2, 0, [](void *v) -> void * { A *a = (A *)v; XRng r(a->s); for (int i = 0; i < a->n;) { Item it; if (q->deque(it)) { if ((it.n != i || it.p != i * 7 + 1) && !a->bad) { a->bad = 1; a->at = i; } ++i; } else sched_yield(); r.jitter(a->j); } return 0; }, &c);
	pthread_join(t1, 0); pthread_join(t2, 0); PBT_CHECK(g, !c.bad, "item %d came out wrong", c.at); PBT_CHECK(g, q->empty(), "not empty at the end"); g.nontrivial(); delete q;
}
static CBlockQueue<Item> *Q; static int accepted, started, Cap;
struct Th { int id, n, j, mode; uint64_t seed; std::vector<Item> got; int over; long long early; int earlyT; };
static void *producer(void *v)
{
	Th *t = (Th *)v; XRng r(t->seed);
	for (int i = 0; i < t->n; ++i) { Item it = {t->id, i}; Q->push(it); int d = __sync_add_and_fetch(&accepted, 1) - __sync_fetch_and_add(&started, 0); if (d > Cap) t->over = d; if (Q->size() > Cap) t->over = Q->size(); r.jitter(t->j); }
	return 0;
}
static void *consumer(void *v)
{
	Th *t = (Th *)v; XRng r(t->seed);
	for (int i = 0; i < t->n;)
	{
		Item it; __sync_add_and_fetch(&started, 1); bool ok; int to = 0;
		if (t->mode == 0 || (t->mode == 2 && r.u(2))) { ok = Q->pop(it); if (!ok) t->early = -1; }
		else { to = r.u(6); long long a = usNow(); ok = Q->pop(it, to); long long d = usNow() - a; if (!ok && d < to * 1000LL - 1500) { t->early = d; t->earlyT = to; } }
		if (ok) { t->got.push_back(it); ++i; } else __sync_sub_and_fetch(&started, 1);
		r.jitter(t->j);
	}
	return 0;
}
static void mpmc(G &g)
{
	Cap = 1 + (int)g.u(g.pick({1, 3, 8})); Q = new CBlockQueue<Item>(Cap); accepted = started = 0; int P = 1 + (int)g.u(4), C = 1 + (int)g.u(4), total = 0; std::vector<Th> p(P), c(C);
	int mode = (int)g.u(3);
	for (int i = 0; i < P; ++i) { Th t = {i, 1 + (int)g.u(g.thorough() ? 800 : 200), (int)g.u(4), 0, g.num64(), {}, 0, 0, 0}; total += t.n; p[i] = t; }
	for (int i = 0, left = total; i < C; ++i) { Th t = {i, i == C - 1 ? left : left / (C - i), (int)g.u(4), mode, g.num64(), {}, 0, 0, 0}; left -= t.n; c[i] = t; }
	g.note("capacity %d, %d producers, %d consumers, %d items, %s", Cap, P, C, total, mode == 0 ? "blocking" : mode == 1 ? "timed" : "both");
	std::vector<pthread_t> th(P + C); for (int i = 0; i < C; ++i) pthread_create(&th[i], 0, consumer, &c[i]); for (int i = 0; i < P; ++i) pthread_create(&th[C + i], 0, producer, &p[i]);
	for (size_t i = 0; i < th.size(); ++i) pthread_join(th[i], 0);
	std::vector<std::vector<int> > seen(P); for (int i = 0; i < P; ++i) seen[i].assign(p[i].n, 0);
	for (int i = 0; i < P; ++i) PBT_CHECK(g, !p[i].over, "%d items in a queue of capacity %d", p[i].over, Cap);
	for (int i = 0; i < C; ++i)
	{
		std::vector<int> last(P, -1); PBT_CHECK(g, c[i].early >= 0, "a blocking pop answers false"); PBT_CHECK(g, !c[i].early, "a pop with %d ms gave up after %lld us", c[i].earlyT, c[i].early);
		for (size_t k = 0; k < c[i].got.size(); ++k) { Item it = c[i].got[k]; PBT_CHECK(g, it.p >= 0 && it.p < P && it.n >= 0 && it.n < p[it.p].n, "item %d/%d was never pushed", it.p, it.n); ++seen[it.p][it.n]; PBT_CHECK(g, it.n > last[it.p], "consumer %d got item %d of producer %d after item %d", i, it.n, it.p, last[it.p]); last[it.p] = it.n; }
	}
	for (int i = 0; i < P; ++i) for (int k = 0; k < p[i].n; ++k) PBT_CHECK(g, seen[i][k] == 1, "item %d of producer %d was delivered %d times", k, i, seen[i][k]);
	PBT_CHECK(g, Q->size() == 0, "%d items left", Q->size()); delete Q; if (P + C > 2 && total > 3 * Cap) g.nontrivial(); g.labelIf(C > 1, "several consumers"); g.labelIf(mode, "timed pops");
}
// an item pushed while a timed pop waits is delivered by that pop, and not only at its deadline
static void wake(G &g)
{
	Q = new CBlockQueue<Item>(1); bool pushSide = g.b(); int by = pushSide ? (int)g.u(2) : 2, delay = (int)g.u(15000); static const char *const nm[] = {"push into a full queue, which is popped", "push into a full queue, which is cleared", "pop from an empty queue"}; g.note("%s after %d us", nm[by], delay);
	struct W { int delay, by; } w = {delay, by}; pthread_t t; if (pushSide) { Item a = {0, 0}; Q->push(a); }
	int wait = 8000; pthread_create(&t, 0, [](void *v) -> void * { W *w = (W *)v; usleep(w->delay); if (w->by == 0) { Item x; Q->pop(x); } else if (w->by == 1) Q->clear(); else { Item x = {5, 6}; Q->push(x); } return 0; }, &w);
	long long a = usNow(); Item x = {7, 7}; bool ok = pushSide ? Q->push(x) : g.b() ? Q->pop(x, wait) : Q->pop(x); long long d = usNow() - a; pthread_join(t, 0);
	PBT_CHECK(g, ok && (pushSide || (x.p == 5 && x.n == 6)), "the waiting operation answers %d", ok); PBT_CHECK(g, d < 7000000, "woke after %lld us", d); PBT_CHECK(g, Q->size() == (pushSide ? 1 : 0), "%d items are left", Q->size()); g.nontrivial(); g.label(nm[by]); delete Q;
}
// an operation that fails because the item cannot be copied has no effect
static bool failCopy;
struct Frail { S s; Frail() {} Frail(const S &x) : s(x) {} Frail(const Frail &o) : s(o.s) {} Frail &operator=(const Frail &o) { if (failCopy) throw std::runtime_error("no memory"); s = o.s; return *this; } };
static void faults(G &g)
{
	int cap = 1 + (int)g.u(g.pick({1, 4, 30})), failed = 0; CBlockQueue<Frail> q(cap); std::deque<S> m; unsigned id = 0; g.note("capacity %d", cap);
	for (size_t i = 0, n = g.size(60); i < n; ++i)
	{
		failCopy = g.chance(1, 4); bool threw = false; unsigned op = g.u(4); S want = m.empty() ? "old" : m.front(); Frail x("old"), y("item" + std::to_string(id));
		if (op <= 1 && (int)m.size() >= cap) op = 2; if (op == 2 && m.empty()) op = 3;
		g.note("%s%s", op <= 1 ? "push" : op == 2 ? "pop" : "timed pop", failCopy ? ", the copy fails" : "");
		try { if (op <= 1) { ++id; PBT_CHECK(g, q.push(y), "push"); m.push_back(y.s); } else if (op == 2) { PBT_CHECK(g, q.pop(x) && x.s == want, "pop gives %s instead of %s", x.s.c_str(), want.c_str()); m.pop_front(); } else { bool r = q.pop(x, 0); PBT_CHECK(g, r == !m.empty() && x.s == want, "pop answers %d with %s", r, x.s.c_str()); if (r) m.pop_front(); } }
		catch (const std::runtime_error &) { threw = true; ++failed; } failCopy = false; PBT_CHECK(g, !threw || x.s == "old", "a failed operation gives an item");
		PBT_CHECK(g, q.size() == (int)m.size() && q.full() == ((int)m.size() == cap), "size %d with %zu items", q.size(), m.size()); Frail f("x"), b("x"); bool r = q.front(f), r2 = q.back(b); PBT_CHECK(g, r == !m.empty() && r2 == r && f.s == (r ? m.front() : "x") && b.s == (r ? m.back() : "x"), "front %s, back %s", f.s.c_str(), b.s.c_str());
	}
	if (failed && (int)id > cap) g.nontrivial();
}
// a cancelled thread (that is how CThread::stop ends one) leaves the queue usable
static void cancelled(G &g)
{
	Q = new CBlockQueue<Item>(1 + (int)g.u(3)); int cap = Q->max_size(); bool full = g.b(); int n = 1 + (int)g.u(3); std::vector<pthread_t> t(n); std::vector<int> how(n); int fill = full ? cap : 0; for (int i = 0; i < fill; ++i) { Item x = {1, i}; Q->push(x); }
	for (int i = 0; i < n; ++i) { how[i] = full ? 0 : 1 + (int)g.u(2); pthread_create(&t[i], 0, [](void *v) -> void * { Item x = {2, 2}; switch (*(int *)v) { case 0: Q->push(x); break; case 1: Q->pop(x); break; default: Q->pop(x, 60000); } return 0; }, &how[i]); }
	int us = g.b() ? 0 : (int)g.u(3000); if (us) usleep(us); g.note("%d threads in a %s queue of %d cancelled after %d us", n, full ? "full" : "empty", cap, us); for (auto &x : t) pthread_cancel(x); for (auto &x : t) pthread_join(x, 0);
	PBT_CHECK(g, Q->size() == fill, "%d items instead of %d", Q->size(), fill); for (int i = 0; i < fill; ++i) { Item x; PBT_CHECK(g, Q->pop(x, 0) && x.p == 1 && x.n == i, "item %d is lost", i); }
	Item x = {3, 4}, y; for (int i = 0; i < 2 * cap; ++i) { x.n = i; PBT_CHECK(g, Q->push(x) && Q->pop(y) && y.p == 3 && y.n == i, "the queue does not work any more"); } g.nontrivial(); delete Q;
}
// ---- locks ----
struct LK { int kind; CMutex *m; CSpinLock *s; CReadWriteLock *r; };
static LK L; static volatile int inside, readers; static int badExcl, sharedSeen, tryFail; static long counter;
struct Lt { int n, j; uint64_t seed; };
static void *locker(void *v)
{
	Lt *t = (Lt *)v; XRng r(t->seed);
	for (int i = 0; i < t->n; ++i)
	{
		if (L.kind == 2)
		{
			bool rd = r.u(2), tr = !r.u(3); bool ok = rd ? tr ? L.r->tryReadLock() : L.r->readLock() : tr ? L.r->tryWriteLock() : L.r->writeLock();
			if (!ok) { if (!tr) badExcl = 3; __sync_add_and_fetch(&tryFail, 1); continue; }
			if (rd) { int n = __sync_add_and_fetch(&readers, 1); if (n > 1) sharedSeen = 1; if (inside) badExcl = 1; r.jitter(t->j); if (inside) badExcl = 1; __sync_sub_and_fetch(&readers, 1); }
			else { if (__sync_add_and_fetch(&inside, 1) != 1 || readers) badExcl = 2; long c = counter; r.jitter(t->j); counter = c + 1; if (readers) badExcl = 2; __sync_sub_and_fetch(&inside, 1); }
			if (!L.r->unlock()) badExcl = 4; continue;
		}
		CLock *l = L.kind == 0 ? (CLock *)L.m : (CLock *)L.s; bool tr = !r.u(4); 
		if (tr) { if (!l->tryLock()) { __sync_add_and_fetch(&tryFail, 1); continue; } }
		else if (r.u(2)) { CAutoLock a(*l); if (__sync_add_and_fetch(&inside, 1) != 1) badExcl = 1; long c = counter; r.jitter(t->j); counter = c + 1; __sync_sub_and_fetch(&inside, 1); continue; }
		else if (!l->lock()) badExcl = 3;
		if (__sync_add_and_fetch(&inside, 1) != 1) badExcl = 1; long c = counter; r.jitter(t->j); counter = c + 1; __sync_sub_and_fetch(&inside, 1); if (!l->unlock()) badExcl = 4;
	}
	return 0;
}
static void locks(G &g)
{
	L.kind = (int)g.u(3); L.m = new CMutex; L.s = new CSpinLock; L.r = new CReadWriteLock; inside = readers = 0; badExcl = sharedSeen = tryFail = 0; counter = 0; int T = 2 + (int)g.u(4); std::vector<Lt> a(T); std::vector<pthread_t> th(T); const char *nm[] = {"mutex", "spin lock", "read-write lock"};
	// what try-locks answer against a held lock, without threads
	if (L.kind == 1) { L.s->lock(); PBT_CHECK(g, !L.s->tryLock(), "a held spin lock can be taken"); L.s->unlock(); PBT_CHECK(g, L.s->tryLock(), "a free spin lock cannot be taken"); L.s->unlock(); }
	if (L.kind == 0) { L.m->lock(); PBT_CHECK(g, !L.m->tryLock(), "a held mutex can be taken"); L.m->unlock(); { CAutoLock x(*L.m); PBT_CHECK(g, !L.m->tryLock(), "CAutoLock does not lock"); } PBT_CHECK(g, L.m->tryLock(), "a free mutex cannot be taken"); L.m->unlock(); }
	if (L.kind == 2) { L.r->readLock(); PBT_CHECK(g, L.r->tryReadLock() && !L.r->tryWriteLock(), "readers do not share or do not exclude writers"); L.r->unlock(); L.r->unlock(); PBT_CHECK(g, L.r->tryWriteLock() && !L.r->tryReadLock() && !L.r->tryWriteLock(), "a writer does not exclude"); L.r->unlock(); }
	for (int i = 0; i < T; ++i) { Lt t = {50 + (int)g.u(300), (int)g.u(3), g.num64()}; a[i] = t; } long want = 0; (void)want; g.note("%s, %d threads", nm[L.kind], T);
	for (int i = 0; i < T; ++i) pthread_create(&th[i], 0, locker, &a[i]); for (int i = 0; i < T; ++i) pthread_join(th[i], 0);
	PBT_CHECK(g, !badExcl, "%s: exclusion broken (%d)", nm[L.kind], badExcl); g.label(nm[L.kind]); g.labelIf(sharedSeen, "readers shared"); g.labelIf(tryFail, "a try-lock failed"); g.nontrivial(); delete L.m; delete L.s; delete L.r;
}
static void cond(G &g)
{
	static CMutex *m; static Condition *c; static int flag; m = new CMutex; c = new Condition; flag = 0; int kind = (int)g.u(3), ms = (int)g.pick({0, 1, 5, 20, 999}); if (kind == 0 && ms == 999) ms = g.chance(1, 4) ? 999 : 30; g.note("kind %d, %d ms", kind, ms);
	if (kind == 0)
	{ // nobody signals: a timed wait lasts its time (an early return is possible by the rules of condition variables, but must not be the rule)
		int tries = 0; long long d; bool r; do { m->lock(); long long a = usNow(); r = c->wait(*m, ms); d = usNow() - a; m->unlock(); } while ((r || d < ms * 1000LL - 1500) && ++tries < 5);
		PBT_CHECK(g, !r && d >= ms * 1000LL - 1500, "a wait of %d ms ended after %lld us with %d", ms, d, r); PBT_CHECK(g, d < ms * 1000LL + 8000000, "a wait of %d ms ended after %lld us", ms, d);
	}
	else
	{
		struct W { int ms; bool all; } w = {(int)g.u(10), g.b()}; pthread_t t;
		m->lock(); pthread_create(&t, 0, [](void *v) -> void * { W *w = (W *)v; usleep(w->ms * 1000); m->lock(); flag = 1; if (w->all) c->broadcast(); else c->signal(); m->unlock(); return 0; }, &w);
		long long a = usNow(); while (!flag) { bool r = kind == 1 ? c->wait(*m) : c->wait(*m, 9000); if (!r && !flag) break; } long long d = usNow() - a; int f = flag; m->unlock(); pthread_join(t, 0);
		PBT_CHECK(g, f == 1 && d < 8000000, "the waiter was not woken (%d after %lld us)", f, d);
	}
	g.nontrivial(); g.label(kind == 0 ? "timeout" : kind == 1 ? "wait" : "timed wait, signalled"); delete c; delete m;
}
// waits of many seconds, each on its own queue or condition, some woken again and again for nothing
struct Lw { int ms, kind, ok; long long took; CBlockQueue<Item> *q; CMutex m; Condition c; };
static void longWaits(G &g)
{
	int n = 40, top = g.thorough() ? 20000 : 7000; std::vector<Lw> w(n); std::vector<pthread_t> t(n); std::string how;
	for (int i = 0; i < n; ++i)
	{
		w[i].ms = g.chance(1, 3) ? (int)g.pick({999, 1000, 1001, 1999, 2000, 2001, 2999, 4000, 4095, 4096, 4097, 5000, 6000, 6999}) : (int)g.u(top); w[i].kind = (int)g.u(3); w[i].q = new CBlockQueue<Item>(1 + (int)g.u(3)); w[i].ok = -1;
		how += (w[i].kind == 2 ? " c" : w[i].kind ? " q*" : " q") + std::to_string(w[i].ms);
		pthread_create(&t[i], 0, [](void *v) -> void * { Lw *w = (Lw *)v; Item x; if (w->kind < 2) { long long a = usNow(); w->ok = w->q->pop(x, w->ms); w->took = usNow() - a; } else { w->m.lock(); long long a = usNow(); w->ok = w->c.wait(w->m, w->ms); w->took = usNow() - a; w->m.unlock(); } return 0; }, &w[i]);
	}
	g.note("waits of%s ms (q* = woken every 150 ms)", how.c_str());
	for (int k = 0; k < top / 150; ++k) { usleep(150000); for (int i = 0; i < n; ++i) if (w[i].kind == 1) w[i].q->clear(); }
	for (int i = 0; i < n; ++i) pthread_join(t[i], 0);
	int odd = 0; for (int i = 0; i < n; ++i) { bool bad = w[i].ok || w[i].took < w[i].ms * 1000LL - 1500; if (bad && w[i].kind == 2 && odd++ < 2) continue; PBT_CHECK(g, !bad, "a wait of %d ms for something that never comes ended after %lld us with %d", w[i].ms, w[i].took, w[i].ok); PBT_CHECK(g, w[i].took < w[i].ms * 1000LL + 15000000, "a wait of %d ms ended after %lld us", w[i].ms, w[i].took); }
	for (int i = 0; i < n; ++i) delete w[i].q;
	g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"circle", circle, 30000, 300000, "one thread on the circular queue against a deque; non-trivial: filled and wrapped", 10000, 0};
	Suite b = {"block", block, 4000, 60000, "one thread on the blocking queue against a deque; non-trivial: wrapped", 10000, 0};
	Suite c = {"spsc", spsc, 800, 6000, "one producer and one consumer thread on the circular queue", 15000, F_RACY};
	Suite d = {"mpmc", mpmc, 5000, 60000, "1-4 producers and 1-4 consumers on the blocking queue, exactly-once and order; non-trivial: at least three threads and thrice the capacity", 15000, F_RACY};
	Suite e = {"wake", wake, 400, 3000, "an operation waiting on a full or empty queue", 15000, F_RACY};
	Suite e2 = {"faults", faults, 8000, 100000, "blocking queue whose items sometimes cannot be copied, against a deque; non-trivial: a failure and wrapped", 10000, 0};
	Suite e3 = {"cancelled", cancelled, 800, 10000, "threads cancelled while they wait on a full or empty queue", 10000, F_ISOLATE | F_RACY};
	Suite f = {"locks", locks, 1500, 4000, "2-5 threads in critical sections under each lock", 15000, F_RACY};
	Suite h = {"cond", cond, 400, 3000, "timed and untimed waits on the condition", 15000, F_RACY};
	Suite h2 = {"longWaits", longWaits, 8, 40, "40 timed waits of up to 7 s (thorough 20 s) at once, each on its own empty queue or condition", 60000, F_RACY};
	s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d); s.push_back(h2); s.push_back(e); s.push_back(e2); s.push_back(e3); s.push_back(f); s.push_back(h);
	return pbtMain(argc, argv, "C18", s);
}
