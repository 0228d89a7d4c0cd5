// REPO_SRC: src/Utils.cpp
// C19: the cache is an exact LRU map with expiry.
#include "pbt.h"
#include <list>
#include <stdint.h>
#include "CLruCache.h"
using namespace pbt; using namespace lce;
typedef std::string S;
static time_t g_now = 1700000000; static bool g_fake = false;
#define FAKE_NOW g_fake ? g_now : 0
#include "fakeclock.h"

template <class K> K key(unsigned i);
template <> S key<S>(unsigned i) { return "key-" + std::to_string(i); }
template <> unsigned key<unsigned>(unsigned i) { return i * 2654435761u; }
struct Ent { unsigned k; S v; time_t set; uint32_t exp; };
typedef std::list<Ent> L; // front is the most recent
static L::iterator find(L &l, unsigned k) { L::iterator i = l.begin(); while (i != l.end() && i->k != k) ++i; return i; }

// A reference LRU map.  How many entries one insertion drops (at most CACHE_REMOVE_NUM) is read off the sizes;
// which ones they may be is decided here: the least recently used.
template <class K> static void single(G &g)
{
	g_fake = true; g_now = 1700000000; size_t max = g.chance(1, 30) ? 0 : 1 + g.u(g.pick({2, 10, 70, 200}));
	bool def = max == 0; CLruCache<K, S> *c = def ? new CLruCache<K, S> : new CLruCache<K, S>(max); struct Del { CLruCache<K, S> *c; ~Del() { delete c; } } del = {c}; if (def) max = 10000;
	PBT_CHECK(g, c->getMaxSize() == max, "the maximum is %zu instead of %zu", c->getMaxSize(), max);
	L m; unsigned space = (unsigned)std::min<size_t>(max, 300) * g.pick({1, 2, 4}) + 1; size_t n = g.size(g.chance(1, 4) ? 700 : 90), drops = 0, expired = 0, hits = 0, upd = 0, v = 0; bool expOk = g.chance(2, 3); g.note("maximum %zu, %u keys, %zu operations", max, space, n); bool verbose = n < 150;
	for (size_t i = 0; i < n; ++i)
	{
		unsigned k = g.chance(1, 4) && !m.empty() ? (g.b() ? m.back().k : m.front().k) : g.u(space); L::iterator it = find(m, k); unsigned op = g.u(20);
		if (op < 10)
		{
			S val = "v" + std::to_string(v++); uint32_t exp = expOk && g.chance(1, 3) ? (g.chance(1, 4) ? 0xffffffffu - (g.b() ? 0 : g.u(2600000000u)) : (uint32_t)g.pick({1, 2, 5, 60, 4000000})) : 0; size_t before = c->getSize();
			PBT_CHECK(g, c->set(key<K>(k), val, exp), "set fails"); size_t after = c->getSize(); if (verbose) g.note("set %u expiry %u: %zu -> %zu entries", k, exp, before, after);
			Ent e = {k, val, g_now, exp};
			PBT_CHECK(g, after <= max, "%zu entries in a cache of at most %zu", after, max);
			if (it != m.end()) { ++upd; PBT_CHECK(g, after == before, "replacing the value of a key changes the number of entries from %zu to %zu", before, after); m.erase(it); m.push_front(e); }
			else
			{
				PBT_CHECK(g, after <= before + 1 && after >= 1, "an insertion changes the number of entries from %zu to %zu", before, after); size_t d = before + 1 - after;
				if (d) { ++drops; PBT_CHECK(g, before >= max && d <= CACHE_REMOVE_NUM, "an insertion into %zu of at most %zu entries drops %zu", before, max, d); }
				while (d--) m.pop_back(); m.push_front(e);
			}
		}
		else if (op < 15)
		{
			S val = "untouched"; bool r = c->get(key<K>(k), val); if (verbose) g.note("get %u -> %d %s", k, r, val.c_str());
			if (it == m.end()) PBT_CHECK(g, !r && val == "untouched", "a key that is not there gives %s", val.c_str());
			else if (it->exp && g_now - it->set > (time_t)it->exp) { ++expired; PBT_CHECK(g, !r, "an entry %lld s old with an expiry of %u s is returned", (long long)(g_now - it->set), it->exp); m.erase(it); }
			else { ++hits; PBT_CHECK(g, r && val == it->v, "key %u gives %s instead of %s", k, r ? val.c_str() : "nothing", it->v.c_str()); m.splice(m.begin(), m, it); }
		}
		else if (op < 17) { if (verbose) g.note("del %u", k); c->del(key<K>(k)); if (it != m.end()) m.erase(it); }
		else if (op < 19) { int d = (int)g.pick({0, 1, 1, 2, 5, 70, 100000}); g_now += d; if (verbose) g.note("clock +%d", d); }
		else if (g.chance(1, 8)) { if (verbose) g.note("clear"); c->clear(); m.clear(); }
		PBT_CHECK(g, c->getSize() == m.size(), "%zu entries instead of %zu", c->getSize(), m.size());
	}
	// everything that should be there still is; from the oldest to the newest, so that nothing is hidden by the lookups
	for (unsigned k = 0; k < space; ++k)
	{
		L::iterator it = find(m, k); S val; bool r = c->get(key<K>(k), val), want = it != m.end() && !(it->exp && g_now - it->set > (time_t)it->exp);
		PBT_CHECK(g, r == want && (!r || val == it->v), "at the end key %u gives %s instead of %s", k, r ? val.c_str() : "nothing", want ? it->v.c_str() : "nothing");
	}
	g.labelIf(drops, "entries dropped"); g.labelIf(expired, "expired"); g.labelIf(upd, "value replaced"); if (drops && hits) g.nontrivial();
}
// the sharded variant: never more than the maximum, every lookup right, and exactly as many keys missing as the sizes say
template <class K> static void sharded(G &g)
{
	g_fake = true; g_now = 1700000000; size_t max = 32 + g.u(g.pick({10, 300, 3000})); CLruCacheV2<K, S> c(max); std::map<unsigned, Ent> m; unsigned space = (unsigned)max * g.pick({1, 2}) + 1; size_t n = g.size(1500), lost = 0, expired = 0, v = 0; g.note("maximum %zu, %u keys, %zu operations", max, space, n); PBT_CHECK(g, c.getMaxSize() == max, "the maximum is %zu", c.getMaxSize());
	size_t size = 0; unsigned mru = ~0u;
	for (size_t i = 0; i < n; ++i)
	{
		unsigned k = g.u(space), op = g.u(20); 
		if (op < 12)
		{
			S val = "v" + std::to_string(v++); uint32_t exp = g.chance(1, 5) ? (g.chance(1, 5) ? 0xffffffffu - g.u(2) * g.u(2600000000u) : 1 + g.u(30)) : 0; c.set(key<K>(k), val, exp); size_t a = c.getSize(); PBT_CHECK(g, a <= max, "%zu entries in a cache of at most %zu", a, max); PBT_CHECK(g, a <= size + 1 && a + CACHE_REMOVE_NUM >= size, "an insertion changes the number of entries from %zu to %zu", size, a);
			Ent e = {k, val, g_now, exp}; if (a < size + 1 && !m.count(k)) PBT_CHECK(g, size >= max / CACHE_LOCK_NUM, "entries are dropped from %zu of at most %zu", size, max); m[k] = e; size = a; lost = m.size() - a; mru = k;
		}
		else if (op < 17)
		{
			S val; bool r = c.get(key<K>(k), val); bool have = m.count(k) > 0, ex = have && m[k].exp && g_now - m[k].set > (time_t)m[k].exp;
			if (!have || ex) PBT_CHECK(g, !r, "key %u gives %s although it %s", k, val.c_str(), ex ? "expired" : "is not there");
			else if (r) { PBT_CHECK(g, val == m[k].v, "key %u gives %s instead of %s", k, val.c_str(), m[k].v.c_str()); mru = k; }
			else PBT_CHECK(g, lost > 0 && k != mru, "key %u is lost although nothing was dropped", k);
			if (have && !r) { m.erase(k); size = c.getSize(); PBT_CHECK(g, m.size() >= size, "%zu entries for %zu keys", size, m.size()); lost = m.size() - size; expired += ex; }
		}
		else if (op < 19) { c.del(key<K>(k)); m.erase(k); size = c.getSize(); PBT_CHECK(g, m.size() >= size, "%zu entries for %zu keys", size, m.size()); lost = m.size() - size; S val; PBT_CHECK(g, !c.get(key<K>(k), val), "a deleted key is still there"); }
		else if (g.chance(1, 40)) { c.clear(); m.clear(); size = lost = 0; PBT_CHECK(g, c.getSize() == 0, "not empty after clear"); } else g_now += g.u(8);
	}
	size_t miss = 0; for (std::map<unsigned, Ent>::iterator it = m.begin(); it != m.end(); ++it)
	{
		S val; if (it->second.exp && g_now - it->second.set > (time_t)it->second.exp) { size_t b = c.getSize(); PBT_CHECK(g, !c.get(key<K>(it->first), val), "an expired key is returned"); if (c.getSize() == b) ++miss; continue; }
		if (c.get(key<K>(it->first), val)) PBT_CHECK(g, val == it->second.v, "key %u gives %s instead of %s", it->first, val.c_str(), it->second.v.c_str()); else ++miss;
	}
	PBT_CHECK(g, miss == lost, "%zu keys are missing but %zu were dropped", miss, lost); g.labelIf(lost, "entries dropped"); g.labelIf(expired, "expired"); if (m.size() > 40) g.nontrivial();
}
// which keys share a part of the sharded cache is learned from the outside: with a maximum of 32 every part holds one entry
template <class K> static const std::vector<std::vector<unsigned> > &classes()
{
	static std::vector<std::vector<unsigned> > cl; if (!cl.empty()) return cl;
	CLruCacheV2<K, S> c(CACHE_LOCK_NUM); std::vector<unsigned> rep; S v; unsigned k = 0;
	for (; rep.size() < CACHE_LOCK_NUM && k < 5000; ++k) { size_t b = c.getSize(); c.set(key<K>(k), "x"); if (c.getSize() > b) { rep.push_back(k); continue; } for (size_t i = 0; i < rep.size(); ++i) if (!c.get(key<K>(rep[i]), v)) rep[i] = k; }
	if (rep.size() < CACHE_LOCK_NUM) { cl.resize(1); return cl; }
	cl.resize(rep.size()); for (size_t i = 0; i < rep.size(); ++i) cl[i].push_back(rep[i]);
	for (unsigned e = k + 4000; k < e; ++k) { c.set(key<K>(k), "x"); for (size_t i = 0; i < rep.size(); ++i) if (!c.get(key<K>(rep[i]), v)) { rep[i] = k; cl[i].push_back(k); break; } }
	return cl;
}
// every part of the sharded cache is an LRU map of its own, and together they hold the maximum
template <class K> static void parts(G &g)
{
	g_fake = true; g_now = 1700000000; const std::vector<std::vector<unsigned> > &cl = classes<K>(); if (cl.size() != CACHE_LOCK_NUM) { g.label("parts not told apart"); return; }
	size_t max = 32 + (g.chance(1, 3) ? g.edge(2000) : g.u(g.pick({40, 300, 2000}))); CLruCacheV2<K, S> c(max); std::vector<L> m(cl.size()); std::vector<size_t> cap(cl.size(), 0), order; size_t size = 0, v = 0, drops = 0, hits = 0; g.note("maximum %zu", max);
	for (size_t i = 0; i < cl.size(); ++i) order.push_back(i); g.shuffle(order);
	auto put = [&](size_t p, unsigned k, uint32_t exp) {
		S val = "v" + std::to_string(v++); L::iterator it = find(m[p], k); PBT_CHECK(g, c.set(key<K>(k), val, exp), "set fails"); size_t a = c.getSize(); Ent e = {k, val, g_now, exp};
		if (it != m[p].end()) { PBT_CHECK(g, a == size, "replacing a value changes the number of entries from %zu to %zu", size, a); m[p].erase(it); }
		else { PBT_CHECK(g, a <= size + 1 && a + CACHE_REMOVE_NUM >= size + 1, "an insertion changes the number of entries from %zu to %zu", size, a); size_t d = size + 1 - a; if (d) { ++drops; PBT_CHECK(g, m[p].size() >= (cap[p] ? cap[p] : 1) && d <= m[p].size(), "an insertion drops %zu entries from a part that has %zu of %zu", d, m[p].size(), cap[p]); if (!cap[p]) cap[p] = m[p].size(); } else PBT_CHECK(g, !cap[p] || m[p].size() < cap[p], "a part of %zu entries takes one more", cap[p]); while (d--) m[p].pop_back(); }
		m[p].push_front(e); size = a;
	};
	size_t sum = 0; for (size_t o : order) { for (size_t i = 0; i < cl[o].size() && !cap[o]; ++i) put(o, cl[o][i], 0); if (!cap[o]) { g.label("too few keys"); return; } sum += cap[o]; }
	PBT_CHECK(g, sum == max, "the parts hold %zu entries together, the maximum is %zu", sum, max);
	for (size_t i = 0, n = g.size(800); i < n; ++i)
	{
		size_t p = g.u(cl.size()); if (g.b()) p %= 3; size_t range = std::min(cl[p].size(), cap[p] * 2 + 1); unsigned k = !m[p].empty() && g.chance(1, 4) ? (g.b() ? m[p].back().k : m[p].front().k) : cl[p][g.u(range)]; L::iterator it = find(m[p], k); unsigned op = g.u(20);
		if (op < 10) put(p, k, g.chance(1, 4) ? 1 + g.u(20) : 0);
		else if (op < 16)
		{
			S val = "untouched"; bool r = c.get(key<K>(k), val);
			if (it == m[p].end()) PBT_CHECK(g, !r && val == "untouched", "a key that is not there gives %s", val.c_str());
			else if (it->exp && g_now - it->set > (time_t)it->exp) { PBT_CHECK(g, !r, "an expired entry is returned"); m[p].erase(it); --size; }
			else { ++hits; PBT_CHECK(g, r && val == it->v, "key %u gives %s instead of %s", k, r ? val.c_str() : "nothing", it->v.c_str()); m[p].splice(m[p].begin(), m[p], it); }
		}
		else if (op < 18) { c.del(key<K>(k)); if (it != m[p].end()) { m[p].erase(it); --size; } } else if (op < 19) g_now += g.u(8); else if (g.chance(1, 20)) { c.clear(); for (auto &x : m) x.clear(); size = 0; }
		PBT_CHECK(g, c.getSize() == size, "%zu entries instead of %zu", c.getSize(), size);
	}
	for (size_t p = 0; p < m.size(); ++p) for (auto &e : m[p]) { S val; bool r = c.get(key<K>(e.k), val), want = !(e.exp && g_now - e.set > (time_t)e.exp); PBT_CHECK(g, r == want && (!r || val == e.v), "at the end key %u gives %s instead of %s", e.k, r ? val.c_str() : "nothing", want ? e.v.c_str() : "nothing"); }
	if (drops > cl.size() && hits) g.nontrivial();
}
struct Th { int id, n, own; uint64_t seed; CLruCache<S, S> *c; CLruCacheV2<S, S> *c2; bool mayDrop; S bad; };
static void *worker(void *p)
{
	Th *t = (Th *)p; uint64_t x = t->seed | 1; std::map<int, S> mine;
	for (int i = 0; i < t->n && t->bad.empty(); ++i)
	{
		x ^= x << 13; x ^= x >> 7; x ^= x << 17; int r = (int)(x >> 33) & 0xffffff, k = r % t->own; S key = "t" + std::to_string(t->id) + "-" + std::to_string(k), v;
		switch ((r >> 12) % 8)
		{
		case 0: case 1: case 2: v = std::to_string(i) + S(40, 'x'); if (t->c) t->c->set(key, v); else t->c2->set(key, v); mine[k] = v; break;
		case 3: if (t->c) t->c->del(key); else t->c2->del(key); mine.erase(k); break;
		default: { bool got = t->c ? t->c->get(key, v) : t->c2->get(key, v); bool have = mine.count(k) > 0; if (got && (!have || v != mine[k])) t->bad = key + " gives " + v; else if (!got && have && !t->mayDrop) t->bad = key + " is lost"; if (!got) mine.erase(k); }
		}
	}
	return 0;
}
static void threads(G &g)
{
	g_fake = false; int T = 2 + (int)g.u(5); bool v2 = g.b(), drop = g.b(); int own = 1 + (int)g.u(60); size_t max = drop ? (v2 ? 32 + g.u(40) : 1 + g.u(60)) : 100000; CLruCache<S, S> a(max); CLruCacheV2<S, S> b(max); std::vector<Th> t(T); std::vector<pthread_t> th(T);
	g.note("%d threads on %s of %zu, %d keys each", T, v2 ? "CLruCacheV2" : "CLruCache", max, own);
	for (int i = 0; i < T; ++i) { Th x = {i, 500 + (int)g.u(2500), own, g.num64(), v2 ? 0 : &a, v2 ? &b : 0, drop, ""}; t[i] = x; } for (int i = 0; i < T; ++i) pthread_create(&th[i], 0, worker, &t[i]); for (int i = 0; i < T; ++i) pthread_join(th[i], 0);
	for (int i = 0; i < T; ++i) PBT_CHECK(g, t[i].bad.empty(), "thread %d: %s", i, t[i].bad.c_str()); PBT_CHECK(g, (v2 ? b.getSize() : a.getSize()) <= max, "too many entries"); g.nontrivial(); g.labelIf(drop, "with drops");
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"strings", single<S>, 80000, 1500000, "up to 700 operations against a reference LRU map with string keys; non-trivial: something was dropped and something found", 10000, 0};
	Suite b = {"integers", single<unsigned>, 80000, 1500000, "the same with integer keys", 10000, 0};
	Suite c = {"sharded", sharded<S>, 20000, 300000, "the sharded cache, string keys; non-trivial: over 40 keys", 10000, 0};
	Suite d = {"sharded-int", sharded<unsigned>, 10000, 100000, "the sharded cache, integer keys; non-trivial: over 40 keys", 10000, 0};
	Suite e = {"threads", threads, 2500, 30000, "2-6 threads on keys of their own", 15000, F_RACY};
	Suite f = {"parts", parts<S>, 1500, 20000, "the parts of the sharded cache filled one by one, then as reference LRU maps of their own; non-trivial: entries dropped from one and found", 10000, 0};
	Suite h = {"parts-int", parts<unsigned>, 1500, 20000, "the same with integer keys", 10000, 0};
	s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d); s.push_back(f); s.push_back(h); s.push_back(e);
	return pbtMain(argc, argv, "C19", s);
}
