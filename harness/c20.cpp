// SCALE: 1.5
// C20: bitmaps and shared arrays keep every cell independent.
#include "pbt.h"
#include <stdint.h>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include "Utils.h"
#include "CBitMap.h"
#include "CShmArray.h"
using namespace pbt; using namespace lce;

// stand-in for System V shared memory: heap regions of exactly the requested size, between red zones
struct Seg { char *p; size_t n; };
static std::map<int, int> g_key; static std::vector<Seg> g_seg; static int g_att;
static int g_failGet, g_failAt; // these many calls fail
// the regions of gigabytes are address space only, and end where the next page cannot be touched
static const size_t BIG = 1 << 26; static char *vast(size_t n) { size_t l = (n + 4095) / 4096 * 4096; char *p = (char *)mmap(NULL, l + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(99); mprotect(p + l, 4096, PROT_NONE); return p + (l - n); }
extern "C" int shmget(key_t k, size_t n, int f)
{
	if (g_failGet > 0) { --g_failGet; errno = ENOSPC; return -1; }
	if (k != IPC_PRIVATE && g_key.count(k)) { if ((f & IPC_CREAT) && (f & IPC_EXCL)) { errno = EEXIST; return -1; } if (g_seg[g_key[k]].n < n) { errno = EINVAL; return -1; } return g_key[k]; }
	if (!(f & IPC_CREAT) && k != IPC_PRIVATE) { errno = ENOENT; return -1; }
	if (n == 0) { errno = EINVAL; return -1; }
	Seg s = {n > BIG ? vast(n) : (char *)calloc(1, n), n}; g_seg.push_back(s); g_key[k] = (int)g_seg.size() - 1; return (int)g_seg.size() - 1;
}
extern "C" int shmctl(int id, int cmd, struct shmid_ds *) { if (cmd != IPC_RMID || id < 0 || id >= (int)g_seg.size()) { errno = EINVAL; return -1; } for (auto i = g_key.begin(); i != g_key.end();) if (i->second == id) i = g_key.erase(i); else ++i; return 0; }
extern "C" void *shmat(int id, const void *, int) { if (g_failAt > 0) { --g_failAt; errno = EMFILE; return (void *)-1; } if (id < 0 || id >= (int)g_seg.size() || !g_seg[id].p) { errno = EINVAL; return (void *)-1; } ++g_att; return g_seg[id].p; }
extern "C" int shmdt(const void *p) { for (size_t i = 0; i < g_seg.size(); ++i) if (g_seg[i].p == p) { --g_att; return 0; } errno = EINVAL; return -1; }
static void freshShm() { for (size_t i = 0; i < g_seg.size(); ++i) if (g_seg[i].n > BIG) munmap(g_seg[i].p + g_seg[i].n - (g_seg[i].n + 8191) / 4096 * 4096, (g_seg[i].n + 8191) / 4096 * 4096); else free(g_seg[i].p); g_seg.clear(); g_key.clear(); g_att = g_failGet = g_failAt = 0; Seg none = {0, 0}; g_seg.push_back(none); /* ids start at 1 */ }

template <size_t W> static void bitmap(G &g)
{
	freshShm(); unsigned long n = 1 + g.u(g.pick({8, 9, 40, 200})); if (g.chance(1, 200)) n = 32768 * (1 + g.u(3)) / W; int key = 100 + (int)g.u(50);
	std::vector<std::unique_ptr<CBitmap<W> > > b; std::vector<unsigned long> dec; std::vector<int> m(n, 0); unsigned top = W == 8 ? 255 : (1u << W) - 1;
	auto open = [&](unsigned long sz) { std::unique_ptr<CBitmap<W> > x(new CBitmap<W>); PBT_CHECK(g, x->init(key, sz), "init of %lu cells fails", sz); PBT_CHECK(g, x->size() == sz, "size is %zu instead of %lu", x->size(), sz); b.push_back(std::move(x)); dec.push_back(sz); };
	g.note("%zu bits, %lu cells", W, n); bool faulty = false; unsigned long other = 0;
	// what cannot be had is refused, and can be had later
	auto failing = [&](CBitmap<W> &x) { faulty = true; if (g.b()) g_failGet = 2; else g_failAt = 2; g.note("no memory (%s)", g_failGet ? "shmget" : "shmat"); PBT_CHECK(g, !x.init(key, n), "init succeeds without memory"); for (unsigned long i = 0; i < n; i += 7) PBT_CHECK(g, !x.set(i, 1) && (int)x.get(i) == 0, "a bitmap without memory can be written"); g_failGet = g_failAt = 0; };
	if (g.chance(1, 6)) { std::unique_ptr<CBitmap<W> > x(new CBitmap<W>); failing(*x); if (g.b()) { PBT_CHECK(g, x->init(key, n), "init fails after a failed one"); b.push_back(std::move(x)); dec.push_back(n); } else { x.reset(); open(n); } } else open(n); size_t steps = g.size(60), crossed = 0; bool big = n > 500;
	auto all = [&](const char *op) { for (size_t i = 0; i < b.size(); ++i) for (unsigned long k = 0; k < dec[i]; k += big ? 1 + g.u(200) : 1) PBT_CHECK(g, (int)b[i]->get(k) == m[k], "after %s cell %lu is %d instead of %d", op, k, (int)b[i]->get(k), m[k]); };
	for (size_t s = 0; s < steps; ++s)
	{
		size_t o = g.u(b.size()); CBitmap<W> &x = *b[o]; unsigned op = g.u(18);
		if (op < 10) { unsigned long i = g.chance(1, 4) ? dec[o] - 1 - g.u(std::min<unsigned long>(dec[o], 9)) : g.u(dec[o]); unsigned v = g.chance(1, 3) ? top : g.u(top + 1); g.note("set %lu = %u", i, v); PBT_CHECK(g, x.set(i, v), "set of cell %lu of %lu is refused", i, dec[o]); if (m[i] && !v) ++crossed; m[i] = v; if (big) PBT_CHECK(g, (int)x.get(i) == m[i], "cell %lu is %d instead of %u", i, (int)x.get(i), v); else all("set"); }
		else if (op < 13) { unsigned long i = dec[o] + (g.b() ? g.u(10) : g.num64() & 0x7fffffffffffffffULL); if (i < dec[o]) continue; g.note("out of range %lu", i); PBT_CHECK(g, !x.set(i, top) && (int)x.get(i) == 0, "cell %lu of %lu can be written", i, dec[o]); if (!big) all("an out of range access"); }
		else if (op < 14) { g.note("clear"); x.clear(); std::fill(m.begin(), m.end(), 0); all("clear"); }
		else if (op < 15 && b.size() < 4) { g.note("open again"); open(g.chance(1, 3) ? 1 + g.u(n) : n); all("opening again"); }
		else if (op == 15)
		{
			// the same object again, on another region that is larger, and back
			if (!other) other = n + g.u(300); unsigned long n2 = other; int k2 = key + 1000; g.note("init of an object in use, on another region of %lu cells", n2); PBT_CHECK(g, x.init(k2, n2) && x.size() == n2, "init of an object in use fails");
			PBT_CHECK(g, x.set(n2 - 1, top) && (unsigned)(int)x.get(n2 - 1) == top, "the last of %lu cells reads %d", n2, (int)x.get(n2 - 1)); if (!big) for (size_t q = 0; q < b.size(); ++q) if (q != o) for (unsigned long k = 0; k < dec[q]; ++k) PBT_CHECK(g, (int)b[q]->get(k) == m[k], "a write in another region changed cell %lu", k);
			x.clear(); PBT_CHECK(g, x.init(key, dec[o]) && x.size() == dec[o], "init of an object in use fails"); all("going to another region and back");
		}
		else if (op == 16) { unsigned long n2 = n + 8 + g.u(100); bool same = g.b(); std::unique_ptr<CBitmap<W> > fresh(new CBitmap<W>); CBitmap<W> *y = same ? &x : fresh.get(); g.note("a larger one%s", same ? " in an object in use" : ""); PBT_CHECK(g, !y->init(key, n2), "%lu cells open in the memory of %lu", n2, n); for (unsigned long i = 0; i < n2; i += 5) PBT_CHECK(g, !y->set(i, 1), "a refused bitmap can be written"); if (same) PBT_CHECK(g, x.init(key, dec[o]) && x.size() == dec[o], "init fails after a refused one"); all("a refused init"); }
		else if (b.size() > 1) { g.note("close"); b.erase(b.begin() + o); dec.erase(dec.begin() + o); all("closing"); }
	}
	all("the last step"); if (crossed || (steps > 8 && n > 8)) g.nontrivial(); g.labelIf(b.size() > 1, "several users"); g.labelIf(faulty, "first init fails"); b.clear(); PBT_CHECK(g, g_att == 0, "%d attachments left", g_att); freshShm();
}
// more cells than 32 bits count
template <size_t W> static void vastMap(G &g, unsigned long n)
{
	freshShm(); std::map<unsigned long, unsigned> m; unsigned top = W == 8 ? 255 : (1u << W) - 1; g.note("%zu bits, %lu cells", W, n);
	CBitmap<W> x, y; PBT_CHECK(g, x.init(5, n) && x.size() == n, "init of %lu cells fails", n); if (g.b()) { PBT_CHECK(g, y.init(5, n), "opening it again fails"); } else PBT_CHECK(g, y.init(6, n), "init of another fails"); bool shared = g_seg.size() == 2;
	static const unsigned long E[] = {1ul << 24, 1ul << 27, 1ul << 28, 1ul << 29, 1ul << 30, 1ul << 31, 1ul << 32};
	for (size_t i = 0; i < 60; ++i)
	{
		unsigned long k; switch (g.u(4)) { case 0: k = g.u(n); break; case 1: k = n - 1 - g.u(20); break; case 2: k = g.u(40); break; default: k = E[g.u(7)] + g.u(20) - 10; }
		if (k >= n) { PBT_CHECK(g, !x.set(k, top) && (int)x.get(k) == 0, "cell %lu of %lu can be written", k, n); continue; }
		unsigned v = g.b() ? top : g.u(top + 1); PBT_CHECK(g, x.set(k, v), "set of cell %lu of %lu is refused", k, n); m[k] = v; g.note("set %lu = %u", k, v);
		for (auto &c : m) { PBT_CHECK(g, (unsigned)(int)x.get(c.first) == c.second, "after set of %lu cell %lu is %d instead of %u", k, c.first, (int)x.get(c.first), c.second); PBT_CHECK(g, (unsigned)(int)y.get(c.first) == (shared ? c.second : 0), "the other user reads %d from cell %lu", (int)y.get(c.first), c.first); }
		for (int d = 0; d < 8; ++d) { unsigned long z = g.b() ? k + d - 4 : E[g.u(7)] + (k & 0xffffff); if (z < n && !m.count(z)) PBT_CHECK(g, (int)x.get(z) == 0, "after set of %lu cell %lu is %d", k, z, (int)x.get(z)); }
	}
	g.nontrivial();
}
static void vastCells(G &g)
{
	unsigned long n = g.chance(1, 4) ? (1ul << 27) + g.u(1 << 27) : (1ul << 32) + g.u(1 << 20);
	switch (g.u(7)) { case 0: vastMap<1>(g, n); break; case 1: vastMap<2>(g, n); break; case 2: vastMap<3>(g, n); break; case 3: vastMap<4>(g, n); break; case 4: vastMap<5>(g, n); break; case 5: vastMap<6>(g, n); break; default: vastMap<8>(g, n); }
	freshShm();
}
static void vastArray(G &g)
{
	freshShm(); size_t n = (g.b() ? (1ul << 30) : (1ul << 29)) + g.u(1000); g.note("%zu integers", n); { CShmArray<int> x, y; PBT_CHECK(g, x.init(5, n) && x.isCreate() && x.size() == n, "init of %zu elements fails", n); PBT_CHECK(g, y.init(5, n) && !y.isCreate() && y.size() == n, "opening again fails"); std::map<size_t, int> m;
	for (int i = 0; i < 40; ++i) { size_t k = g.b() ? g.u(n) : g.b() ? n - 1 - g.u(20) : (1ul << (20 + g.u(10))) + g.u(9) - 4; if (k >= n) continue; int v = (int)g.num64(); x[k] = v; m[k] = v; for (auto &c : m) PBT_CHECK(g, x[c.first] == c.second && y[c.first] == c.second, "after a write of %zu element %zu is %d and %d instead of %d", k, c.first, x[c.first], y[c.first], c.second); } }
	freshShm(); g.nontrivial();
}
struct Rec { uint32_t a; unsigned char c[7]; };
static bool eq(const Rec &x, const Rec &y) { return x.a == y.a && memcmp(x.c, y.c, 7) == 0; } template <class T> static bool eq(const T &x, const T &y) { return x == y; }
static void mk(G &g, Rec &r) { r.a = (uint32_t)g.num64(); for (int i = 0; i < 7; ++i) r.c[i] = (unsigned char)g.u(256); } template <class T> static void mk(G &g, T &t) { t = (T)g.num64(); }
template <class T> static void array(G &g)
{
	freshShm(); size_t n = 1 + g.u(g.pick({3, 40})); int key = 7; std::vector<T> m(n); memset(&m[0], 0, n * sizeof(T)); std::vector<std::unique_ptr<CShmArray<T> > > b; 
	{ CShmArray<T> x; PBT_CHECK(g, !x.init(key, n, false), "opening an array that does not exist works"); }
	size_t steps = g.size(60), other = 0; b.emplace_back(new CShmArray<T>); if (g.chance(1, 6)) { if (g.b()) g_failGet = 2; else g_failAt = 2; g.note("no memory (%s)", g_failGet ? "shmget" : "shmat"); PBT_CHECK(g, !b[0]->init(key, n), "init succeeds without memory"); g_failGet = g_failAt = 0; if (g.b()) b[0].reset(new CShmArray<T>); }
	PBT_CHECK(g, b[0]->init(key, n) && b[0]->isCreate(), "init fails"); g.note("%zu elements of %zu bytes", n, sizeof(T)); size_t opened = 0;
	for (size_t s = 0; s < steps; ++s)
	{
		size_t o = g.u(b.size()), i = g.u(n); CShmArray<T> &x = *b[o];
		switch (g.u(8))
		{
		case 0: if (b.size() < 4) { std::unique_ptr<CShmArray<T> > y(new CShmArray<T>); PBT_CHECK(g, y->init(key, g.b() ? n : 1 + g.u(n), g.b()) && !y->isCreate(), "opening the array again fails: %s", y->getErrMsg()); b.push_back(std::move(y)); ++opened; g.note("open again"); } break;
		case 1: if (b.size() > 1) { b.erase(b.begin() + o); g.note("close"); } break;
		case 2: { const CShmArray<T> &cx = x; PBT_CHECK(g, eq(cx[i], m[i]), "element %zu differs", i); break; }
		case 3: { bool same = g.b(); CShmArray<T> fresh, &y = same ? x : fresh; PBT_CHECK(g, !y.init(key, n + 1 + g.u(100)), "a larger array opens in the same memory"); if (same) PBT_CHECK(g, x.init(key, n), "init fails after a refused one"); break; }
		case 4: { if (!other) other = n + g.u(50); size_t n2 = other; g.note("init of an object in use, on another region of %zu elements", n2); PBT_CHECK(g, x.init(key + 1, n2) && x.size() >= 1, "init of an object in use fails: %s", x.getErrMsg()); T t; mk(g, t); x[x.size() - 1] = t; PBT_CHECK(g, x.init(key, n), "init of an object in use fails: %s", x.getErrMsg()); break; }
		default: mk(g, m[i]); x[i] = m[i]; g.note("write %zu", i);
		}
		for (size_t q = 0; q < b.size(); ++q) { PBT_CHECK(g, b[q]->size() == n, "size is %zu instead of %zu", b[q]->size(), n); for (size_t k = 0; k < n; ++k) PBT_CHECK(g, eq((*b[q])[k], m[k]), "element %zu differs", k); }
	}
	if (steps > 5) g.nontrivial(); g.labelIf(opened, "re-opened"); b.clear(); PBT_CHECK(g, g_att == 0, "%d attachments left", g_att); freshShm();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	#define B(w) { Suite a = {"bitmap" #w, bitmap<w>, 120000, 1500000, "histories on a bitmap of " #w " bit cells against an array, up to three users of one region; non-trivial: over 8 cells or a cell overwritten", 10000, 0}; s.push_back(a); }
	B(1) B(2) B(3) B(4) B(5) B(6) B(8)
	Suite c = {"array-int", array<int>, 100000, 1000000, "histories on a shared array of int; non-trivial: over five steps", 10000, 0}; Suite d = {"array-record", array<Rec>, 100000, 1000000, "histories on a shared array of records; non-trivial: over five steps", 10000, 0}; Suite e = {"array-char", array<char>, 20000, 200000, "histories on a shared array of char; non-trivial: over five steps", 10000, 0};
	Suite v = {"vast", vastCells, 1500, 15000, "bitmaps of 2^27 to 2^32 cells and more, cells near powers of two and the end; all non-trivial", 20000, 0}, w = {"vast-array", vastArray, 300, 3000, "arrays of 2^29 and 2^30 integers; all non-trivial", 20000, 0};
	s.push_back(c); s.push_back(d); s.push_back(e); s.push_back(v); s.push_back(w);
	return pbtMain(argc, argv, "C20", s);
}
