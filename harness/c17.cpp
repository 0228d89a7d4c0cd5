// SCALE: 3
// FLAGS: -fno-sanitize=bounds
// C17: the memory ring queue is an exact FIFO of messages.
#include "pbt.h"
#include "CBufferQueue.h"
#include <deque>
#include <sys/mman.h>
using namespace pbt; using namespace lce;
typedef std::string S;
struct Block { char *p; size_t n; explicit Block(size_t n) : p((char *)malloc(n)), n(n) { memset(p, 0x5A, n); } ~Block() { free(p); } };

// address space that can be read as one message of more than four gigabytes
static const char *vast() { static char *p = NULL; if (!p) { p = (char *)mmap(NULL, 9ul << 30, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); } return p; }
static void history(G &g)
{
	const unsigned long HEAD = 40, MARK = 8, RES = 8;
	unsigned long size = HEAD + MARK + RES + 1 + g.u(g.pick({20, 80, 200, 2000}));
	Block mem(size); CBufferQueue *q = new CBufferQueue; struct Del { CBufferQueue *&q; ~Del() { delete q; } } del = {q};
	q->create(mem.p, size); std::deque<S> m; unsigned long cap = size - HEAD, used = 0, maxMsg = cap - MARK - RES;
	size_t n = g.size(80); unsigned char next = 0; unsigned long total = 0; int refused = 0, tooSmall = 0, two = 0, re = 0, vastly = 0;
	for (size_t i = 0; i < n; ++i)
	{
		unsigned op = g.u(10);
		if (g.chance(1, 60))
		{
			bool split = g.b(), threw = false; unsigned long len = (1ul << 32) + g.u(maxMsg / 2 + 8) - g.u(2) * 9; unsigned l1 = (unsigned)std::min<unsigned long>(len - g.u(100), 0xffffffffu - g.u(3)); if (g.b()) l1 = (unsigned)(len - l1);
			g.note("push %lu%s, more than there is", len, split ? " in two parts" : "");
			bool full = q->full(len); PBT_CHECK(g, full, "full(%lu) is false with %lu of %lu bytes used", len, used, cap);
			try { if (split) q->push(vast(), l1, vast() + l1, (unsigned)(len - l1)); else q->push(vast(), len); } catch (const std::runtime_error &) { threw = true; }
			PBT_CHECK(g, threw, "a message of %lu bytes is accepted by a queue of %lu", len, cap); ++vastly;
		}
		else if (op < 5)
		{
			unsigned long len; switch (g.u(5)) { case 0: len = g.u(maxMsg + 3); break; case 1: { unsigned long f = cap - used; len = f > MARK + RES ? f - MARK - RES + g.u(3) : g.u(4); if (len) --len; break; } case 2: len = g.u(4); break; default: len = g.u(maxMsg / 3 + 2); }
			S d(len, 0); for (size_t k = 0; k < len; ++k) d[k] = (char)next++;
			bool full = q->full(len); PBT_CHECK(g, full == (len > 0 && used + MARK + len + RES > cap), "full(%lu) is %d with %lu of %lu bytes used", len, full, used, cap);
			bool threw = false; unsigned l1 = g.u(len + 1); bool split = g.b();
			{ // exactly-sized parts between red zones
				Block a(split ? l1 : len), b(split ? len - l1 : 1); memcpy(a.p, d.data(), a.n); if (split) memcpy(b.p, d.data() + l1, b.n);
				try { if (split) q->push(a.p, l1, b.p, (unsigned)(len - l1)); else q->push(a.p, len); } catch (const std::runtime_error &) { threw = true; }
			}
			g.note("push %lu%s -> %s", len, split ? " in two parts" : "", threw ? "full" : "ok");
			PBT_CHECK(g, threw == full, "a push of %lu bytes is %s but full() said %d", len, threw ? "refused" : "accepted", full);
			if (!threw && len) { m.push_back(d); used += MARK + len; total += MARK + len; if (split && l1 && l1 < len) ++two; } else if (threw) ++refused;
		}
		else if (op < 9)
		{
			bool split = g.b(); unsigned long want = m.empty() ? 0 : m.front().size(); unsigned long room = g.chance(1, 6) ? g.u(want + 1) : g.chance(1, 3) ? want : want + g.u(20);
			unsigned long l1 = g.u(room + 1), s1 = split ? l1 : room, s2 = room - l1; Block a(s1), b(split ? s2 : 1); int rc = -1;
			try { rc = split ? q->pop(a.p, s1, b.p, s2) : q->pop(a.p, s1); } catch (const std::runtime_error &) { rc = 2; }
			g.note("pop into %lu%s -> %d", room, split ? " in two" : "", rc);
			if (m.empty()) PBT_CHECK(g, rc == 0, "a pop from an empty queue answers %d", rc);
			else if (want > room) { PBT_CHECK(g, rc == 2, "a pop of %lu bytes into %lu answers %d", want, room, rc); ++tooSmall; used -= MARK + want; m.pop_front(); }
			else
			{
				PBT_CHECK(g, rc == 1, "a pop of %lu bytes into %lu answers %d", want, room, rc);
				S got(a.p, std::min<unsigned long>(s1, a.n)); if (split) { PBT_CHECK(g, s1 == std::min(l1, want) && s2 == want - s1, "%lu bytes are split into %lu and %lu over buffers of %lu and %lu", want, s1, s2, l1, room - l1); got += S(b.p, s2); if (s1 && s2) ++two; } else PBT_CHECK(g, s1 == want, "length %lu instead of %lu", s1, want);
				PBT_CHECK(g, got == m.front(), "popped %s instead of %s", quote(got, 100).c_str(), quote(m.front(), 100).c_str()); used -= MARK + want; m.pop_front();
				for (size_t k = s1; k < a.n; ++k) PBT_CHECK(g, a.p[k] == 0x5A, "byte %zu behind the message was written", k);
			}
		}
		else
		{
			CBufferQueue *r = new CBufferQueue; g.note("attach");
			if (g.b()) { Block m2(size); memcpy(m2.p, mem.p, size); memset(mem.p, 0, size); memcpy(mem.p, m2.p, size); } // the memory alone holds the state
			r->attach(mem.p, size); delete q; q = r; ++re;
			if (g.chance(1, 4)) { CBufferQueue x; bool threw = false; try { x.attach(mem.p, size - 1); } catch (const std::runtime_error &) { threw = true; } PBT_CHECK(g, threw, "attach accepts a region of another size"); }
		}
		PBT_CHECK(g, q->empty() == m.empty() && q->size() == m.size(), "empty is %d and size %lu with %zu messages", q->empty(), q->size(), m.size());
	}
	for (; !m.empty(); m.pop_front()) { Block a(m.front().size()); unsigned long s = a.n; PBT_CHECK(g, q->pop(a.p, s) && s == m.front().size() && memcmp(a.p, m.front().data(), s) == 0, "draining: a message differs"); }
	PBT_CHECK(g, q->empty() && q->size() == 0, "not empty after draining");
	g.labelIf(total > cap, "wrapped"); g.labelIf(refused, "push refused"); g.labelIf(tooSmall, "message dropped for lack of space"); g.labelIf(two, "split parts"); g.labelIf(re, "re-attached"); g.labelIf(vastly, "over four gigabytes");
	if (total > cap) g.nontrivial();
}
// large regions, long messages and thousands of short ones
static void large(G &g)
{
	unsigned long cap = 100 + g.edge(g.pick({5000, 70000, 1 << 20})); Block mem(cap + 40); CBufferQueue q; q.create(mem.p, cap + 40); std::deque<std::pair<uint32_t, unsigned long> > m; unsigned long used = 0, total = 0; size_t most = 0; uint32_t seq = 0;
	static std::vector<char> src, got(1 << 21), got2(1 << 21); if (src.empty()) for (size_t i = 0; i < (3u << 20); ++i) src.push_back((char)(i * 2654435761u >> 13));
	g.note("region of %lu bytes", cap); size_t n = 2 + g.u(8);
	for (size_t i = 0; i < n; ++i)
	{
		if (g.chance(3, 5))
		{
			bool one = g.chance(1, 3); unsigned long room = cap - used > 16 ? cap - used - 16 : 0, len = one ? (g.b() ? room : g.edge(room)) : 1 + g.u(g.pick({4, 40, 300})); size_t k = one ? 1 : g.edge(20000) + 1, done = 0; bool split = g.b(); unsigned long cut = g.chance(1, 2) ? g.u(len + 1) : std::min<unsigned long>(len, g.edge(1 << 20)); if (!len) continue;
			for (; done < k; ++done)
			{
				bool full = used + 8 + len + 8 > cap, threw = false; PBT_CHECK(g, q.full(len) == full, "full(%lu) is %d with %lu of %lu bytes used by %zu messages", len, !full, used, cap, m.size()); const char *d = &src[seq % (1u << 20)];
				if (full && done) break;
				try { if (split) q.push(d, (unsigned)cut, d + cut, (unsigned)(len - cut)); else q.push(d, len); } catch (const std::runtime_error &) { threw = true; }
				PBT_CHECK(g, threw == full, "a push of %lu bytes is %s with %lu of %lu bytes used", len, threw ? "refused" : "accepted", used, cap); if (threw) break;
				m.push_back({seq, len}); seq += 7 + len; used += 8 + len; total += 8 + len;
			}
			g.note("push %zu of %lu bytes%s -> %zu messages, %lu bytes", done, len, split ? " in two parts" : "", m.size(), used); most = std::max(most, m.size());
		}
		else
		{
			size_t k = g.chance(1, 3) ? m.size() : g.u(m.size() + 1); bool split = g.b(); g.note("pop %zu%s", k, split ? " in two parts" : "");
			for (size_t j = 0; j < k; ++j)
			{
				uint32_t at = m.front().first % (1u << 20); unsigned long len = m.front().second, s1 = split ? (g.chance(1, 2) ? len / 2 : std::min(len, (unsigned long)j % 9)) : got.size(), s2 = split ? len - s1 : 0, l1 = s1;
				bool ok = split ? q.pop(&got[0], s1, &got2[0], s2) : q.pop(&got[0], s1); PBT_CHECK(g, ok && s1 + (split ? s2 : 0) == len, "message %zu of %zu: length %lu instead of %lu", j, m.size(), s1 + (split ? s2 : 0), len);
				PBT_CHECK(g, memcmp(&got[0], &src[at], s1) == 0 && (!split || memcmp(&got2[0], &src[at + s1], s2) == 0) && (!split || s1 == l1), "the message of %lu bytes differs (%zu messages inside)", len, m.size());
				used -= 8 + len; m.pop_front(); if (!split && j + 1 == k / 2 && g.b()) PBT_CHECK(g, q.size() == m.size(), "size is %lu with %zu messages", q.size(), m.size());
			}
		}
		PBT_CHECK(g, q.empty() == m.empty() && q.size() == m.size(), "empty is %d and size %lu with %zu messages", q.empty(), q.size(), m.size());
	}
	g.labelIf(most > 256, "over 256 messages inside"); g.labelIf(most > 65536, "over 65536 messages inside"); g.labelIf(total > cap, "wrapped"); if (total > cap || most > 256) g.nontrivial();
}
static void small(G &g)
{
	size_t n = g.u(60); Block m(n); bool threw = false; CBufferQueue q; try { q.create(m.p, n); } catch (const std::runtime_error &) { threw = true; }
	PBT_CHECK(g, threw == (n <= 56), "create with %zu bytes %s", n, threw ? "throws" : "works"); threw = false;
	if (n <= 56) { try { q.attach(m.p, n); } catch (const std::runtime_error &) { threw = true; } PBT_CHECK(g, threw, "attach to %zu bytes works", n); } else g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"history", history, 60000, 1000000, "up to 80 pushes, pops and re-attaches in a region of 57 to 2057 bytes against a deque; non-trivial: the data wrapped round", 10000, 0};
	Suite b = {"small", small, 300, 1000, "regions around the smallest size; non-trivial: large enough", 10000, 0};
	Suite c = {"large", large, 6000, 60000, "regions up to a megabyte filled and emptied with long messages and up to 20000 short ones; non-trivial: over 256 messages inside or wrapped", 10000, 0};
	s.push_back(a); s.push_back(b); s.push_back(c);
	return pbtMain(argc, argv, "C17", s);
}
