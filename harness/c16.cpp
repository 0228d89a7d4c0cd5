// SCALE: 5
// ASAN: max_allocation_size_mb=2500
// C16: connection buffers are exact bounded byte queues.
#include "pbt.h"
#include <memory>
#include <limits.h>
#include "CSocketBuf.h"
using namespace pbt; using namespace lce;
typedef std::string S;

struct Q { CSocketBuf *b; S m; int init, max; bool def; };
static void same(G &g, Q &q, const char *op)
{
	PBT_CHECK(g, q.b->getSize() == (int)q.m.size(), "after %s: size is %d instead of %zu", op, q.b->getSize(), q.m.size());
	if (!q.m.empty()) PBT_CHECK(g, memcmp(q.b->getData(), q.m.data(), q.m.size()) == 0, "after %s: holds %s instead of %s", op, quote(S(q.b->getData(), q.m.size()), 200).c_str(), quote(q.m, 200).c_str());
	int lim = std::max(q.init, q.max);
	PBT_CHECK(g, q.b->getBufSize() <= lim, "after %s: the buffer has %d bytes, limit %d", op, q.b->getBufSize(), lim);
	PBT_CHECK(g, q.b->getBufMaxSize() == q.max && q.b->getFreeSize() >= 0 && q.b->getRealFreeSize() == q.b->getBufSize() - q.b->getSize(), "after %s: sizes disagree: free %d, real free %d, buffer %d", op, q.b->getFreeSize(), q.b->getRealFreeSize(), q.b->getBufSize());
}
static void history(G &g)
{
	int scale = g.pick({8, 40, 40, 300, 5000});
	std::vector<Q> v; auto make = [&] { Q q; q.init = g.chance(1, 12) ? 0 : 1 + (int)g.u(scale); q.max = g.chance(1, 8) ? 1 + (int)g.u(scale) : q.init + (int)g.u(6 * scale); q.def = g.chance(1, 30); if (q.def) { q.init = q.max = 0; q.b = new CSocketBuf; } else q.b = new CSocketBuf(q.init, q.max); return q; };
	struct Free { std::vector<Q> &v; ~Free() { for (size_t i = 0; i < v.size(); ++i) delete v[i].b; } } fr = {v};
	v.push_back(make()); if (g.chance(1, 3)) v.push_back(make());
	size_t n = g.size(60); unsigned char next = 0; int grew = 0, partial = 0, refused = 0;
	for (size_t i = 0; i < n; ++i)
	{
		size_t at = g.u(v.size()); Q &q = v[at]; const char *op = "";
		switch (g.u(9))
		{
		case 0: case 1: case 2:
		{
			int room = q.max - (int)q.m.size(); int len = g.chance(1, 5) ? std::max(0, room + (int)g.u(5) - 2) : (int)g.u(scale + 1);
			S d(len, 0); for (int k = 0; k < len; ++k) d[k] = (char)next++; std::vector<char> x(d.begin(), d.end());
			bool want = len <= room, got = q.b->addData(x.data(), len); g.note("%zu: add %d -> %d", at, len, got); op = "add";
			PBT_CHECK(g, got == want, "append of %d bytes to %zu of at most %d answers %d", len, q.m.size(), q.max, got); int was = q.b->getBufSize(); (void)was;
			if (want) q.m += d; else ++refused; break;
		}
		case 3: case 4: // the way the receive path fills the buffer
		{
			op = "fill"; if (q.def) break; if (q.b->getFreeSize() == 0) { q.b->addFreeBuf(); same(g, q, "addFreeBuf"); }
			int fs = q.b->getFreeSize(); if ((int)q.m.size() < std::max(q.init, q.max)) PBT_CHECK(g, fs > 0, "no space to receive into although %zu of %d bytes are used", q.m.size(), q.max);
			PBT_CHECK(g, fs <= std::max(q.init, q.max) - (int)q.m.size(), "space for %d bytes next to %zu of at most %d", fs, q.m.size(), q.max);
			int len = fs ? g.chance(1, 3) ? fs : (int)g.u(fs + 1) : 0; char *p = q.b->getFreeBuf(); for (int k = 0; k < fs; ++k) p[k] = (char)0xEE; for (int k = 0; k < len; ++k) { p[k] = (char)next; q.m += (char)next++; }
			PBT_CHECK(g, q.b->addData(len), "received bytes are refused"); g.note("%zu: fill %d of %d", at, len, fs); break;
		}
		case 5: case 6: case 7:
		{
			op = "remove"; if (q.m.empty()) break; int len = g.chance(1, 3) ? (int)q.m.size() : (int)g.u(q.m.size() + 1); g.note("%zu: remove %d of %zu", at, len, q.m.size()); if (len && len < (int)q.m.size()) ++partial;
			q.b->removeData(len); q.m.erase(0, len); break;
		}
		default:
			switch (g.u(4))
			{
			case 0: op = "reset"; if (q.def) break; g.note("%zu: reset", at); q.b->reset(); q.m.clear(); break;
			case 1: { op = "copy"; g.note("%zu: copy", at); Q c = q; c.b = new CSocketBuf(*q.b); same(g, c, "copy"); delete q.b; q.b = c.b; break; }
			case 2: { op = "assign"; size_t o = g.u(v.size()); g.note("%zu = %zu", at, o); *q.b = *v[o].b; CSocketBuf *b = q.b; Q c = v[o]; c.b = b; q = c; same(g, v[o], "being assigned from"); break; }
			default: op = "addFreeBuf"; if (q.def) break; g.note("%zu: addFreeBuf", at); q.b->addFreeBuf();
			}
		}
		for (size_t k = 0; k < v.size(); ++k) { same(g, v[k], op); if (v[k].b->getBufSize() > v[k].init) ++grew; }
	}
	g.labelIf(grew, "buffer grew"); g.labelIf(partial, "partial consumption"); g.labelIf(refused, "append refused"); if (grew && partial) g.nontrivial();
}
// more than a gigabyte: doubling the buffer would not fit an int. What is received is only claimed, so most of it stays untouched
static void huge(G &g)
{
	int init = (1 << 30) - 2 + (int)g.u(4), extra = (int)g.u(1 << 20); bool first = g.b(); int max = g.b() ? INT_MAX : (1 << 30) + 3 + extra; g.note("buffer of %d bytes, at most %d", init, max);
	CSocketBuf b(init, max); char head[3] = {'a', 'b', 'c'}; memcpy(b.getFreeBuf(), head, 3); b.getFreeBuf()[init - 1] = 'z'; PBT_CHECK(g, b.addData(init), "received bytes are refused");
	if (first) { b.addFreeBuf(); PBT_CHECK(g, b.getBufSize() <= max && b.getFreeSize() > 0, "%d bytes free of %d, at most %d", b.getFreeSize(), b.getBufSize(), max); }
	PBT_CHECK(g, b.addData(head, 3), "three bytes are refused with %d of %d used", b.getSize(), max);
	PBT_CHECK(g, b.getSize() == init + 3 && b.getBufSize() <= max && memcmp(b.getData(), head, 3) == 0 && b.getData()[init - 1] == 'z' && memcmp(b.getData() + init, head, 3) == 0, "the bytes are damaged (%d of %d)", b.getSize(), init + 3);
	if (max - init < 1 << 21) { std::vector<char> more(max - init, 'm'); PBT_CHECK(g, !b.addData(more.data(), max - init - 2), "more than %d bytes are accepted", max); }
	b.removeData(init); PBT_CHECK(g, b.getSize() == 3 && memcmp(b.getData(), head, 3) == 0, "the rest is damaged"); b.removeData(3); PBT_CHECK(g, b.getSize() == 0 && b.getBufSize() == init, "empty: %d of %d bytes", b.getSize(), b.getBufSize()); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"history", history, 60000, 1000000, "up to 60 operations on one or two buffers against byte strings; non-trivial: a buffer grew and was partly consumed", 10000, 0};
	Suite h = {"huge", huge, 1, 4, "buffers that grow past a gigabyte; non-trivial: all", 60000, F_ISOLATE | F_SERIAL};
	s.push_back(a); s.push_back(h);
	return pbtMain(argc, argv, "C16", s);
}
