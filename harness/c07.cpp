// C07: typed packages read back what was written and never past the end.
#include "pbt.h"
#include <arpa/inet.h>
#include "CPackage.h"
using namespace pbt; using namespace lce;

#pragma pack(1)
template <int N> struct Head { unsigned char b[N]; };
#pragma pack()

static std::string be(uint64_t v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += (char)(v >> (8 * i)); return r; }
static uint64_t unbe(const std::string &s, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)s[p + i]; return v; }

struct Model { std::string head, body; size_t pos; };

template <int N> struct T
{
	typedef CPackage<Head<N> > P;
	// remaining bytes behind the read position, observed through isEnd
	static long remaining(P &p) { long lo = -1, hi = p.getPkgBodyLen() + 64; while (lo < hi) { long m = (lo + hi + 1) / 2; if (m < 0) break; if (!p.isEnd((int)m)) lo = m; else hi = m - 1; } return lo; }
	static void same(G &g, P &p, Model &m, const char *what)
	{
		PBT_CHECK(g, (size_t)p.size() == N + m.body.size() && p.getPkgLen() == p.size() && (size_t)p.getPkgBodyLen() == m.body.size(), "%s: sizes %d/%d instead of head %d + body %zu", what, p.size(), p.getPkgBodyLen(), N, m.body.size());
		PBT_CHECK(g, std::string(p.data(), N) == m.head && std::string((const char *)&p.head(), N) == m.head && std::string((char *)p.getPkgHead(), N) == m.head, "%s: head bytes changed", what);
		PBT_CHECK(g, std::string(p.getPkgBody(), p.getPkgBodyLen()) == m.body && std::string(p.getPkg() + N, p.size() - N) == m.body, "%s: body is %s instead of %s", what, quote(std::string(p.getPkgBody(), p.getPkgBodyLen())).c_str(), quote(m.body).c_str());
		long r = remaining(p);
		PBT_CHECK(g, r == (long)(m.body.size() - m.pos), "%s: %ld bytes left to read instead of %zu", what, r, m.body.size() - m.pos);
	}
	static std::string genData(G &g)
	{
		if (g.chance(1, 12))
		{ // a counted string that fits its count, long ones now and then
			unsigned lw = g.pick<int>({1, 2, 2, 4}); size_t n = g.size(300); if (g.chance(1, 8)) { size_t c = g.pick<size_t>({127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000}); n = c; }
			if (lw == 1) n = n > 255 ? 255 : n; if (lw == 2) n = n > 65535 ? 65535 : n; return be(n, lw) + std::string(n, (char)g.u(256)) + g.blob(g.u(3));
		}
		if (g.chance(1, 150)) { std::string s = g.fill(g.edge(g.chance(1, 8) ? 1 << 21 : 70000), "abc\x80\xff"); if (g.b()) s += std::string(1, '\0'); return s; }
		switch (g.u(4)) { case 0: return g.blob(g.size(40)); case 1: return g.text(g.size(6), "ab") + std::string(g.u(2), '\0'); case 2: return be(g.u(4), 1 << g.u(3)) + g.blob(g.u(5)); default: return std::string(g.size(300), (char)g.u(256)); }
	}
	template <class V> static void w(G &g, P &p, Model &m, V v, std::vector<std::pair<size_t, int> > &rem)
	{
		size_t at = N + m.body.size();
		if (g.b()) { size_t r = p.write(v); PBT_CHECK(g, r == at, "write reports position %zu instead of %zu", r, at); rem.push_back(std::make_pair(at, (int)sizeof(V))); }
		else p << v;
		m.body += be((uint64_t)v, sizeof(V));
	}
	template <class V> static void wp(P &p, Model &m, V v, size_t at) { p.writePos(v, at); m.body.replace(at - N, sizeof(V), be((uint64_t)v, sizeof(V))); }
	template <class V> static void r(G &g, P &p, Model &m, const char *name)
	{
		V v = (V)0x5a; bool ok = true;
		try { p >> v; } catch (const std::exception &) { ok = false; }
		bool want = m.body.size() - m.pos >= sizeof(V);
		PBT_CHECK(g, ok == want, "reading %s with %zu bytes left %s", name, m.body.size() - m.pos, ok ? "succeeds" : "throws");
		if (ok) { PBT_CHECK(g, v == (V)unbe(m.body, m.pos, sizeof(V)), "reading %s at %zu gives another value", name, m.pos); m.pos += sizeof(V); }
		else g.label("read refused");
	}
	static void run(G &g)
	{
		P *p = 0; Model m; m.pos = 0;
		uint64_t how = g.u(4);
		if (how < 2) { p = new P; m.head = std::string(N, 0); g.note("CPackage<%d bytes head>()", N); }
		else
		{
			std::string d = g.chance(1, 5) ? g.blob(g.u(N + 1)) : g.blob(N) + genData(g) + (g.b() ? genData(g) : "");
			g.note("CPackage<%d bytes head>(%s)", N, quote(d).c_str());
			bool ok = true;
			try { if (how == 2) p = new P(d.data(), (int)d.size()); else { p = new P; p->setPkgData(d); } } catch (const std::exception &) { ok = false; }
			PBT_CHECK(g, ok == (d.size() >= N), "%zu bytes for a head of %d are %s", d.size(), N, ok ? "accepted" : "refused");
			if (!ok) { if (how == 3) delete p; g.label("short data refused"); return; }
			m.head = d.substr(0, N); m.body = d.substr(N);
		}
		same(g, *p, m, "construction");
		std::vector<std::pair<size_t, int> > rem;
		int ops = (int)g.range(1, g.thorough() ? 60 : 30), reads = 0, writes = 0;
		for (int i = 0; i < ops; ++i)
		{
			char what[120]; what[0] = 0;
			switch (g.u(14))
			{
			case 0: case 1: case 2:
			{
				uint64_t v = g.num64(); unsigned t = g.u(11); snprintf(what, sizeof what, "write type %u value %llx", t, (unsigned long long)v); ++writes;
				switch (t)
				{
				case 0: w<unsigned char>(g, *p, m, v, rem); break; case 1: w<char>(g, *p, m, v, rem); break; case 2: w<unsigned short>(g, *p, m, v, rem); break; case 3: w<short>(g, *p, m, v, rem); break;
				case 4: w<unsigned int>(g, *p, m, v, rem); break; case 5: w<int>(g, *p, m, v, rem); break; case 6: w<unsigned long>(g, *p, m, v, rem); break; case 7: w<long>(g, *p, m, v, rem); break;
				case 8: w<unsigned long long>(g, *p, m, v, rem); break; case 9: w<long long>(g, *p, m, v, rem); break;
				case 10: { std::string s = genData(g); if (g.b()) { *p << s; m.body += s; } else { *p << s.c_str(); m.body += s.c_str(); } break; }
				}
				break;
			}
			case 3:
			{
				std::string s = genData(g); snprintf(what, sizeof what, "write %zu bytes", s.size());
				if (g.b()) p->write(s.data(), s.size()); else p->write((const unsigned char *)s.data(), s.size());
				m.body += s; break;
			}
			case 4:
			{
				if (rem.empty()) break;
				std::pair<size_t, int> at = g.pick(rem); uint64_t v = g.num64(); bool sg = g.b(), ll = g.b(); snprintf(what, sizeof what, "writePos(%llx, %zu) width %d", (unsigned long long)v, at.first, at.second);
				if (at.first + at.second > N + m.body.size()) break;
				if (at.second == 1) { if (sg) wp<char>(*p, m, v, at.first); else wp<unsigned char>(*p, m, v, at.first); }
				else if (at.second == 2) { if (sg) wp<short>(*p, m, v, at.first); else wp<unsigned short>(*p, m, v, at.first); }
				else if (at.second == 4) { if (sg) wp<int>(*p, m, v, at.first); else wp<unsigned int>(*p, m, v, at.first); }
				else if (ll) { if (sg) wp<long long>(*p, m, v, at.first); else wp<unsigned long long>(*p, m, v, at.first); }
				else { if (sg) wp<long>(*p, m, v, at.first); else wp<unsigned long>(*p, m, v, at.first); }
				g.label("writePos"); break;
			}
			case 5: case 6: case 7:
			{
				unsigned t = g.u(10); snprintf(what, sizeof what, "read type %u", t); ++reads;
				switch (t)
				{
				case 0: r<unsigned char>(g, *p, m, "unsigned char"); break; case 1: r<char>(g, *p, m, "char"); break; case 2: r<unsigned short>(g, *p, m, "unsigned short"); break; case 3: r<short>(g, *p, m, "short"); break;
				case 4: r<unsigned int>(g, *p, m, "unsigned int"); break; case 5: r<int>(g, *p, m, "int"); break; case 6: r<unsigned long>(g, *p, m, "unsigned long"); break; case 7: r<long>(g, *p, m, "long"); break;
				case 8: r<unsigned long long>(g, *p, m, "unsigned long long"); break; case 9: r<long long>(g, *p, m, "long long"); break;
				}
				break;
			}
			case 8:
			{
				size_t left = m.body.size() - m.pos; int n; ++reads;
				switch (g.u(5)) { case 0: n = (int)left; break; case 1: n = (int)left + 1; break; case 2: n = -1 - (int)g.u(5); break; case 3: n = (int)g.u(0x80000000u); break; default: n = (int)g.u(left + 1); }
				snprintf(what, sizeof what, "read(%d) with %zu left", n, left);
				bool ok = true, cs = g.b(); std::string got;
				if (cs) { char *b = (char *)malloc(left + 1); try { p->read(b, n); got.assign(b, n); } catch (const std::exception &) { ok = false; } free(b); }
				else try { p->read(got, n); } catch (const std::exception &) { ok = false; }
				bool want = n >= 0 && (size_t)n <= left;
				PBT_CHECK(g, ok == want, "%s %s", what, ok ? "succeeds" : "throws");
				if (ok) { PBT_CHECK(g, got == m.body.substr(m.pos, n), "%s gives %s", what, quote(got).c_str()); m.pos += n; } else g.label("read refused");
				break;
			}
			case 9:
			{
				unsigned k = g.u(4); size_t left = m.body.size() - m.pos; std::string got; bool ok = true; ++reads; snprintf(what, sizeof what, "readString%u with %zu left", k == 3 ? 4 : k, left);
				size_t lenw = k == 3 ? 4 : k; bool want; std::string exp; size_t adv = 0;
				if (k == 0) { size_t z = m.body.find('\0', m.pos); want = z != std::string::npos; if (want) { exp = m.body.substr(m.pos, z - m.pos); adv = exp.size() + 1; } }
				else { want = left >= lenw; if (want) { uint64_t n = unbe(m.body, m.pos, (int)lenw); want = n <= left - lenw; if (want) { exp = m.body.substr(m.pos + lenw, n); adv = lenw + n; } } }
				try { if (k == 0) p->readString(got); else if (k == 1) p->readString1(got); else if (k == 2) p->readString2(got); else p->readString4(got); } catch (const std::exception &) { ok = false; }
				PBT_CHECK(g, ok == want, "%s %s", what, ok ? "succeeds" : "throws");
				if (ok) { PBT_CHECK(g, got == exp, "%s gives %s instead of %s", what, quote(got).c_str(), quote(exp).c_str()); m.pos += adv; g.labelIf(exp.size() > 0, "counted string read"); }
				else
				{ // the count may have been consumed; the position stays inside the package
					long rm = remaining(*p); PBT_CHECK(g, rm >= 0 && rm <= (long)left && rm >= (long)left - (long)lenw, "%s fails and leaves %ld bytes to read", what, rm);
					m.pos = m.body.size() - rm; g.label("read refused");
				}
				break;
			}
			case 10: case 11:
			{
				int off; unsigned d = g.u(3); long B = m.body.size();
				switch (g.u(4)) { case 0: off = (int)g.range(-(long)N - 3, N + 3); break; case 1: off = (int)g.range(-B - 2, B + 2); break; case 2: off = (int)g.num64(); break; default: off = (int)g.range(-(long)m.pos - 1, B - (long)m.pos + 1); }
				long long tgt = d == 0 ? off : d == 1 ? (long long)m.pos + off : (long long)B + off;
				snprintf(what, sizeof what, "seek(%d, %s) at %zu of %ld", off, d == 0 ? "S_BEG" : d == 1 ? "S_CUR" : "S_END", m.pos, B);
				bool ok = p->seek(off, d == 0 ? P::S_BEG : d == 1 ? P::S_CUR : P::S_END);
				if (tgt >= 0 && tgt < B) PBT_CHECK(g, ok || (d == 2 && off > 0), "%s is refused", what);
				if (tgt < 0 || tgt > B) PBT_CHECK(g, !ok, "%s succeeds", what);
				if (ok) m.pos = tgt; else g.label("seek refused");
				g.labelIf(ok && d == 1, "relative seek"); ++reads;
				break;
			}
			case 12:
			{
				std::string s = genData(g); unsigned k = g.u(6); snprintf(what, sizeof what, "replace kind %u with %zu bytes", k, s.size());
				if (k == 0) { p->clear(); m.head = std::string(N, 0); m.body = ""; m.pos = 0; }
				else if (k == 1) { p->clearBody(); m.body = ""; m.pos = 0; }
				else if (k == 2) { Head<N> h; std::string hb = g.blob(N); memcpy(&h, hb.data(), N); p->setPkgHead(h); m.head = hb; }
				else if (k == 3)
				{
					if (g.b()) p->setPkgBody(s.data(), (int)s.size()); else p->setPkgBody((const unsigned char *)s.data(), (int)s.size());
					m.body = s; long rm = remaining(*p); // the position is reset or kept, always inside
					PBT_CHECK(g, rm == (long)s.size() || (m.pos <= s.size() && rm == (long)(s.size() - m.pos)), "setPkgBody(%zu bytes) leaves %ld bytes to read", s.size(), rm);
					m.pos = s.size() - rm; 
				}
				else
				{
					bool ok = true; s = g.blob(N - (g.chance(1, 4) ? 1 : 0)) + (g.chance(3, 4) ? s : std::string());
					try { if (k == 4) p->setPkgData((const unsigned char *)s.data(), (int)s.size()); else p->setPkgData(s.data(), (int)s.size()); } catch (const std::exception &) { ok = false; }
					PBT_CHECK(g, ok == (s.size() >= N), "setPkgData(%zu bytes) for a head of %d is %s", s.size(), N, ok ? "accepted" : "refused");
					if (ok) { m.head = s.substr(0, N); m.body = s.substr(N); m.pos = 0; }
				}
				rem.clear(); break;
			}
			case 13:
			{
				P c(*p); Model cm = m; same(g, c, cm, "copy"); snprintf(what, sizeof what, "copy"); g.label("copy or assignment");
				if (g.b()) { *p << (unsigned char)7; m.body += '\x07'; same(g, c, cm, "copy after a write to the original"); c << (short)3; }
				else { P d; d << (int)99; d = *p; same(g, d, m, "assigned package"); d << (int)1; *p = *p; }
				break;
			}
			}
			if (what[0]) g.note("%s", what);
			same(g, *p, m, what);
		}
		g.labelIf(reads > 0 && writes > 0, "reads and writes");
		if (reads >= 2 && m.body.size() > 0) g.nontrivial();
		delete p;
	}
};
static void history(G &g) { switch (g.u(4)) { case 0: T<1>::run(g); break; case 1: T<7>::run(g); break; case 2: T<12>::run(g); break; default: T<43>::run(g); } }

int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"history", history, 200000, 3000000, "1-30 (thorough 60) operations on a CPackage with a 1, 7, 12 or 43 byte head: typed writes, writePos at remembered positions, typed / counted / NUL-terminated reads, seeks, body and head replacement, copies; non-trivial: at least two reads or seeks on a non-empty body", 10000, 0};
	s.push_back(a);
	return pbtMain(argc, argv, "C07", s);
}
