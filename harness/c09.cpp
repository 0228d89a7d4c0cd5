// SCALE: 5
// C09: length-prefixed framing delivers exactly the messages sent.
#include "pbt.h"
#include <arpa/inet.h>
#include "CPackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CRawPackageFilter.h"
using namespace pbt; using namespace lce;

struct Exact { char *p; explicit Exact(const std::string &s) : p((char *)malloc(s.size())) { memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };
static std::string frame(int lw, const std::string &body, long len = -1, int stx = 2, int etx = 3)
{
	if (len < 0) len = body.size() + lw + 2;
	std::string r(1, (char)stx); for (int i = lw - 1; i >= 0; --i) r += (char)((unsigned long)len >> (8 * i));
	return r + body + (char)etx;
}
// what the framing decision must be for the bytes available; alt: a second acceptable answer
static int ref(int lw, const std::string &d, size_t &len, int &alt)
{
	alt = 99; len = 0;
	if (d.empty()) return -1;
	if (d[0] != 2) return -2;
	size_t head = 1 + lw, min = lw + 2;
	unsigned long l = 0; bool known = d.size() >= head;
	if (known) for (int i = 0; i < lw; ++i) l = l << 8 | (unsigned char)d[1 + i];
	bool bad = known && (l < min || l > 0x7fffffffUL);
	if (d.size() < min) { if (bad) alt = -2; return -1; }
	if (bad) return -2;
	if (d.size() < l) return -1;
	len = l;
	return d[l - 1] == 3 ? 0 : -2;
}
static std::string genBody(G &g, int lw)
{
	switch (g.u(8))
	{
	case 0: return "";
	case 1: { std::string s; for (size_t i = 0, n = g.size(20); i < n; ++i) s += (char)g.pick({2, 3, 0, 3, 2, 6}); return s; } // looks like marks
	case 2: { size_t n = g.thorough() ? 70000 : 5000; if (lw == 2 && n > 65531) n = 65531; return g.blob(g.u(n + 1)); }
	case 3: return lw == 2 ? g.blob(g.chance(1, 10) ? 65531 : 251 + g.u(6)) : g.blob(g.chance(1, 10) ? 65529 + g.u(3) : 249 + g.u(6));
	default: return g.blob(g.size(60));
	}
}
static void ask(G &g, CPackageFilter &f, int lw, const std::string &avail, int &r, size_t &len)
{
	Exact ex(avail); int real = -7, pkg = -7, alt; size_t want; r = f.isWholePkg(ex.p, (int)avail.size(), real, pkg);
	int w = ref(lw, avail, want, alt);
	PBT_CHECK(g, r == w || r == alt, "%zu bytes available (%s): framing answers %d instead of %d", avail.size(), quote(avail, 24).c_str(), r, w);
	len = want;
	if (r == 0)
	{
		PBT_CHECK(g, pkg >= 0 && (size_t)pkg == want, "message length is %d instead of %zu", pkg, want);
		PBT_CHECK(g, real >= 0 && (size_t)real == want - lw - 2, "payload length is %d instead of %zu", real, want - lw - 2);
		const char *q = f.getRealPkgData(ex.p, pkg); PBT_CHECK(g, q == ex.p + 1 + lw, "payload starts at offset %ld instead of %d", (long)(q - ex.p), 1 + lw);
	}
}
static void stream(G &g)
{
	CH2T3PackageFilter f4; CH2ShortT3PackageFilter f2; int lw = g.b() ? 4 : 2; CPackageFilter &f = lw == 4 ? (CPackageFilter &)f4 : (CPackageFilter &)f2;
	size_t n = 1 + g.size(8); std::vector<std::string> sent; std::string wire;
	for (size_t i = 0; i < n; ++i) { std::string b = genBody(g, lw); std::string m = frame(lw, b); sent.push_back(m); wire += m; g.note("message of %zu bytes: %s", m.size(), quote(m, 30).c_str()); }
	std::string buf; size_t fed = 0, got = 0, waits = 0;
	while (fed < wire.size())
	{
		size_t left = wire.size() - fed, k;
		switch (g.u(5)) { case 0: k = 1; break; case 1: k = 1 + g.u(8); break; case 2: k = sent[std::min(got, n - 1)].size(); break; case 3: k = 1 + g.u(left); break; default: k = wire.size() > 300 ? 1 + g.u(left) : 1 + g.u(3); }
		if (g.isNontrivial() && waits > 200) k = left;
		k = std::min(k, left); buf += wire.substr(fed, k); fed += k;
		int r; size_t len;
		while (ask(g, f, lw, buf, r, len), r == 0)
		{
			PBT_CHECK(g, got < n && buf.substr(0, len) == sent[got], "message %zu is delivered as %s instead of %s", got, quote(buf.substr(0, len), 30).c_str(), got < n ? quote(sent[got], 30).c_str() : "nothing");
			buf.erase(0, len); ++got;
		}
		PBT_CHECK(g, r == -1, "after %zu of %zu bytes of a valid stream framing answers %d", fed, wire.size(), r);
		if (!buf.empty()) ++waits;
		if (n > 1 && waits > 1) g.nontrivial();
	}
	PBT_CHECK(g, got == n && buf.empty(), "%zu of %zu messages delivered, %zu bytes left over", got, n, buf.size());
	g.label(lw == 4 ? "32 bit length" : "16 bit length");
}
static void corrupt(G &g)
{
	CH2T3PackageFilter f4; CH2ShortT3PackageFilter f2; int lw = g.b() ? 4 : 2; CPackageFilter &f = lw == 4 ? (CPackageFilter &)f4 : (CPackageFilter &)f2;
	std::string b = g.blob(g.size(40)), d; const char *what;
	switch (g.u(6))
	{
	case 0: { int s = (int)g.u(256); d = frame(lw, b, -1, s); what = "start byte"; break; }
	case 1: { int e = (int)g.u(256); d = frame(lw, b, -1, 2, e); what = "end byte"; break; }
	case 2: d = frame(lw, b, (long)g.u(lw + 3)); what = "length too small"; break;
	case 3: d = frame(lw, b, lw == 4 ? (long)(g.b() ? 0x7ffffff0UL + g.u(32) : 0x80000000UL + g.u(0x80000000UL)) : (long)g.u(65536)); what = "length too large"; break;
	case 4: d = frame(lw, b, (long)b.size() + lw + 2 + g.range(-6, 6)); what = "length slightly off"; if ((long)d.size() < 0) d = ""; break;
	default: d = g.b() ? g.bytes(g.u(14)) : "\x02" + g.bytes(g.u(14)); what = "random bytes";
	}
	if (g.b()) d += g.blob(g.u(20));
	g.note("%s: %s", what, quote(d, 80).c_str()); g.label(what);
	int r; size_t len; bool dead = false;
	for (size_t k = 0; k <= d.size(); ++k)
	{
		ask(g, f, lw, d.substr(0, k), r, len);
		if (dead) PBT_CHECK(g, r == -2, "an invalid stream becomes valid when more bytes arrive");
		if (r == -2) dead = true;
	}
	if (d.size() > 3) g.nontrivial();
}
static void raw(G &g)
{
	CRawPackageFilter f; size_t n = g.size(2000); std::string d = g.blob(n); Exact ex(d); int real = -7, pkg = -7; int r = f.isWholePkg(ex.p, (int)n, real, pkg);
	g.note("raw, %zu bytes", n);
	if (n == 0) PBT_CHECK(g, r == -1, "raw framing answers %d for no data", r);
	else { PBT_CHECK(g, r == 0 && pkg == (int)n && real == (int)n && f.getRealPkgData(ex.p, pkg) == ex.p, "raw framing answers %d, length %d for %zu bytes", r, pkg, n); g.nontrivial(); }
}
// long messages, asked about as they come in
static void large(G &g)
{
	CH2T3PackageFilter f4; CH2ShortT3PackageFilter f2; int lw = g.chance(3, 4) ? 4 : 2; CPackageFilter &f = lw == 4 ? (CPackageFilter &)f4 : (CPackageFilter &)f2;
	size_t n = g.edge(lw == 2 ? 65531 : g.chance(1, 8) ? 1 << 24 : 1 << 21); std::string w = frame(lw, g.fill(n, "\x02\x03" "ab"), -1, 2, g.chance(1, 6) ? g.u(256) : 3), behind = g.b() ? frame(lw, "x") : g.blob(g.u(9));
	g.note("%d byte length, payload of %zu bytes, end byte %d, %zu bytes behind", lw, n, (unsigned char)w[w.size() - 1], behind.size());
	std::string all = w + behind; int r; size_t len, cuts[] = {g.u(8), w.size() / 2, w.size() - 1 - g.u(std::min<size_t>(w.size(), 3)), w.size(), all.size()};
	for (size_t c : cuts) if (c <= all.size()) ask(g, f, lw, all.substr(0, c), r, len);
	if (n > 65536 || (lw == 2 && n > 32768)) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"stream", stream, 40000, 400000, "1-9 messages (bodies that contain mark bytes, length class boundaries) cut into fragments; non-trivial: two or more messages and two or more waits inside a message", 10000, 0};
	Suite b = {"corrupt", corrupt, 60000, 600000, "one corrupted frame, framing asked at every prefix; non-trivial: more than three bytes", 10000, 0};
	Suite c = {"raw", raw, 4000, 40000, "raw framing of any bytes; non-trivial: not empty", 10000, 0};
	Suite d = {"large", large, 1500, 15000, "messages up to 16 megabytes asked about at five prefixes; non-trivial: longer than the length field of a short message counts without its top bit", 10000, 0};
	s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d);
	return pbtMain(argc, argv, "C09", s);
}
