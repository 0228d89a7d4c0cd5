// SCALE: 2
// C10: HTTP framing depends only on the bytes received.
#include "pbt.h"
#include <arpa/inet.h>
#include <strings.h>
#include "CPackageFilter.h"
#include "CHttpPackageFilter.h"
using namespace pbt; using namespace lce;

struct Exact { char *p; explicit Exact(const std::string &s) : p((char *)malloc(s.size())) { memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };
struct Msg { std::string head, body; };

static Msg genMsg(G &g, bool large = false)
{
	Msg m; std::string h; bool resp = g.b();
	if (resp) { char b[64]; snprintf(b, sizeof b, "HTTP/1.%d %d ", (int)g.u(2), (int)g.range(100, 599)); h = b + g.text(g.size(10), "OK NotFud"); }
	else h = std::string(g.pick({"GET", "POST", "PUT", "HEAD", "OPTIONS"})) + " /" + g.text(g.size(20), "abc/?&=%20HTTP") + " HTTP/1.1";
	h += "\r\n";
	size_t n = g.size(8); long at = g.chance(2, 3) ? (long)g.u(n + 1) : -1;
	switch (g.u(8))
	{
	case 0: m.body = "Content-Length: 3\r\n\r\nabc"; break;
	case 1: m.body = std::string(g.u(5), '\0') + "\r\n\r\n" + g.text(g.size(8), "\r\n"); break;
	case 2: m.body = "HTTP/1.1 200 OK\r\n\r\n"; break;
	case 3: m.body = ""; break;
	case 4: m.body = g.blob(g.u(g.thorough() ? 20000 : 3000)); break;
	default: m.body = g.blob(g.size(60));
	}
	if (large && g.b()) m.body = g.fill(g.edge(300000), "ab\r\n: ");
	if (at < 0) m.body = "";
	if (large && g.b()) n += g.u(3) ? g.u(40) : g.u(1500);
	for (size_t i = 0; i <= n; ++i)
	{
		if ((long)i == at)
		{
			char b[64]; snprintf(b, sizeof b, "%zu", m.body.size());
			std::string name = "Content-Length"; unsigned k = g.u(6); if (k == 0) name = "content-length"; else if (k == 1) name = "CONTENT-LENGTH"; else if (k == 2) name = "Content-length";
			h += name + ":" + (g.chance(1, 3) ? g.text(g.u(4), " \t") : " ") + (g.chance(1, 8) ? std::string(1 + g.edge(70), '0') : "") + b + (g.chance(1, 4) ? g.text(g.u(4), " \t") : "") + "\r\n";
			if (k < 3) g.label("Content-Length in other case");
		}
		if (i == n) break;
		if (large && g.chance(1, 4)) { h += "X-Long: " + g.fill(g.edge(20000), "abc =;") + "\r\n"; continue; }
		switch (g.u(8))
		{
		case 0: h += "X-Content-Length: 77\r\n"; g.label("decoy length"); break;
		case 1: h += "X-Note: Content-Length: 5\r\n"; g.label("decoy length"); break;
		case 2: h += "Content-Lengths: 9\r\n"; g.label("decoy length"); break;
		case 3: h += "X-Empty:\r\n"; break;
		case 4: h += "Content-Type: text/" + g.text(g.size(10), "html") + "\r\n"; break;
		default: h += "H" + g.text(g.size(8), "abc-") + ": " + g.text(g.size(200), "xyz \t:\r,HTTP") + "\r\n"; // may hold a lone CR
		}
	}
	m.head = h + "\r\n"; return m;
}
static int ask(G &g, CHttpPackageFilter &f, const std::string &avail, int &len)
{
	Exact ex(avail); int real = -7; len = -7; int r = f.isWholePkg(ex.p, (int)avail.size(), real, len);
	PBT_CHECK(g, r == 0 || r == -1 || r == -2, "framing answers %d", r);
	if (r == 0) { PBT_CHECK(g, len > 0 && (size_t)len <= avail.size(), "%zu bytes available but the message length is %d", avail.size(), len); PBT_CHECK(g, real == len && f.getRealPkgData(ex.p, len) == ex.p, "payload length %d of a message of %d bytes", real, len); }
	return r;
}
static void stream(G &g)
{
	CHttpPackageFilter f; bool large = g.chance(1, 50); size_t n = 1 + g.size(6); std::vector<Msg> sent; std::string wire;
	for (size_t i = 0; i < n; ++i) { Msg m = genMsg(g, large); sent.push_back(m); wire += m.head + m.body; g.note("message: %s + %zu bytes body %s", quote(m.head, 400).c_str(), m.body.size(), quote(m.body, 40).c_str()); }
	std::string buf; size_t fed = 0, got = 0, waits = 0, bodies = 0;
	for (size_t i = 0; i < n; ++i) bodies += !sent[i].body.empty();
	bool fine = wire.size() < 800;
	while (fed < wire.size())
	{
		size_t left = wire.size() - fed, k;
		switch (wire.size() > 20000 && g.b() ? 4 : g.u(4)) { case 4: k = wire.size() / 30 + g.u(wire.size() / 8); break; case 0: k = fine ? 1 : 1 + g.u(40); break; case 1: k = 1 + g.u(fine ? 6 : 200); break; case 2: k = got < n && buf.size() < sent[got].head.size() ? sent[got].head.size() - buf.size() + g.u(3) : 1 + g.u(left); break; default: k = 1 + g.u(left); }
		if (k < 1) k = 1;
		k = std::min(k, left); buf += wire.substr(fed, k); fed += k;
		int r, len;
		while ((r = ask(g, f, buf, len)) == 0)
		{
			std::string w = got < n ? sent[got].head + sent[got].body : "";
			PBT_CHECK(g, buf.substr(0, len) == w, "message %zu of %zu is framed as %d bytes instead of %zu", got, n, len, w.size());
			buf.erase(0, len); ++got; if (buf.empty()) break;
		}
		if (!buf.empty())
		{
			PBT_CHECK(g, r == -1, "after %zu of %zu bytes of a valid stream framing answers %d", fed, wire.size(), r);
			PBT_CHECK(g, got < n && buf.size() < sent[got].head.size() + sent[got].body.size(), "message %zu is complete (%zu bytes available, %zu needed) but framing answers %d", got, buf.size(), sent[got].head.size() + sent[got].body.size(), r);
			++waits;
		}
	}
	PBT_CHECK(g, got == n && buf.empty(), "%zu of %zu messages delivered, %zu bytes left over", got, n, buf.size());
	g.labelIf(bodies > 0, "with bodies"); g.labelIf(waits > 2, "several waits");
	if (n > 1 && waits > 0 && bodies > 0) g.nontrivial();
}
// a body that is announced but not there yet, up to the largest a length can say
static void announced(G &g)
{
	CHttpPackageFilter f; Msg m = genMsg(g); std::string h = m.head; size_t p;
	{ std::string low = h; for (size_t i = 0; i < low.size(); ++i) low[i] = (char)tolower(low[i]); if ((p = low.find("\r\ncontent-length:")) != std::string::npos) { size_t e = h.find("\r\n", p + 2); h.erase(p, e - p); } }
	long long room = 0x7fffffffLL, len; std::string name = g.pick({"Content-Length", "content-length", "CONTENT-LENGTH"}), line; char b[64];
	switch (g.u(3)) { case 0: len = 0x7fffffffLL - (long long)h.size() - 60 - (long long)g.u(3); break; case 1: len = (1LL << (1 + g.u(30))) + g.range(-1, 1); break; default: len = 1 + (long long)g.u(0x7ffff000ull - h.size() - 100); }
	snprintf(b, sizeof b, "%lld", len); line = "\r\n" + name + ": " + b;
	p = h.find("\r\n"); if (g.b()) p = h.size() - 4; h.insert(p, line); (void)room;
	std::string got = g.blob(g.u(std::min<long long>(len, 400))); int l;
	g.note("%s + %zu of %lld bytes", quote(h, 400).c_str(), got.size(), len);
	int r = ask(g, f, h + got, l);
	PBT_CHECK(g, r == -1, "%zu of %lld body bytes are there but framing answers %d, length %d", got.size(), len, r, l);
	g.nontrivial();
}
static void garbage(G &g)
{
	CHttpPackageFilter f; std::string d; static const char *lens[] = {"-1", "-40", "-2147483648", "2147483647", "2147483648", "4294967295", "4294967297", "99999999999999999999", "abc", "", " ", "+5", "0x10", "5 5", "-0", "1e3", "2147483600", "18446744073709551616"};
	unsigned k = g.u(5);
	if (k == 0) d = g.text(g.size(60), "\r\n:HTP ab");
	else if (k == 1) d = g.bytes(g.size(60));
	else if (k == 2) d = "POST / HTTP/1.1\r\nContent-Length: " + std::string(lens[g.u(18)]) + (g.b() ? "\r\n\r\n" : "\r\n") + g.text(g.size(60), "0123456789\r\n");
	else if (k == 3) d = std::string(g.b() ? "HTTP/1.1 200 OK\r\n" : "GET / HTTP/1.0\r\n") + "Content-Length: " + lens[g.u(18)] + "\r\nA: b\r\n\r\n" + g.blob(g.size(100));
	else
	{
		Msg m = genMsg(g); d = m.head + m.body; size_t e = 1 + g.u(4);
		for (size_t i = 0; i < e && !d.empty(); ++i) { size_t p = g.u(d.size()); switch (g.u(3)) { case 0: d[p] = (char)g.u(256); break; case 1: d.erase(p, 1 + g.u(4)); break; default: d.insert(p, g.text(1 + g.u(4), "\r\n: -9\0")); } }
	}
	g.note("%s", quote(d, 300).c_str());
	size_t lo = d.size() > 400 ? d.size() - 400 : 0; int first = -1, firstLen = 0;
	for (size_t i = lo; i <= d.size(); ++i)
	{
		int len; int r = ask(g, f, d.substr(0, i), len);
		if (first == 0) PBT_CHECK(g, r == 0 && len == firstLen, "the first message is %d bytes, but with more bytes behind it framing answers %d, length %d", firstLen, r, len);
		if (first == -2) PBT_CHECK(g, r == -2, "a stream reported invalid becomes %d when more bytes arrive", r);
		if (first == -1 && r != -1) { first = r; firstLen = len; }
	}
	g.labelIf(first == 0, "accepted"); g.labelIf(first == -2, "invalid"); g.labelIf(first == -1, "incomplete");
	if (d.find("\r\n") != std::string::npos) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"stream", stream, 30000, 300000, "1-7 pipelined requests/responses with decoy length headers and bodies that look like heads, cut into fragments; non-trivial: two or more messages, at least one body, at least one wait", 10000, 0};
	Suite b = {"garbage", garbage, 60000, 600000, "random bytes, bad lengths and mutated messages, framing asked at every prefix (the last 400 bytes of long ones); non-trivial: contains a line end", 10000, 0};
	Suite c = {"announced", announced, 20000, 300000, "a head that announces up to 2 GB of body with only a part of it there; all non-trivial", 10000, 0};
	s.push_back(a); s.push_back(b); s.push_back(c);
	return pbtMain(argc, argv, "C10", s);
}
