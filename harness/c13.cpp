// SCALE: 4
// REPO_SRC: src/Utils.cpp
// C13: URL encoding round-trips and decoding is total.
#include "pbt.h"
#include "Utils.h"
using namespace pbt;

static bool hex(unsigned char c, int &v) { if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = c - 'A' + 10; else return false; return true; }
static std::string refDecode(const std::string &s)
{
	std::string r; int a, b;
	for (size_t i = 0; i < s.size(); ++i)
	{
		if (s[i] == '+') r += ' ';
		else if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1], a) && hex(s[i + 2], b)) { r += (char)(a * 16 + b); i += 2; }
		else r += s[i];
	}
	return r;
}
static std::string refEncode(const std::string &s)
{
	std::string r; char b[4];
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = s[i];
		if (c == ' ') r += '+'; else if ((c < 128 && isalnum(c)) || c == '-' || c == '_' || c == '.') r += c; else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
	}
	return r;
}
static void roundtrip(G &g)
{
	std::string s;
	switch (g.u(4)) { case 0: s = g.bytes(g.size(60)); break; case 1: s = g.text(g.size(40), "+% &=\0aZ09-_.~"); break; case 2: s = g.blob(g.size(3000)); break; default: for (size_t i = 0, n = g.size(40), b = g.u(256); i < n; ++i) s += (char)(b + i); }
	g.note("%s", quote(s).c_str());
	std::string e = lce::FormUrlEncode(s);
	PBT_CHECK(g, e == refEncode(s), "%s encodes to %s instead of %s", quote(s).c_str(), quote(e).c_str(), quote(refEncode(s)).c_str());
	std::string d = lce::FormUrlDecode(e);
	PBT_CHECK(g, d == s, "%s decodes to %s instead of %s", quote(e).c_str(), quote(d).c_str(), quote(s).c_str());
	if (e != s && s.size() > 2) g.nontrivial();
}
static void total(G &g)
{
	std::string s;
	switch (g.u(4)) { case 0: s = g.text(g.size(20), "%+%4aF%gZ 0x"); break; case 1: s = refEncode(g.bytes(g.size(20))); if (!s.empty()) s.erase(g.u(s.size())); break; case 2: s = g.bytes(g.size(40)); break; default: { s = g.text(g.size(10), "ab%"); char b[4]; int n = snprintf(b, sizeof b, "%%%02x", (int)g.u(256)); s.append(b, g.u(n + 1)); } }
	g.note("%s", quote(s).c_str()); std::string d;
	try { d = lce::FormUrlDecode(s); } catch (const std::exception &e) { g.fail("decoding %s throws %s", quote(s).c_str(), e.what()); }
	PBT_CHECK(g, d == refDecode(s), "%s decodes to %s instead of %s", quote(s).c_str(), quote(d).c_str(), quote(refDecode(s)).c_str());
	size_t p = s.rfind('%'); g.labelIf(p != std::string::npos && p + 2 >= s.size(), "truncated escape at the end");
	if (p != std::string::npos) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"roundtrip", roundtrip, 80000, 1000000, "byte strings with reserved characters; non-trivial: over two bytes and something is escaped", 10000, 0};
	Suite b = {"total", total, 120000, 1500000, "escape-heavy strings with malformed and truncated escapes; non-trivial: contains a percent sign", 10000, 0};
	s.push_back(a); s.push_back(b);
	return pbtMain(argc, argv, "C13", s);
}
