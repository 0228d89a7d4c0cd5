// SCALE: 5
// C15: string helpers obey their algebraic laws.
#include "pbt.h"
#include <stdexcept>
#include "StringHelper.h"
using namespace pbt;
typedef std::string S;

static S gs(G &g, size_t max) { switch (g.u(5)) { case 0: return g.text(g.size(max), "a"); case 1: return g.bytes(g.size(max)); default: return g.text(g.size(max), "ab, "); } }
static S join(const std::vector<S> &v, const S &sep) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }
static bool at(const S &s, size_t p, const S &f) { if (p + f.size() > s.size()) return false; for (size_t i = 0; i < f.size(); ++i) if (s[p + i] != f[i]) return false; return true; }
static size_t naive(const S &s, const S &f, size_t from) { for (size_t i = from; i + f.size() <= s.size(); ++i) if (at(s, i, f)) return i; return S::npos; }
static void split(G &g)
{
	S sep = gs(g, 3), s; std::vector<S> r;
	if (sep.empty()) { s = gs(g, 20); lce::SplitStr(s, sep, r); PBT_CHECK(g, join(r, sep) == s, "splitting on nothing loses characters"); g.label("empty separator"); return; }
	for (size_t i = 0, n = g.size(8); i < n; ++i) { s += gs(g, 6); if (g.chance(2, 3)) s += sep; if (g.chance(1, 4)) s += sep.substr(0, sep.size() - 1); }
	g.note("split %s at %s", quote(s).c_str(), quote(sep).c_str());
	bool pre = g.chance(1, 4); if (pre) r.push_back("before");
	lce::SplitStr(s, sep, r);
	if (pre) { PBT_CHECK(g, r.size() > 1 && r[0] == "before", "SplitStr drops what the result held"); r.erase(r.begin()); }
	std::vector<S> want; size_t b = 0, e; while ((e = naive(s, sep, b)) != S::npos) { want.push_back(s.substr(b, e - b)); b = e + sep.size(); } want.push_back(s.substr(b));
	PBT_CHECK(g, join(r, sep) == s, "splitting %s at %s and joining gives %s", quote(s).c_str(), quote(sep).c_str(), quote(join(r, sep)).c_str());
	PBT_CHECK(g, r == want, "splitting %s at %s gives %zu pieces instead of %zu", quote(s).c_str(), quote(sep).c_str(), r.size(), want.size());
	g.labelIf(sep.size() > 1, "long separator");
	if (want.size() > 2) g.nontrivial();
}
static void replace(G &g)
{
	S find = gs(g, 3), rep = g.b() ? S() : gs(g, 5), s; if (g.chance(1, 4)) rep = gs(g, 2) + find + gs(g, 2);
	for (size_t i = 0, n = g.size(8); i < n; ++i) { s += gs(g, 6); if (g.chance(2, 3)) s += find; }
	g.note("replace %s by %s in %s", quote(find).c_str(), quote(rep).c_str(), quote(s).c_str());
	S want, t = s; size_t hits = 0;
	if (find.empty()) { lce::ReplaceStr(t, find, rep); PBT_CHECK(g, t == s, "replacing nothing changes the string"); g.label("empty find"); return; }
	for (size_t i = 0; i < s.size();) if (at(s, i, find)) { want += rep; i += find.size(); ++hits; } else want += s[i++];
	lce::ReplaceStr(t, find, rep);
	PBT_CHECK(g, t == want, "replacing %s by %s in %s gives %s instead of %s", quote(find).c_str(), quote(rep).c_str(), quote(s).c_str(), quote(t).c_str(), quote(want).c_str());
	if (hits > 1) g.nontrivial();
}
static void trim(G &g)
{
	S ws = " \r\n\t", l = g.text(g.size(5), " \r\n\t"), r = g.text(g.size(5), " \r\n\t"), m = g.b() ? g.text(g.size(10), "a b\t") : g.bytes(g.size(10)); S s = l + m + r, t = s;
	g.note("trim %s", quote(s).c_str());
	size_t i = 0, j = s.size(); while (i < j && ws.find(s[i]) != S::npos) ++i; while (j > i && ws.find(s[j - 1]) != S::npos) --j;
	lce::TrimStr(t); PBT_CHECK(g, t == s.substr(i, j - i), "trimming %s gives %s", quote(s).c_str(), quote(t).c_str());
	if (i > 0 && j < s.size()) g.nontrivial();
}
static void middle(G &g)
{
	S b = gs(g, 3), e = gs(g, 3), s = gs(g, 6) + (g.chance(4, 5) ? b : S()) + gs(g, 6) + (g.chance(4, 5) ? e : S()) + gs(g, 6), out = "kept"; size_t from = g.u(s.size() + 4);
	if (g.chance(1, 2)) from = 0;
	g.note("between %s and %s from %zu in %s", quote(b).c_str(), quote(e).c_str(), from, quote(s).c_str());
	if (g.b())
	{
		size_t p = from <= s.size() ? naive(s, b, from) : S::npos, q = p == S::npos ? p : naive(s, e, p + b.size());
		size_t r = lce::GetMiddleStr(from, s, out, b, e);
		if (q == S::npos) PBT_CHECK(g, r == S::npos && out == "kept", "no such pair, but %zu and %s", r, quote(out).c_str());
		else { PBT_CHECK(g, r == q + e.size() && out == s.substr(p + b.size(), q - p - b.size()), "gives %s, continuing at %zu", quote(out).c_str(), r); g.nontrivial(); }
	}
	else
	{
		size_t q = from <= s.size() ? naive(s, e, from) : S::npos; size_t r = lce::GetMiddleStr(0, s, out, from, e);
		if (q == S::npos) PBT_CHECK(g, r == S::npos && out == "kept", "no end, but %zu and %s", r, quote(out).c_str());
		else PBT_CHECK(g, r == q + e.size() && out == s.substr(from, q - from), "from position %zu gives %s, continuing at %zu", from, quote(out).c_str(), r);
	}
}
static void hostport(G &g)
{
	char sp = g.pick({':', ' ', '/', 'a'}); S h = gs(g, 8), p = gs(g, 6); for (size_t i; (i = h.find(sp)) != S::npos;) h.erase(i, 1);
	S H = "x", P = "y", s = h + sp + p; g.note("%s", quote(s).c_str());
	bool r = sp == ':' && g.b() ? lce::SplitHostPort(s, H, P) : lce::SplitHostPort(s, H, P, sp);
	PBT_CHECK(g, r && H == h && P == p, "%s gives host %s port %s", quote(s).c_str(), quote(H).c_str(), quote(P).c_str());
	PBT_CHECK(g, !lce::SplitHostPort(h, H, P, sp), "a string without separator is accepted");
	g.nontrivial();
}
static void numbers(G &g)
{
	uint64_t v = g.num64(); char b[32]; g.note("%llx", (unsigned long long)v);
	#define ONE(T, fmt, conv) { S t = lce::ToStr((T)v); snprintf(b, sizeof b, fmt, (T)v); PBT_CHECK(g, t == b && (T)conv == (T)v, "ToStr gives %s instead of %s", quote(t).c_str(), b); }
	ONE(int, "%d", strtol(t.c_str(), 0, 10)) ONE(unsigned, "%u", strtoul(t.c_str(), 0, 10)) ONE(long, "%ld", strtol(t.c_str(), 0, 10)) ONE(unsigned long, "%lu", strtoul(t.c_str(), 0, 10)) ONE(long long, "%lld", strtoll(t.c_str(), 0, 10)) ONE(unsigned long long, "%llu", strtoull(t.c_str(), 0, 10)) ONE(short, "%hd", strtol(t.c_str(), 0, 10)) ONE(unsigned short, "%hu", strtol(t.c_str(), 0, 10))
	g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s; const char *r = "short strings over small alphabets (and random bytes) so that separators overlap; non-trivial: ";
	static S r1 = S(r) + "more than two pieces", r2 = S(r) + "two or more replacements", r3 = S(r) + "something to trim at both ends", r4 = S(r) + "a pair was found";
	Suite a[] = {{"split", split, 60000, 800000, r1.c_str(), 5000, 0}, {"replace", replace, 60000, 800000, r2.c_str(), 5000, 0}, {"trim", trim, 40000, 400000, r3.c_str(), 5000, 0}, {"middle", middle, 60000, 800000, r4.c_str(), 5000, 0}, {"hostport", hostport, 30000, 300000, "hosts without the separator; all non-trivial", 5000, 0}, {"numbers", numbers, 40000, 400000, "boundary-biased integers of eight types; all non-trivial", 5000, 0}};
	s.assign(a, a + 6);
	return pbtMain(argc, argv, "C15", s);
}
