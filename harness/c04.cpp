// C04: JSON decoding equals the reference value; bad input is contained.
#include "refjson.h"
#include "CAnyPackage.h"
using namespace pbt; using namespace lce;

static std::string ws(G &g) { if (g.u(4)) return ""; std::string r; size_t n = 1 + g.u(3); for (size_t i = 0; i < n; ++i) r += " \t\r\n"[g.u(4)]; return r; }
static uint32_t genCp(G &g)
{
	switch (g.u(7))
	{
	case 0: return (uint32_t)g.u(0x20);
	case 1: return (uint32_t)g.range(0x80, 0x7ff);
	case 2: return (uint32_t)g.pick<int>({0x800, 0xd7ff, 0xe000, 0xffff, 0x20ac, 0x4e2d});
	case 3: return (uint32_t)g.range(0x10000, 0x10ffff);
	case 4: return (uint32_t)("\"\\/bfnrtu{}[]:,"[g.u(15)]);
	default: return (uint32_t)g.range(0x20, 0x7e);
	}
}
static void emitStr(G &g, std::string &t, std::string &val, size_t maxLen)
{
	size_t n = g.size(maxLen); t += '"'; bool lone = false;
	for (size_t i = 0; i < n; ++i)
	{
		if (!lone && g.chance(1, 60)) { uint32_t s = (uint32_t)g.range(0xd800, 0xdfff); char b[8]; snprintf(b, sizeof b, "\\u%04x", s); t += b; RefJson::utf8(val, s); lone = true; continue; } // half a pair stands for itself
		lone = false;
		uint32_t c = genCp(g); RefJson::utf8(val, c);
		char b[16]; uint64_t how = g.u(4); bool up = g.b();
		const char *sh = NULL;
		switch (c) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case 8: sh = "\\b"; break; case 12: sh = "\\f"; break; case 10: sh = "\\n"; break; case 13: sh = "\\r"; break; case 9: sh = "\\t"; break; }
		if (sh && how < 2) t += sh;
		else if (c < 0x20 || c == '"' || c == '\\' || how == 2)
		{
			if (c >= 0x10000) { uint32_t x = c - 0x10000; snprintf(b, sizeof b, up ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xD800 + (x >> 10), 0xDC00 + (x & 0x3ff)); }
			else snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", c);
			t += b;
		}
		else RefJson::utf8(t, c);
	}
	t += '"';
}
static M emitNum(G &g, std::string &t)
{
	char b[64];
	if (g.b())
	{
		if (g.u(3) == 0) { int64_t x = (int64_t)(0 - (g.num64() >> 1) - 1); snprintf(b, sizeof b, "%lld", (long long)x); t += b; M m = M::S(x); m.k = M::SINT; return m; }
		uint64_t x = g.num64(); snprintf(b, sizeof b, "%llu", (unsigned long long)x); t += b; return M::U(x);
	}
	std::string n; if (g.u(3) == 0) n += '-';
	if (g.chance(1, 12)) { // more digits than any double needs
		size_t hi = g.edge(270), lo = g.edge(600); n += '1' + (int)g.u(9); n += g.fill(hi, "0123456789") + "." + g.fill(1 + lo, g.b() ? "0" : "0123456789");
		if (g.b()) { snprintf(b, sizeof b, "%c%s%d", g.b() ? 'e' : 'E', g.pick<const char *>({"", "+", "-", "-00", "+0000000000"}), (int)g.u(20)); n += b; }
		t += n; return M::F(strtod(n.c_str(), 0));
	}
	snprintf(b, sizeof b, "%llu", (unsigned long long)(g.b() ? g.u(10) : g.num64() >> g.u(64))); n += b;
	bool frac = g.b(), ex = !frac || g.b();
	if (frac) { n += '.'; size_t k = 1 + g.u(6); for (size_t i = 0; i < k; ++i) n += (char)('0' + g.u(10)); }
	if (ex) { n += g.b() ? 'e' : 'E'; n += g.pick<const char *>({"", "+", "-"}); snprintf(b, sizeof b, "%d", (int)g.u(g.chance(1, 4) ? 280 : 20)); n += b; }
	t += n; return M::F(strtod(n.c_str(), 0));
}
static M emit(G &g, std::string &t, int depth, size_t &budget)
{
	if (budget) --budget;
	uint64_t c = g.u(depth > 0 && budget ? 10 : 6); M m;
	switch (c)
	{
	case 0: t += "null"; return M();
	case 1: t += "true"; return M::B(true);
	case 2: t += "false"; return M::B(false);
	case 3: case 4: return emitNum(g, t);
	case 5: m = M::T(""); emitStr(g, t, m.s, 30); return m;
	case 6: case 7:
	{
		m = M::V(); t += '['; size_t n = g.size(12); t += ws(g);
		for (size_t i = 0; i < n && budget; ++i) { if (i) { t += ','; t += ws(g); } m.v.push_back(emit(g, t, depth - 1, budget)); t += ws(g); }
		t += ']'; return m;
	}
	default:
	{
		m = M::O(); t += '{'; size_t n = g.size(10); t += ws(g); bool first = true;
		for (size_t i = 0; i < n && budget; ++i)
		{
			std::string kt, kv; emitStr(g, kt, kv, 12);
			if (kv.size() > 255 || m.m.count(kv)) continue;
			if (!first) { t += ','; t += ws(g); } first = false;
			t += kt; t += ws(g); t += ':'; t += ws(g);
			M v = emit(g, t, depth - 1, budget); t += ws(g); m.m[kv] = v;
		}
		t += '}'; return m;
	}
	}
}
static std::string genText(G &g, M &m, bool container)
{
	std::string t = ws(g); size_t budget = 2 + g.size(60);
	while (true)
	{
		std::string body; m = emit(g, body, 5, budget);
		if (!container || m.k == M::VEC || m.k == M::MAP || m.k == M::STR) { t += body; break; }
		t += '['; t += body; t += ']'; M w = M::V(); w.v.push_back(m); m = w; break;
	}
	return t;
}
struct H5 { char b[5]; };
static bool decodeVia(G &g, int how, const std::string &t, CAnyValue &out)
{
	if (how == 0) { Exact x(t); out.decodeJSON(x.data(), x.size()); return true; }
	Exact x(std::string(sizeof(H5), 'h') + t); CAnyValuePackage<H5> p;
	if (how == 1) p.decodeJSON(x.data(), x.size()); else p.decodeJSON((const unsigned char *)x.data(), x.size());
	out = p.getRoot(); return true;
}
static bool attemptDecode(G &g, int how, const std::string &t, CAnyValue &out, std::string &why)
{
	try { return decodeVia(g, how, t, out); }
	catch (const std::exception &e) { why = e.what(); return false; }
	catch (...) { g.fail("decoder threw something that is not a std::exception"); }
	return false;
}
static void valid(G &g)
{
	M m; std::string t = genText(g, m, false); t += ws(g);
	int how = (int)g.u(3);
	g.note("text: %s", quote(t, 800).c_str());
	{ M r; RefJson ref(t); if (!ref.parse(r) || !sameM(m, r, 0)) { g.note("generator bug: %s", ref.err.c_str()); g.fail("harness: generator and reference parser disagree"); } }
	CAnyValue v; std::string why; if (g.chance(1, 5)) v = CAnyValue("old");
	PBT_CHECK(g, attemptDecode(g, how, t, v, why), "valid JSON is rejected: %s", why.c_str());
	std::string d = diffAny(m, v, 1e-15);
	PBT_CHECK(g, d.empty(), "decoded value differs: %s", d.c_str());
	if (m.nodes() >= 2) g.nontrivial();
	g.labelIf(m.depth() >= 3, "depth>=3"); g.labelIf(t.find("\\u") != std::string::npos, "unicode escapes"); g.labelIf(t.find_first_of("eE") != std::string::npos, "exponents or letters");
}
// large texts: many items and members, long strings, keys, gaps and numbers
static void bigText(const M &m, std::string &t, const std::string &gap, pbt::Rng &r)
{
	switch (m.k)
	{
	case M::VEC: t += '['; for (size_t i = 0; i < m.v.size(); ++i) { if (i) t += ','; if (r.next() >> 20 & 1) t += gap; bigText(m.v[i], t, gap, r); } t += ']'; break;
	case M::MAP: { t += '{'; bool f = true; for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) { if (!f) t += ','; f = false; bigText(M::T(i->first), t, gap, r); if (r.next() >> 20 & 1) t += gap; t += ':'; bigText(i->second, t, gap, r); } t += '}'; break; }
	case M::STR: t += '"'; for (size_t i = 0; i < m.s.size(); ++i) { unsigned char c = m.s[i]; char b[8]; if (c < 0x20 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); t += b; } else t += (char)c; } t += '"'; break;
	case M::FLT: { char b[40]; snprintf(b, sizeof b, "%.17e", m.d); t += b; break; }
	default: t += show(m);
	}
}
static void large(G &g)
{
	M m = bigTree(g, TREE_JSON, g.chance(1, 4) ? 140000 : 9000); std::string t, why;
	if (g.chance(1, 3)) { M o = M::O(); size_t n = 1 + g.u(6); for (size_t i = 0; i < n; ++i) o.m[g.fill(g.b() ? 250 + g.u(6) : g.u(256), "ab\"\xc3\xa9\n")] = M::U(i); o.m["rest"] = m; m = o; }
	std::string gap = g.chance(1, 4) ? g.fill(g.edge(3000) % (m.nodes() > 500 ? 40 : 3001), " \t\r\n") : "";
	pbt::Rng r(g.u(1 << 20)); t = gap; bigText(m, t, gap, r); t += gap;
	g.note("%zu nodes in %zu bytes: %s", m.nodes(), t.size(), quote(t, 400).c_str());
	CAnyValue v; PBT_CHECK(g, attemptDecode(g, (int)g.u(3), t, v, why), "valid JSON is rejected: %s", why.c_str());
	std::string d = diffAny(m, v, 1e-15); PBT_CHECK(g, d.empty(), "decoded value differs: %s", d.c_str());
	if ((m.k == M::MAP || m.k == M::VEC || m.k == M::STR) && t.size() > gap.size() + 1) { size_t c = t.size() - gap.size() - 1 - g.u(std::min<size_t>(t.size() - gap.size(), 70000)); CAnyValue w; if (c > gap.size() && attemptDecode(g, (int)g.u(3), t.substr(0, c), w, why)) g.fail("the first %zu of %zu bytes are accepted", c, t.size()); }
	if (t.size() > 100) g.nontrivial(); g.labelIf(t.size() > 65536, "over 64K");
}
// whatever was rejected before, a valid text still decodes
static void afterErrors(G &g)
{
	size_t n = 1 + g.edge(g.chance(1, 8) ? 2100 : 130), kinds = 1 + g.u(4); std::vector<std::string> bad;
	for (size_t k = 0; k < kinds; ++k)
	{
		M m; std::string t = genText(g, m, true);
		switch (g.u(4)) { case 0: t = t.substr(0, g.u(t.size())); break; case 1: t = std::string(1 + g.u(60), '[') + "}"; break; case 2: t = "{\"a\":" + t.substr(0, t.size() - 1); break; default: t = std::string(1500, '['); }
		bad.push_back(t); g.note("bad %zu: %s", k, quote(t, 100).c_str());
	}
	size_t rejected = 0; CAnyValue v; std::string why;
	for (size_t i = 0; i < n; ++i) rejected += !attemptDecode(g, 0, bad[i % kinds], v, why);
	M m; std::string t = genText(g, m, false); size_t nest = g.u(190); for (size_t i = 0; i < nest; ++i) { t = "[" + t + "]"; M o = M::V(); o.v.push_back(m); m = o; }
	g.note("%zu texts, %zu rejected, then %s", n, rejected, quote(t, 300).c_str());
	PBT_CHECK(g, attemptDecode(g, (int)g.u(3), t, v, why), "after %zu rejected texts valid JSON is rejected: %s", rejected, why.c_str());
	std::string d = diffAny(m, v, 1e-15); PBT_CHECK(g, d.empty(), "decoded value differs: %s", d.c_str());
	if (rejected > 1) g.nontrivial();
}
static void prefixes(G &g)
{
	M m; std::string t = genText(g, m, true); int how = (int)g.u(3);
	std::vector<size_t> cuts;
	if (t.size() <= 80) for (size_t i = 0; i < t.size(); ++i) cuts.push_back(i); else for (int i = 0; i < 24; ++i) cuts.push_back(i < 3 ? t.size() - 1 - i : g.u(t.size()));
	g.note("text: %s", quote(t, 600).c_str());
	for (size_t i = 0; i < cuts.size(); ++i)
	{
		if (how && cuts[i] == 0) continue;
		CAnyValue v; std::string why;
		if (attemptDecode(g, how, t.substr(0, cuts[i]), v, why)) g.fail("the prefix %s is accepted as %s", quote(t.substr(0, cuts[i]), 200).c_str(), show(fromAny(v)).c_str());
	}
	if (m.nodes() >= 2) g.nontrivial();
}
static void hostile(G &g)
{
	std::string t; M m;
	if (g.u(4)) { t = genText(g, m, false); int n = 1 + (int)g.u(4); for (int i = 0; i < n; ++i) { size_t p = t.empty() ? 0 : g.u(t.size()); switch (g.u(6)) { case 0: if (!t.empty()) t[p] = (char)g.u(256); break; case 1: t.erase(p, 1 + g.u(3)); break; case 2: t.insert(p, g.text(1 + g.u(3), "[]{}\",:\\u0123eE+-.tfn \x01")); break; case 3: t.resize(p); break; case 4: { size_t q = t.empty() ? 0 : g.u(t.size()); t.insert(p, t.substr(q, g.u(20))); break; } default: t.insert(p, "\\"); } } }
	else t = g.text(g.size(40), "[]{}\",:\\u0123eE+-.tfrulsena \x01\xff");
	int how = (int)g.u(3);
	g.note("text: %s", quote(t, 800).c_str());
	CAnyValue v; std::string why; bool ok = attemptDecode(g, how, t, v, why);
	g.label(ok ? "accepted" : "rejected");
	M left = fromAny(v); std::string d = diffAny(left, v, 0);
	PBT_CHECK(g, d.empty() || left.nodes() == 0, "value after decoding is inconsistent: %s", d.c_str());
	if (ok) { std::string j = v.encodeJSON(); (void)j; }
	if (t.size() >= 3) g.nontrivial();
}
static void deep(G &g)
{
	size_t n = g.chance(1, 3) ? (g.chance(1, 4) ? 200 - g.u(3) : (size_t)g.range(1, 200)) : (size_t)g.range(200, g.thorough() ? 500000 : 150000);
	int kind = (int)g.u(3); std::string t, e; 
	for (size_t i = 0; i < n; ++i) { bool map = kind == 1 || (kind == 2 && (i & 1)); if (map) { t += "{\"a\":"; e += '}'; } else { t += '['; e += ']'; } }
	bool closed = g.b(); if (closed) { std::reverse(e.begin(), e.end()); t += "1" + e; }
	g.note("%zu nested containers, kind %d, %s", n, kind, closed ? "complete" : "cut");
	CAnyValue v; std::string why; bool ok = attemptDecode(g, (int)g.u(3), t, v, why);
	PBT_CHECK(g, closed || !ok, "an unclosed document is accepted");
	if (closed && n <= 200) { PBT_CHECK(g, ok, "a document nested %zu deep is rejected: %s", n, why.c_str()); PBT_CHECK(g, v.encodeJSON() == t, "deep document re-encodes differently"); }
	g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"valid", valid, 120000, 3000000, "grammar-generated JSON texts with known value (whitespace, all escape forms, surrogate pairs, integer and float forms); non-trivial = at least 2 nodes", 20000, 0},
		{"large", large, 1200, 30000, "up to 140000 items or members, strings up to 4 MB, keys up to 255 bytes, long gaps, and one cut of each; non-trivial = over 100 bytes", 20000, 0},
		{"afterErrors", afterErrors, 700, 30000, "up to 2000 rejected texts, then a valid one nested up to 195 deep; non-trivial = at least 2 rejected", 20000, 0},
		{"prefixes", prefixes, 25000, 600000, "object or array documents cut at every (short) or drawn (long) point; non-trivial = at least 2 nodes", 20000, 0},
		{"hostile", hostile, 150000, 4000000, "1-4 mutations of valid texts, or token soup, in exactly-sized buffers; non-trivial = at least 3 bytes", 20000, 0},
		{"deep", deep, 400, 4000, "1 to 150000 (thorough 500000) nested containers; all non-trivial", 20000, 0},
	};
	return pbtMain(argc, argv, "C04", s);
}
