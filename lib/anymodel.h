// Independent tree model of CAnyValue plus generator, reference encoders and parsers.
#ifndef VERIF_ANYMODEL_H
#define VERIF_ANYMODEL_H
#include "pbt.h"
#include "CAnyValue.h"
#include <math.h>
#include <float.h>

struct M
{
	enum K { NUL, BOOL, UINT, SINT, FLT, STR, VEC, MAP } k;
	uint64_t u; double d; std::string s; std::vector<M> v; std::map<std::string, M> m;
	M() : k(NUL), u(0), d(0) {}
	static M U(uint64_t x) { M r; r.k = UINT; r.u = x; return r; }
	static M S(int64_t x) { M r; if (x < 0) { r.k = SINT; } else r.k = UINT; r.u = (uint64_t)x; return r; }
	static M B(bool b) { M r; r.k = BOOL; r.u = b; return r; }
	static M F(double d) { M r; r.k = FLT; r.d = d; return r; }
	static M T(const std::string &s) { M r; r.k = STR; r.s = s; return r; }
	static M V() { M r; r.k = VEC; return r; }
	static M O() { M r; r.k = MAP; return r; }
	size_t nodes() const { size_t n = 1; for (size_t i = 0; i < v.size(); ++i) n += v[i].nodes(); for (std::map<std::string, M>::const_iterator i = m.begin(); i != m.end(); ++i) n += i->second.nodes(); return n; }
	size_t depth() const { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) n = std::max(n, v[i].depth()); for (std::map<std::string, M>::const_iterator i = m.begin(); i != m.end(); ++i) n = std::max(n, i->second.depth()); return n + 1; }
	bool isInt() const { return k == UINT || k == SINT || k == BOOL; }
};
enum { TREE_BIN = 0, TREE_JSON = 1, TREE_XML = 2 };

inline double genDouble0(pbt::G &g)
{
	switch (g.u(6))
	{
	case 0: return (double)g.range(-1000, 1000);
	case 1: return (double)g.range(-100000, 100000) / 1000.0;
	case 2: { double x = (double)g.range(1, 999999999); int e = (int)g.range(-300, 299); return (g.b() ? x : -x) * pow(10.0, e); }
	case 3: return g.pick<double>({0.0, -0.0, 0.1, 1e15, 1e16, 123456789012345680.0, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 1.0 / 3, 2147483648.0, 0.5, 1e100});
	case 4: { uint64_t x = g.u(0); double d; memcpy(&d, &x, 8); return isfinite(d) ? d : 1.5; }
	default: return (double)g.num64();
	}
}
// text encodings print 16 digits, which rounds the very largest doubles up to infinity
inline double genDouble(pbt::G &g, bool text) { double d = genDouble0(g); return text && fabs(d) > 1e308 ? d / 1e10 : d; }
inline std::string genStr(pbt::G &g, int mode, bool key, size_t maxLen = 70000)
{
	if (mode == TREE_XML && key)
	{
		std::string r(1, "abcXYZ_"[g.u(7)]); size_t n = g.size(12);
		for (size_t i = 0; i < n; ++i) r += "abz09_-.AZ"[g.u(10)];
		return r;
	}
	size_t n;
	switch (g.u(10))
	{
	case 0: n = 0; break;
	case 1: n = (size_t)g.range(253, 258); if (key && n > 255) n = 255; break;
	case 2: n = key ? g.u(256) : g.u(300); break;
	case 3: if (!key && g.chance(1, 6) && maxLen > 60000) { n = g.chance(1, 2) ? (size_t)g.range(65533, 65538) : g.u(maxLen); return g.blob(n); }
		n = g.u(9); break;
	default: n = g.u(9); break;
	}
	if (mode == TREE_XML)
	{
		std::string r; for (size_t i = 0; i < n; ++i) { uint64_t c = g.u(40); if (c < 6) r += "<>&]\"'"[c]; else if (c == 6) r += "]]>"; else if (c == 7) r += '\n'; else if (c == 8) r += "\xc3\xa9"; else r += (char)(32 + g.u(95)); }
		return r;
	}
	if (n > 40 && g.b()) return g.blob(n);
	std::string r;
	int style = (int)g.u(4);
	for (size_t i = 0; i < n; ++i)
	{
		if (style == 0) r += (char)('a' + g.u(26));
		else if (style == 1) r += (char)g.u(256);
		else if (style == 2) r += "\"\\/\b\f\n\r\t\x01\x1f\x7f\0u{}[]:, "[g.u(20)];
		else r += (char)(32 + g.u(95));
	}
	return r;
}
inline M genTree(pbt::G &g, int mode, int depth, size_t &budget)
{
	if (budget > 0) --budget;
	uint64_t c = g.u(depth > 0 && budget > 0 ? 12 : 8);
	switch (c)
	{
	case 0: return M();
	case 1: return M::B(g.b());
	case 2: return M::U(g.num64());
	case 3: return M::S((int64_t)g.num64());
	case 4: return M::F(genDouble(g, mode != TREE_BIN));
	case 5: return M::T(genStr(g, mode, false));
	case 6: { static const int64_t bnd[] = {0, -1, 1, 127, 128, -128, -129, 254, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN}; return M::S(bnd[g.u(24)]); }
	case 7: return M::T(genStr(g, mode, false, 100));
	case 8: case 9:
	{
		M r = M::V(); size_t n = g.size(mode == TREE_XML ? 20 : 40);
		for (size_t i = 0; i < n && budget > 0; ++i) r.v.push_back(genTree(g, mode, depth - 1, budget));
		return r;
	}
	default:
	{
		M r = M::O(); size_t n = g.size(20);
		for (size_t i = 0; i < n && budget > 0; ++i) { std::string k = genStr(g, mode, true); r.m[k] = genTree(g, mode, depth - 1, budget); }
		return r;
	}
	}
}
// mostly containers at the root
inline M genRoot(pbt::G &g, int mode, int depth, size_t &budget)
{
	if (depth <= 0 || budget < 2 || g.chance(1, 8)) return genTree(g, mode, depth, budget);
	--budget;
	M r = g.b() ? M::V() : M::O();
	size_t n = 1 + g.size(mode == TREE_XML ? 20 : 40);
	for (size_t i = 0; i < n && budget > 0; ++i)
	{
		if (r.k == M::VEC) r.v.push_back(genTree(g, mode, depth - 1, budget));
		else { std::string k = genStr(g, mode, true); r.m[k] = genTree(g, mode, depth - 1, budget); }
	}
	return r;
}
inline void refEncode(const M &m, std::string &o);
// many items, many members, long strings: sizes at and next to what counters and buffers are made of
inline M bigTree(pbt::G &g, int mode, size_t max)
{
	std::vector<M> part; size_t k = 1 + g.u(4);
	for (size_t i = 0; i < k; ++i) { size_t b = 1 + g.u(3); M x = genTree(g, mode, 2, b); std::string e; refEncode(x, e); if (e.size() > 300) x = M::U(e.size()); part.push_back(x); }
	M r; size_t n; char b[32];
	switch (g.u(5))
	{
	case 0: case 1: r = M::V(); n = g.edge(max); for (size_t i = 0; i < n; ++i) r.v.push_back(i % (k + 1) == k ? M::U(i) : part[i % (k + 1)]); break;
	case 2: { r = M::O(); n = g.edge(max); bool wide = g.b(); for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, wide ? "k%06zu" : "k%zu", i); r.m[b] = i % (k + 1) == k ? M::U(i) : part[i % (k + 1)]; } break; }
	case 3: r = M::T(g.fill(g.edge(max * 32), mode == TREE_XML ? "ab]>&< '\"" : "ab\"\\/\n\x01\xe9 ")); break;
	default: r = M::V(); n = g.edge(max / 256); for (size_t i = 0; i < n; ++i) { M o = M::O(); o.m["id"] = M::U(i); o.m["name"] = M::T(g.fill(i % 7 ? 30 : 260, "abc ")); o.m["x"] = part[i % k]; r.v.push_back(o); } break;
	}
	if (g.b()) { M o = M::O(); o.m["a"] = M::U(1); o.m["data"] = r; o.m["z"] = M::T("end"); return o; }
	return r;
}
inline std::string show(const M &m, int lim = 60)
{
	char b[64];
	switch (m.k)
	{
	case M::NUL: return "null";
	case M::BOOL: return m.u ? "true" : "false";
	case M::UINT: snprintf(b, sizeof b, "%llu", (unsigned long long)m.u); return b;
	case M::SINT: snprintf(b, sizeof b, "%lld", (long long)m.u); return b;
	case M::FLT: snprintf(b, sizeof b, "%.17g(f)", m.d); return b;
	case M::STR: return pbt::quote(m.s, lim);
	case M::VEC: { std::string r = "["; for (size_t i = 0; i < m.v.size(); ++i) { if (r.size() > 1500) { r += "..."; break; } r += (i ? "," : "") + show(m.v[i], lim); } return r + "]"; }
	case M::MAP: { std::string r = "{"; bool f = true; for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) { if (r.size() > 1500) { r += "..."; break; } r += (f ? "" : ",") + pbt::quote(i->first, 30) + ":" + show(i->second, lim); f = false; } return r + "}"; }
	}
	return "?";
}
// build with the library, choosing among the constructors that fit
inline lce::CAnyValue scalarAny(pbt::G &g, const M &m)
{
	using lce::CAnyValue;
	if (m.k == M::BOOL) return CAnyValue((bool)m.u);
	if (m.k == M::FLT) { if ((double)(float)m.d == m.d && g.b()) return CAnyValue((float)m.d); return CAnyValue(m.d); }
	if (m.k == M::STR) { if (m.s.find('\0') == std::string::npos && g.b()) return CAnyValue(m.s.c_str()); return CAnyValue(m.s); }
	if (m.k == M::SINT)
	{
		int64_t x = (int64_t)m.u; uint64_t c = g.u(5);
		if (c == 0 && x >= -128) return CAnyValue((char)x);
		if (c <= 1 && x >= -32768) return CAnyValue((short)x);
		if (c <= 2 && x >= INT32_MIN) return CAnyValue((int)x);
		if (c == 3) return CAnyValue((long)x);
		return CAnyValue((long long)x);
	}
	if (m.k == M::UINT)
	{
		uint64_t x = m.u, c = g.u(10);
		if (c == 0 && x < 128) return CAnyValue((char)x);
		if (c == 1 && x < 256) return CAnyValue((unsigned char)x);
		if (c == 2 && x < 32768) return CAnyValue((short)x);
		if (c == 3 && x < 65536) return CAnyValue((unsigned short)x);
		if (c == 4 && x <= INT32_MAX) return CAnyValue((int)x);
		if (c == 5 && x <= UINT32_MAX) return CAnyValue((unsigned int)x);
		if (c == 6 && x <= INT64_MAX) return CAnyValue((long)x);
		if (c == 7) return CAnyValue((unsigned long)x);
		if (c == 8 && x <= INT64_MAX) return CAnyValue((long long)x);
		return CAnyValue((unsigned long long)x);
	}
	return CAnyValue();
}
// Empty containers come from pushing and popping / inserting and erasing.
inline void buildAny(pbt::G &g, const M &m, lce::CAnyValue &out)
{
	if (m.k == M::VEC)
	{
		if (m.v.empty()) { out.push_back(lce::CAnyValue(1)); out.pop_back(); return; }
		for (size_t i = 0; i < m.v.size(); ++i) { lce::CAnyValue c; buildAny(g, m.v[i], c); out.push_back(c); }
	}
	else if (m.k == M::MAP)
	{
		if (m.m.empty()) { out["x"] = lce::CAnyValue(1); out.erase("x"); return; }
		for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i)
		{
			if (g.b()) buildAny(g, i->second, out[i->first]);
			else { lce::CAnyValue c; buildAny(g, i->second, c); out.insert(i->first, c); }
		}
	}
	else if (m.k != M::NUL) out = scalarAny(g, m);
}
// compare through the public interface only; empty string when equal
inline std::string diffAny(const M &m, const lce::CAnyValue &cv, double ftol, const std::string &path = "root")
{
	lce::CAnyValue &v = const_cast<lce::CAnyValue &>(cv);
	char b[200];
	int kinds = v.isObject() + v.isArray() + v.isString() + v.isBool() + v.isNull() + v.isUInt() + v.isInt() + v.isFloat();
	if (kinds != 1) { snprintf(b, sizeof b, " claims %d types at once", kinds); return path + b; }
	switch (m.k)
	{
	case M::NUL: return v.isNull() ? "" : path + " should be null";
	case M::BOOL: if (!v.isBool()) return path + " should be a bool"; if (v.asBool() != (bool)m.u || (bool)v != (bool)m.u) return path + " has the wrong bool"; return "";
	case M::UINT: case M::SINT:
	{
		if (m.k == M::UINT ? !v.isUInt() : !v.isInt()) return path + (m.k == M::UINT ? " should be an unsigned integer" : " should be a negative integer");
		unsigned long long got = v.operator unsigned long long();
		if (got != m.u) { snprintf(b, sizeof b, " integer is %lld, expected %lld", (long long)got, (long long)m.u); return path + b; }
		return "";
	}
	case M::FLT:
	{
		if (!v.isFloat()) return path + " should be a float";
		double d = v.operator double();
		if (ftol == 0 ? memcmp(&d, &m.d, 8) != 0 : !(d == m.d || fabs(d - m.d) <= ftol * fabs(m.d) || fabs(d - m.d) < 1e-320)) { snprintf(b, sizeof b, " float is %.17g, expected %.17g", d, m.d); return path + b; }
		return "";
	}
	case M::STR:
		if (!v.isString()) return path + " should be a string";
		if (v.asString() != m.s || v.size() != m.s.size()) return path + " string is " + pbt::quote(v.asString(), 80) + ", expected " + pbt::quote(m.s, 80);
		return "";
	case M::VEC:
		if (!v.isArray()) return path + " should be an array";
		if (v.size() != m.v.size()) { snprintf(b, sizeof b, " has %zu items, expected %zu", v.size(), m.v.size()); return path + b; }
		for (size_t i = 0; i < m.v.size(); ++i) { snprintf(b, sizeof b, "[%zu]", i); std::string r = diffAny(m.v[i], cv[(int)i], ftol, path + b); if (!r.empty()) return r; }
		return "";
	case M::MAP:
	{
		if (!v.isObject()) return path + " should be an object";
		if (v.size() != m.m.size()) { snprintf(b, sizeof b, " has %zu members, expected %zu", v.size(), m.m.size()); return path + b; }
		std::vector<std::string> ks = v.keys(); size_t j = 0;
		if (ks.size() != m.m.size()) return path + " keys() has the wrong size";
		for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i, ++j)
		{
			if (ks[j] != i->first) return path + " has key " + pbt::quote(ks[j], 60) + ", expected " + pbt::quote(i->first, 60);
			if (!v.hasKey(i->first)) return path + " does not have key " + pbt::quote(i->first, 60);
			std::string r = diffAny(i->second, cv[i->first], ftol, path + "." + pbt::quote(i->first, 20)); if (!r.empty()) return r;
		}
		return "";
	}
	}
	return "";
}
// copy what the library holds into the model
inline M fromAny(const lce::CAnyValue &cv)
{
	lce::CAnyValue &v = const_cast<lce::CAnyValue &>(cv);
	M r;
	if (v.isObject()) { r.k = M::MAP; std::vector<std::string> ks = v.keys(); for (size_t i = 0; i < ks.size(); ++i) r.m[ks[i]] = fromAny(cv[ks[i]]); }
	else if (v.isArray()) { r.k = M::VEC; for (size_t i = 0; i < v.size(); ++i) r.v.push_back(fromAny(cv[(int)i])); }
	else if (v.isString()) { r.k = M::STR; r.s = v.asString(); }
	else if (v.isBool()) { r.k = M::BOOL; r.u = v.asBool(); }
	else if (v.isUInt()) { r.k = M::UINT; r.u = v.operator unsigned long long(); }
	else if (v.isInt()) { r.k = M::SINT; r.u = v.operator unsigned long long(); }
	else if (v.isFloat()) { r.k = M::FLT; r.d = v.operator double(); }
	return r;
}
// reference binary encoder (format read off the README/tag table: big-endian, smallest tag)
inline void be(std::string &o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += (char)(v >> (8 * i)); }
inline void refEncode(const M &m, std::string &o)
{
	switch (m.k)
	{
	case M::NUL: o += (char)12; break;
	case M::BOOL: o += (char)11; o += (char)(m.u ? 1 : 0); break;
	case M::UINT:
		if (m.u < 0xFF) { o += (char)0; be(o, m.u, 1); }
		else if (m.u <= 0xFFFF) { o += (char)1; be(o, m.u, 2); }
		else if (m.u <= 0xFFFFFFFFULL) { o += (char)2; be(o, m.u, 4); }
		else { o += (char)3; be(o, m.u, 8); }
		break;
	case M::SINT:
	{
		int64_t x = (int64_t)m.u;
		if (x >= -128 && x <= 127) { o += (char)13; be(o, m.u, 1); }
		else if (x >= -32768 && x <= 32767) { o += (char)14; be(o, m.u, 2); }
		else if (x >= INT32_MIN && x <= INT32_MAX) { o += (char)15; be(o, m.u, 4); }
		else { o += (char)16; be(o, m.u, 8); }
		break;
	}
	case M::FLT: { uint64_t x; memcpy(&x, &m.d, 8); o += (char)10; be(o, x, 8); break; }
	case M::STR:
		if (m.s.size() <= 0xFF) { o += (char)4; be(o, m.s.size(), 1); }
		else if (m.s.size() <= 0xFFFF) { o += (char)5; be(o, m.s.size(), 2); }
		else { o += (char)6; be(o, m.s.size(), 4); }
		o += m.s; break;
	case M::VEC: o += (char)7; be(o, m.v.size(), 4); for (size_t i = 0; i < m.v.size(); ++i) refEncode(m.v[i], o); break;
	case M::MAP: o += (char)8; be(o, m.m.size(), 4); for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) { be(o, i->first.size(), 1); o += i->first; refEncode(i->second, o); } break;
	}
}
// a valid encoding that need not be the canonical one: wider tags, longer string classes
inline void looseEncode(pbt::G &g, const M &m, std::string &o)
{
	if (m.k == M::UINT) { int w = m.u <= 0xFF ? 0 : m.u <= 0xFFFF ? 1 : m.u <= 0xFFFFFFFFULL ? 2 : 3; w = (int)g.range(w, 3); o += (char)w; be(o, m.u, 1 << w); }
	else if (m.k == M::SINT) { int64_t x = (int64_t)m.u; int w = x >= -128 && x < 128 ? 0 : x >= -32768 && x < 32768 ? 1 : x >= INT32_MIN && x <= INT32_MAX ? 2 : 3; w = (int)g.range(w, 3); o += (char)(13 + w); be(o, m.u, 1 << w); }
	else if (m.k == M::STR) { int w = m.s.size() <= 0xFF ? 0 : m.s.size() <= 0xFFFF ? 1 : 2; w = (int)g.range(w, 2); o += (char)(4 + w); be(o, m.s.size(), 1 << w); o += m.s; }
	else if (m.k == M::VEC) { o += (char)7; be(o, m.v.size(), 4); for (size_t i = 0; i < m.v.size(); ++i) looseEncode(g, m.v[i], o); }
	else if (m.k == M::MAP) { o += (char)8; be(o, m.m.size(), 4); for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) { be(o, i->first.size(), 1); o += i->first; looseEncode(g, i->second, o); } }
	else refEncode(m, o);
}
// exactly-sized heap copy so that any read past the end hits a red zone
struct Exact
{
	char *p; size_t n;
	explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); if (!n) { free(p); p = (char *)malloc(0); } }
	~Exact() { free(p); }
	const char *data() const { return p; }
	size_t size() const { return n; }
private:
	Exact(const Exact &); void operator=(const Exact &);
};
#endif
