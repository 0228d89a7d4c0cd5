// Independent strict JSON parser (RFC 8259) producing the tree model.
#ifndef VERIF_REFJSON_H
#define VERIF_REFJSON_H
#include "anymodel.h"
struct RefJson
{
	const std::string &t; size_t p; std::string err;
	explicit RefJson(const std::string &s) : t(s), p(0) {}
	bool bad(const char *m) { if (err.empty()) { char b[80]; snprintf(b, sizeof b, "%s at byte %zu", m, p); err = b; } return false; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
	static void utf8(std::string &o, uint32_t c)
	{
		if (c < 0x80) o += (char)c;
		else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	}
	bool hex4(uint32_t &c)
	{
		c = 0; if (p + 4 > t.size()) return bad("short escape");
		for (int i = 0; i < 4; ++i) { char h = t[p++]; int v = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (v < 0) return bad("bad hex"); c = c * 16 + v; }
		return true;
	}
	bool str(std::string &o)
	{
		if (p >= t.size() || t[p] != '"') return bad("string expected");
		++p;
		while (true)
		{
			if (p >= t.size()) return bad("unterminated string");
			unsigned char c = t[p++];
			if (c == '"') return true;
			if (c < 0x20) { --p; return bad("raw control character in a string"); }
			if (c != '\\') { o += (char)c; continue; }
			if (p >= t.size()) return bad("unterminated escape");
			char e = t[p++];
			switch (e)
			{
			case '"': case '\\': case '/': o += e; break;
			case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
			case 'u': { uint32_t c1; if (!hex4(c1)) return false; if (c1 >= 0xD800 && c1 < 0xDC00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { size_t sv = p; p += 2; uint32_t c2; if (!hex4(c2)) return false; if (c2 >= 0xDC00 && c2 < 0xE000) c1 = 0x10000 + ((c1 - 0xD800) << 10) + (c2 - 0xDC00); else p = sv; } utf8(o, c1); break; }
			default: return bad("bad escape");
			}
		}
	}
	bool val(M &m, int depth)
	{
		if (depth > 5000) return bad("too deep");
		ws(); if (p >= t.size()) return bad("value expected");
		char c = t[p];
		if (c == '{')
		{
			++p; m = M::O(); ws(); if (p < t.size() && t[p] == '}') { ++p; return true; }
			while (true)
			{
				ws(); std::string k; if (!str(k)) return false; ws();
				if (p >= t.size() || t[p] != ':') return bad("':' expected"); ++p;
				M v; if (!val(v, depth + 1)) return false;
				if (m.m.count(k)) return bad("duplicate key"); m.m[k] = v; ws();
				if (p < t.size() && t[p] == ',') { ++p; continue; }
				if (p < t.size() && t[p] == '}') { ++p; return true; }
				return bad("',' or '}' expected");
			}
		}
		if (c == '[')
		{
			++p; m = M::V(); ws(); if (p < t.size() && t[p] == ']') { ++p; return true; }
			while (true)
			{
				M v; if (!val(v, depth + 1)) return false; m.v.push_back(v); ws();
				if (p < t.size() && t[p] == ',') { ++p; continue; }
				if (p < t.size() && t[p] == ']') { ++p; return true; }
				return bad("',' or ']' expected");
			}
		}
		if (c == '"') { m = M::T(""); return str(m.s); }
		if (t.compare(p, 4, "true") == 0) { p += 4; m = M::B(true); return true; }
		if (t.compare(p, 5, "false") == 0) { p += 5; m = M::B(false); return true; }
		if (t.compare(p, 4, "null") == 0) { p += 4; m = M(); return true; }
		size_t st = p; bool neg = false, fl = false;
		if (t[p] == '-') { neg = true; ++p; }
		if (p >= t.size()) return bad("number expected");
		if (t[p] == '0') ++p; else if (t[p] >= '1' && t[p] <= '9') while (p < t.size() && isdigit((unsigned char)t[p])) ++p; else return bad("value expected");
		if (p < t.size() && t[p] == '.') { fl = true; ++p; size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p; if (p == q) return bad("digits expected after '.'"); }
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { fl = true; ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p; if (p == q) return bad("digits expected in exponent"); }
		std::string num = t.substr(st, p - st);
		if (fl) m = M::F(strtod(num.c_str(), 0));
		else { errno = 0; if (neg) { m = M::S(strtoll(num.c_str(), 0, 10)); m.k = M::SINT; } else m = M::U(strtoull(num.c_str(), 0, 10)); if (errno) return bad("integer out of range"); }
		return true;
	}
	bool parse(M &m) { if (!val(m, 0)) return false; ws(); if (p != t.size()) return bad("trailing bytes"); return true; }
};
// equality of models with float tolerance
inline bool sameM(const M &a, const M &b, double tol)
{
	if (a.k != b.k) return false;
	switch (a.k)
	{
	case M::NUL: return true;
	case M::BOOL: case M::UINT: case M::SINT: return a.u == b.u;
	case M::FLT: return a.d == b.d || fabs(a.d - b.d) <= tol * fabs(a.d) || fabs(a.d - b.d) < 1e-320;
	case M::STR: return a.s == b.s;
	case M::VEC: if (a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); ++i) if (!sameM(a.v[i], b.v[i], tol)) return false; return true;
	case M::MAP: { if (a.m.size() != b.m.size()) return false; std::map<std::string, M>::const_iterator i = a.m.begin(), j = b.m.begin(); for (; i != a.m.end(); ++i, ++j) if (i->first != j->first || !sameM(i->second, j->second, tol)) return false; return true; }
	}
	return false;
}
#endif
