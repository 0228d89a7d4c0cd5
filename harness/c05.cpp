// C05: dynamic values behave as a document model with value semantics.
#include "anymodel.h"
#include <sanitizer/allocator_interface.h>
using namespace pbt; using namespace lce;

enum { NSLOT = 4 };
struct Node { M *m; CAnyValue *v; std::string path; };

static std::string key255(const std::string &k) { return k.substr(0, 255); }

// a random node of a slot, reached through the public mutable accessors
static Node pickNode(G &g, M &rm, CAnyValue &rv, int slot)
{
	char b[40]; snprintf(b, sizeof b, "s%d", slot);
	Node n = {&rm, &rv, b};
	while (g.u(3))
	{
		if (n.m->k == M::VEC && !n.m->v.empty()) { size_t i = g.u(n.m->v.size()); snprintf(b, sizeof b, "[%zu]", i); n.v = &(*n.v)[(int)i]; n.m = &n.m->v[i]; n.path += b; }
		else if (n.m->k == M::MAP && !n.m->m.empty())
		{
			size_t i = g.u(n.m->m.size()); std::map<std::string, M>::iterator it = n.m->m.begin(); std::advance(it, i);
			bool cs = it->first.find('\0') == std::string::npos && g.b();
			n.v = cs ? &(*n.v)[it->first.c_str()] : &(*n.v)[it->first]; n.m = &it->second; n.path += "." + quote(it->first, 10);
		}
		else break;
	}
	return n;
}
static std::string genKey(G &g)
{
	switch (g.u(8))
	{
	case 0: return std::string((size_t)g.range(253, 259), 'k') + (g.b() ? "x" : "");
	case 1: return std::string("a\0b", 3);
	case 2: return "";
	default: return std::string(1, (char)('a' + g.u(4)));
	}
}
static void reads(G &g, const Node &n)
{
	const M &m = *n.m; const CAnyValue &c = *n.v; CAnyValue &v = *n.v;
	uint64_t u = m.isInt() ? m.u : 0;
	#define RD(expr, want, what) PBT_CHECK(g, (expr) == (want), "%s at %s: reading " what " gives the wrong value", show(m).c_str(), n.path.c_str())
	RD(v.asInt(), (int)u, "asInt"); RD((int64_t)v.asInt64(), (int64_t)u, "asInt64"); RD((uint32_t)v.asUInt(), (uint32_t)u, "asUInt"); RD((uint64_t)v.asUInt64(), u, "asUInt64");
	RD(v.asInt() < 0, (int)u < 0, "asInt sign"); RD(v.asUInt() > 0, (uint32_t)u > 0, "asUInt sign");
	RD(v.asBool(), u != 0, "asBool"); RD(v.asString(), m.k == M::STR ? m.s : std::string(), "asString");
	RD(c.operator char(), (char)u, "char"); RD(c.operator unsigned char(), (unsigned char)u, "unsigned char"); RD(c.operator short(), (short)u, "short"); RD(c.operator unsigned short(), (unsigned short)u, "unsigned short");
	RD(c.operator int(), (int)u, "int"); RD(c.operator unsigned int(), (unsigned)u, "unsigned"); RD(c.operator long(), (long)u, "long"); RD(c.operator unsigned long(), (unsigned long)u, "unsigned long");
	RD(c.operator long long(), (long long)u, "long long"); RD(c.operator unsigned long long(), (unsigned long long)u, "unsigned long long"); RD(c.operator bool(), u != 0, "bool");
	RD(c.operator double(), m.k == M::FLT ? m.d : 0.0, "double"); RD(c.operator std::string(), m.k == M::STR ? m.s : std::string(), "std::string");
	size_t sz = m.k == M::STR ? m.s.size() : m.k == M::VEC ? m.v.size() : m.k == M::MAP ? m.m.size() : 0;
	RD(c.size(), sz, "size");
	const char *d = c.data();
	if (m.k == M::STR) { PBT_CHECK(g, d && std::string(d, c.size()) == m.s, "data() differs"); } else PBT_CHECK(g, d == NULL, "data() of a non-string is not NULL");
	// index outside the range and on the wrong type
	int idx = (int)g.range(-3, 3 + (int)sz); bool threw = false;
	try { const CAnyValue &e = c[idx]; if (m.k == M::VEC && idx >= 0 && (size_t)idx < m.v.size()) { std::string df = diffAny(m.v[idx], e, 0); PBT_CHECK(g, df.empty(), "item %d: %s", idx, df.c_str()); } } catch (const std::exception &) { threw = true; }
	bool inRange = m.k == M::VEC && idx >= 0 && (size_t)idx < m.v.size();
	PBT_CHECK(g, threw == !inRange, "constant index %d at %s %s", idx, n.path.c_str(), threw ? "throws although in range" : "does not throw although out of range");
	threw = false; try { (void)v[idx]; } catch (const std::exception &) { threw = true; }
	PBT_CHECK(g, threw == !inRange, "index %d at %s %s", idx, n.path.c_str(), threw ? "throws although in range" : "does not throw although out of range");
	std::string k = genKey(g);
	bool has = m.k == M::MAP && m.m.count(key255(k));
	PBT_CHECK(g, c.hasKey(k) == has, "hasKey(%s) at %s is wrong", quote(k, 20).c_str(), n.path.c_str());
	std::string df = diffAny(has ? m.m.find(key255(k))->second : M(), c[k], 0);
	PBT_CHECK(g, df.empty(), "constant lookup of %s at %s: %s", quote(k, 20).c_str(), n.path.c_str(), df.c_str());
	if (k.find('\0') == std::string::npos) { df = diffAny(has ? m.m.find(key255(k))->second : M(), c[k.c_str()], 0); PBT_CHECK(g, df.empty(), "constant lookup by C string: %s", df.c_str()); }
	PBT_CHECK(g, c.keys().size() == (m.k == M::MAP ? m.m.size() : 0), "keys() at %s has the wrong size", n.path.c_str());
}
static void checkAll(G &g, M *mm, CAnyValue *vv, const char *op)
{
	for (int i = 0; i < NSLOT; ++i) { std::string d = diffAny(mm[i], vv[i], 0); PBT_CHECK(g, d.empty(), "after %s, slot %d: %s", op, i, d.c_str()); }
}
static void history(G &g)
{
	{ M w[2]; CAnyValue v("warm"); std::string s = v.encodeJSON(); const CAnyValue &c = v; (void)c["zz"]; (void)c[std::string("zz")]; try { (void)c[99]; } catch (const std::exception &) {} }
	size_t before = __sanitizer_get_current_allocated_bytes();
	{
	M mm[NSLOT]; CAnyValue vv[NSLOT];
	int ops = 1 + (int)g.size(40), aliased = 0, structural = 0;
	for (int o = 0; o < ops; ++o)
	{
		int s = (int)g.u(NSLOT); Node n = pickNode(g, mm[s], vv[s], s);
		std::string op; char b[400];
		switch (g.u(13))
		{
		case 0: // assign a scalar
		{
			size_t bg = 1; M x = genTree(g, TREE_BIN, 0, bg); snprintf(b, sizeof b, "%s = %s", n.path.c_str(), show(x, 20).c_str()); g.note("%s", b); op = "scalar assignment";
			*n.v = scalarAny(g, x); *n.m = x; break;
		}
		case 1: case 2: // assign from anywhere, including ancestors and descendants
		{
			int s2 = g.b() ? s : (int)g.u(NSLOT); Node f = g.u(3) == 0 ? pickNode(g, *n.m, *n.v, s) : pickNode(g, mm[s2], vv[s2], s2);
			g.note("%s = %s (%s)", n.path.c_str(), f.path.c_str(), show(*f.m, 20).substr(0, 100).c_str()); op = "assignment";
			M x = *f.m; *n.v = *f.v; *n.m = x; if (s2 == s) ++aliased; break;
		}
		case 3: // index by key, creating
		{
			std::string k = genKey(g); bool cs = k.find('\0') == std::string::npos && g.b(); bool threw = false; g.note("%s[%s]", n.path.c_str(), quote(k, 12).c_str()); op = "index by key";
			CAnyValue *r = NULL; try { r = cs ? &(*n.v)[k.c_str()] : &(*n.v)[k]; } catch (const std::exception &) { threw = true; }
			bool can = n.m->k == M::NUL || n.m->k == M::MAP;
			PBT_CHECK(g, threw == !can, "indexing %s by key %s", show(*n.m).c_str(), threw ? "throws" : "does not throw");
			if (can) { if (n.m->k == M::NUL) *n.m = M::O(); M &t = n.m->m[key255(k)]; if (g.b()) { *r = CAnyValue((int)o); t = M::S(o); } ++structural; }
			break;
		}
		case 4: // insert
		{
			std::string k = genKey(g); size_t bg = 1 + g.u(4); M x = genTree(g, TREE_BIN, 2, bg); CAnyValue xv; buildAny(g, x, xv); bool threw = false; g.note("%s.insert(%s, %s)", n.path.c_str(), quote(k, 12).c_str(), show(x, 20).substr(0, 100).c_str()); op = "insert";
			try { n.v->insert(k, xv); } catch (const std::exception &) { threw = true; }
			bool can = n.m->k == M::NUL || n.m->k == M::MAP; PBT_CHECK(g, threw == !can, "insert into %s %s", show(*n.m).c_str(), threw ? "throws" : "does not throw");
			if (can) { if (n.m->k == M::NUL) *n.m = M::O(); n.m->m[key255(k)] = x; ++structural; }
			break;
		}
		case 5: case 6: // push, from a fresh value or from a live node
		{
			bool front = g.b(), threw = false; M x; op = front ? "push_front" : "push_back";
			bool can = n.m->k == M::NUL || n.m->k == M::VEC;
			if (g.b()) { size_t bg = 1 + g.u(4); x = genTree(g, TREE_BIN, 2, bg); CAnyValue xv; buildAny(g, x, xv); g.note("%s.%s(%s)", n.path.c_str(), op.c_str(), show(x, 20).substr(0, 100).c_str()); try { if (front) n.v->push_front(xv); else n.v->push_back(xv); } catch (const std::exception &) { threw = true; } }
			else
			{
				int s2 = (int)g.u(NSLOT); Node f = pickNode(g, mm[s2], vv[s2], s2);
				// a null that is itself being turned into a vector, or part of its own ancestor chain, is left out
				if (f.m == n.m || (n.m->k == M::NUL)) f.v = NULL;
				if (f.v) { x = *f.m; g.note("%s.%s(%s)", n.path.c_str(), op.c_str(), f.path.c_str()); CAnyValue tmp(*f.v); try { if (front) n.v->push_front(tmp); else n.v->push_back(tmp); } catch (const std::exception &) { threw = true; } }
				else { x = M::U(5); try { if (front) n.v->push_front(CAnyValue(5)); else n.v->push_back(CAnyValue(5)); } catch (const std::exception &) { threw = true; } }
			}
			PBT_CHECK(g, threw == !can, "%s on %s %s", op.c_str(), show(*n.m).c_str(), threw ? "throws" : "does not throw");
			if (can) { if (n.m->k == M::NUL) *n.m = M::V(); if (front) n.m->v.insert(n.m->v.begin(), x); else n.m->v.push_back(x); ++structural; }
			break;
		}
		case 7: // pop
		{
			if (n.m->k == M::NUL) break;
			bool front = g.b(), threw = false; op = front ? "pop_front" : "pop_back"; g.note("%s.%s()", n.path.c_str(), op.c_str());
			try { if (front) n.v->pop_front(); else n.v->pop_back(); } catch (const std::exception &) { threw = true; }
			PBT_CHECK(g, threw == (n.m->k != M::VEC), "%s on %s %s", op.c_str(), show(*n.m).c_str(), threw ? "throws" : "does not throw");
			if (n.m->k == M::VEC && !n.m->v.empty()) { if (front) n.m->v.erase(n.m->v.begin()); else n.m->v.pop_back(); }
			++structural; break;
		}
		case 8: { std::string k = genKey(g); g.note("%s.erase(%s)", n.path.c_str(), quote(k, 12).c_str()); op = "erase"; n.v->erase(k); if (n.m->k == M::MAP) n.m->m.erase(key255(k)); ++structural; break; }
		case 9: { g.note("%s.clear()", n.path.c_str()); op = "clear"; n.v->clear(); *n.m = M(); break; }
		case 10: // copy construct, then overwrite a slot with the copy
		{
			int t = (int)g.u(NSLOT); g.note("s%d = copy of %s", t, n.path.c_str()); op = "copy construction"; M x = *n.m; CAnyValue c(*n.v); std::string d = diffAny(x, c, 0); PBT_CHECK(g, d.empty(), "copy differs: %s", d.c_str());
			vv[t] = c; mm[t] = x; c.clear(); break;
		}
		case 11: // round trip through bytes into a live node
		{
			op = "decode into place"; g.note("%s.decode(encode)", n.path.c_str()); int s2 = (int)g.u(NSLOT); Node f = pickNode(g, mm[s2], vv[s2], s2); M x = *f.m; std::string e = f.v->encode(); n.v->decode(e.data(), e.size()); *n.m = x; break;
		}
		default: op = "reads"; break;
		}
		// the node may have been replaced: pick again for the reads
		for (int i = 0; i < NSLOT; ++i) if (mm[i].nodes() > 200) { vv[i].clear(); mm[i] = M(); }
		int r = (int)g.u(NSLOT); reads(g, pickNode(g, mm[r], vv[r], r));
		checkAll(g, mm, vv, op.c_str());
	}
	if (ops >= 4 && structural >= 2) g.nontrivial();
	g.labelIf(aliased > 0, "assignment within one value"); g.labelIf(ops >= 20, "20 or more operations");
	}
	size_t after = __sanitizer_get_current_allocated_bytes();
	PBT_CHECK(g, after <= before, "%zu bytes are still allocated after every value is destroyed", after - before);
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"history", history, 120000, 3000000, "1-41 operations over four live values with node-level targets; non-trivial = at least 4 operations, 2 of them structural", 20000, 0},
	};
	return pbtMain(argc, argv, "C05", s);
}
