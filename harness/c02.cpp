// C02: binary decoding of hostile bytes is contained.
#include "anymodel.h"
#include "CAnyPackage.h"
#include <sanitizer/allocator_interface.h>
using namespace pbt; using namespace lce;

static uint64_t g_allocated; static bool g_count;
static void onMalloc(const volatile void *, size_t n) { if (g_count) g_allocated += n; }
static void onFree(const volatile void *) {}
static void hook() { static bool done; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } }

struct SmallHead { char b[7]; };

// decode through one of the entry points; true when accepted
static bool decodeVia(int how, const char *p, size_t n, CAnyValue &out, size_t head, size_t total)
{
	(void)total;
	if (how == 0) { out.decode(p, n); return true; }
	if (how == 1) { out.decode((const unsigned char *)p, n); return true; }
	if (how == 2) { CAnyPackage pk; pk.decode(p - head, n + head); out = pk.getRoot(); return true; }
	CAnyValuePackage<SmallHead> pk; pk.decode((const unsigned char *)p - head, n + head); out = pk.getRoot(); return true;
}
static bool tryDecode(G &g, const std::string &bytes, CAnyValue &out, int how)
{
	hook();
	size_t head = how == 2 ? sizeof(AnyHeader) : how == 3 ? sizeof(SmallHead) : 0;
	Exact x(std::string(head, 'h') + bytes);
	bool ok = false; std::string why;
	g_allocated = 0; g_count = true;
	try { ok = decodeVia(how, x.data() + head, bytes.size(), out, head, x.size()); }
	catch (const std::bad_alloc &e) { g_count = false; g.fail("decoding %zu bytes runs out of memory", bytes.size()); }
	catch (const std::exception &e) { why = e.what(); }
	catch (...) { g_count = false; g.fail("decoder threw something that is not a std::exception"); }
	g_count = false;
	PBT_CHECK(g, g_allocated <= 65536 + 3000 * (uint64_t)bytes.size(), "decoding %zu bytes allocates %llu bytes", bytes.size(), (unsigned long long)g_allocated);
	return ok;
}
static void checkAccepted(G &g, const CAnyValue &out)
{
	M m = fromAny(out);
	std::string d = diffAny(m, out, 0);
	PBT_CHECK(g, d.empty(), "accepted value is inconsistent: %s", d.c_str());
	std::string e2 = const_cast<CAnyValue &>(out).encode(), ref; refEncode(m, ref);
	PBT_CHECK(g, e2 == ref, "re-encoding of an accepted value is not the encoding of that value");
	CAnyValue again; Exact x(e2);
	try { again.decode(x.data(), x.size()); } catch (const std::exception &e) { g.fail("re-encoding of an accepted value is rejected: %s", e.what()); }
	d = diffAny(m, again, 0);
	PBT_CHECK(g, d.empty(), "decoding the re-encoding gives another value: %s", d.c_str());
}
static std::string validBytes(G &g, M &m)
{
	size_t budget = 2 + g.size(80);
	m = genRoot(g, TREE_BIN, 5, budget);
	std::string e; if (g.b()) refEncode(m, e); else looseEncode(g, m, e);
	return e;
}
static std::string mutate(G &g, std::string e)
{
	int n = 1 + (int)g.u(4);
	for (int i = 0; i < n; ++i)
	{
		size_t p = e.empty() ? 0 : g.u(e.size());
		switch (g.u(9))
		{
		case 0: if (!e.empty()) e[p] = (char)g.u(256); break;
		case 1: if (!e.empty()) e[p] ^= (char)(1 << g.u(8)); break;
		case 2: e.insert(p, g.bytes(1 + g.u(4))); break;
		case 3: e.erase(p, 1 + g.u(4)); break;
		case 4: e.resize(p); break;
		case 5: for (int k = 0; k < 4 && p + k < e.size(); ++k) e[p + k] = (char)0xff; break;
		case 6: if (!e.empty()) e[p] = (char)g.u(20); break; // another tag
		case 7: { static const unsigned char big[4][4] = {{0, 0, 1, 0}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0x10, 0, 0}}; const unsigned char *b = big[g.u(4)]; for (int k = 0; k < 4 && p + k < e.size(); ++k) e[p + k] = (char)b[k]; break; }
		default: { size_t q = e.empty() ? 0 : g.u(e.size()); e.insert(p, e.substr(q, g.u(40))); break; }
		}
	}
	return e;
}
static void mutated(G &g)
{
	M m; std::string e = mutate(g, validBytes(g, m)); int how = (int)g.u(4);
	g.note("entry %d, %zu bytes: %s", how, e.size(), quote(e, 400).c_str());
	CAnyValue out; if (g.chance(1, 4)) out = CAnyValue("previous");
	bool ok = tryDecode(g, e, out, how);
	g.label(ok ? "accepted" : "rejected");
	if (ok && !(how >= 2 && e.empty())) checkAccepted(g, out);
	else { M left = fromAny(out); (void)left; }
	if (e.size() >= 4) g.nontrivial();
}
static void randomBytes(G &g)
{
	std::string e; size_t n = g.size(200);
	for (size_t i = 0; i < n; ++i) { uint64_t k = g.u(4); e += (char)(k == 0 ? g.u(256) : k == 1 ? 0 : g.u(18)); }
	int how = (int)g.u(4);
	g.note("entry %d, bytes: %s", how, quote(e, 400).c_str());
	CAnyValue out;
	bool ok = tryDecode(g, e, out, how);
	g.label(ok ? "accepted" : "rejected");
	if (ok && !(how >= 2 && e.empty())) checkAccepted(g, out);
	if (e.size() >= 2) g.nontrivial();
}
// duplicate keys: the same name several times in one map, with values of different types
static void duplicateKeys(G &g)
{
	size_t n = 2 + g.u(4); std::string e(1, (char)8); be(e, n, 4); M last;
	for (size_t i = 0; i < n; ++i) { size_t b = 1 + g.u(4); M v = genTree(g, TREE_BIN, 2, b); e += std::string("\x01k", 2); looseEncode(g, v, e); last = v; g.note("value %zu: %s", i, show(v).c_str()); }
	CAnyValue out; bool ok = tryDecode(g, e, out, (int)g.u(4));
	if (ok)
	{
		checkAccepted(g, out);
		std::string d = diffAny(last, out["k"], 0);
		g.labelIf(d.empty(), "last duplicate wins");
	}
	g.nontrivial();
}
static void truncated(G &g)
{
	M m; std::string e = validBytes(g, m); int how = (int)g.u(4);
	// every cut of short encodings, drawn cuts of long ones
	std::vector<size_t> cuts;
	if (e.size() <= 64) for (size_t i = 0; i < e.size(); ++i) cuts.push_back(i);
	else for (int i = 0; i < 24; ++i) cuts.push_back(i < 4 ? e.size() - 1 - i : g.u(e.size()));
	g.note("entry %d, tree %s, %zu bytes, %zu cuts", how, show(m).c_str(), e.size(), cuts.size());
	for (size_t i = 0; i < cuts.size(); ++i)
	{
		size_t c = cuts[i]; if (how >= 2 && c == 0) continue; // an empty body behind a head is an empty package
		CAnyValue out; if (i % 3 == 1) out = CAnyValue("previous");
		bool ok = tryDecode(g, e.substr(0, c), out, how);
		if (ok) g.fail("the first %zu of %zu bytes are accepted as %s", c, e.size(), show(fromAny(out)).c_str());
		M left = fromAny(out); (void)left;
	}
	// heads cut short
	if (how >= 2)
	{
		size_t head = how == 2 ? sizeof(AnyHeader) : sizeof(SmallHead); size_t c = g.u(head);
		Exact x((std::string(head, 'h') + e).substr(0, c)); bool ok = true;
		try { if (how == 2) { CAnyPackage p; p.decode(x.data(), x.size()); } else { CAnyValuePackage<SmallHead> p; p.decode(x.data(), x.size()); } }
		catch (const std::exception &) { ok = false; }
		PBT_CHECK(g, !ok, "%zu bytes, fewer than the head, are accepted as a package", c);
	}
	if (e.size() >= 6) g.nontrivial();
}
// whatever was rejected before, a valid encoding still decodes
static void afterErrors(G &g)
{
	size_t n = 1 + g.edge(g.chance(1, 8) ? 2100 : 130), kinds = 1 + g.u(4); std::vector<std::string> bad;
	for (size_t k = 0; k < kinds; ++k)
	{
		M m; std::string e = validBytes(g, m); if (g.b()) e = mutate(g, e); else e.resize(g.u(e.size() + 1));
		if (g.chance(1, 3)) { std::string p; size_t c = 1 + g.u(1200); for (size_t i = 0; i < c; ++i) p.append("\x07\0\0\0\x01", 5); e = p + e; }
		bad.push_back(e); g.note("bad %zu: %s", k, quote(e, 100).c_str());
	}
	size_t rejected = 0; CAnyValue v; int how = (int)g.u(4);
	for (size_t i = 0; i < n; ++i) rejected += !tryDecode(g, bad[i % kinds], v, i < 20 ? how : 0);
	M m; std::string e = validBytes(g, m), p; size_t nest = g.u(190);
	for (size_t i = 0; i < nest; ++i) { p.append("\x07\0\0\0\x01", 5); M o = M::V(); o.v.push_back(m); m = o; }
	e = p + e; g.note("%zu inputs, %zu rejected, then %zu bytes", n, rejected, e.size());
	PBT_CHECK(g, tryDecode(g, e, v, (int)g.u(4)), "after %zu rejected inputs a valid encoding is rejected", rejected);
	std::string d = diffAny(m, v, 0); PBT_CHECK(g, d.empty(), "decoded value differs: %s", d.c_str());
	if (rejected > 1) g.nontrivial();
}
static void deep(G &g)
{
	size_t n = g.chance(1, 4) ? (size_t)g.range(1, 300) : (size_t)g.range(300, g.thorough() ? 400000 : 120000);
	int kind = (int)g.u(3); std::string e;
	for (size_t i = 0; i < n; ++i)
	{
		bool map = kind == 1 || (kind == 2 && (i & 1));
		if (!map) e.append("\x07\0\0\0\x01", 5); else e.append("\x08\0\0\0\x01\x01k", 7);
	}
	bool closed = g.b(); if (closed) e += (char)12;
	g.note("%zu nested containers (kind %d, %s)", n, kind, closed ? "complete" : "cut");
	int how = (int)g.u(4); CAnyValue out; bool ok = tryDecode(g, e, out, how);
	PBT_CHECK(g, closed || !ok, "cut nest accepted");
	if (closed && n <= 200) PBT_CHECK(g, ok, "a value nested %zu deep is rejected", n);
	if (ok) { std::string e2 = out.encode(); PBT_CHECK(g, e2 == e, "deep value re-encodes differently"); }
	g.labelIf(ok, "accepted"); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"mutated", mutated, 150000, 4000000, "valid encodings with 1-4 mutations (bytes, tags, inflated lengths, splices, cuts), through value and package entry points; non-trivial = at least 4 bytes", 10000, 0},
		{"truncated", truncated, 20000, 600000, "valid encodings cut at every (short) or drawn (long) point; non-trivial = encoding of at least 6 bytes", 10000, 0},
		{"random", randomBytes, 80000, 2000000, "tag-biased random bytes; non-trivial = at least 2 bytes", 10000, 0},
		{"duplicate_keys", duplicateKeys, 15000, 300000, "maps repeating one key with values of different types; all non-trivial", 10000, 0},
		{"afterErrors", afterErrors, 700, 30000, "up to 2000 rejected inputs, then a valid encoding nested up to 195 deep; non-trivial = at least 2 rejected", 20000, 0},
		{"deep", deep, 400, 4000, "1 to 120000 (thorough 400000) nested containers; all non-trivial", 20000, 0},
	};
	return pbtMain(argc, argv, "C02", s);
}
