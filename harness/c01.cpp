// SCALE: 1.5
// C01: binary encoding of dynamic values round-trips exactly.
#include "anymodel.h"
using namespace pbt; using namespace lce;

static void judge(G &g, const M &m)
{
	g.note("tree: %s", show(m).c_str());
	CAnyValue v; buildAny(g, m, v);
	std::string d = diffAny(m, v, 0);
	PBT_CHECK(g, d.empty(), "value as built differs from what was put in: %s", d.c_str());

	std::string enc = v.encode(), ref; refEncode(m, ref);
	if (enc != ref)
	{
		size_t i = 0; while (i < enc.size() && i < ref.size() && enc[i] == ref[i]) ++i;
		g.fail("encoding differs from the reference format at byte %zu (lengths %zu / %zu): got %s expected %s", i, enc.size(), ref.size(), quote(enc.substr(i), 40).c_str(), quote(ref.substr(i), 40).c_str());
	}
	PBT_CHECK(g, v.encode() == enc, "encoding the same value twice gives different bytes");
	std::string pre = g.text(g.u(6), "xyz"), app = pre;
	v.encode(app);
	PBT_CHECK(g, app == pre + ref, "encoding onto a non-empty buffer does not append");
	// decode into a fresh or used target, through either overload
	CAnyValue out; int used = (int)g.u(4);
	if (used == 1) { size_t b2 = 1 + g.u(10); M junk = genTree(g, TREE_BIN, 2, b2); buildAny(g, junk, out); g.note("target held: %s", show(junk).c_str()); }
	if (used == 2) { size_t b2 = 1 + g.u(10); M junk = genTree(g, TREE_BIN, 2, b2); std::string e2; refEncode(junk, e2); out.decode(e2.data(), e2.size()); g.note("target had decoded: %s", show(junk).c_str()); }
	{
		Exact x(enc);
		if (g.b()) out.decode(x.data(), x.size()); else out.decode((const unsigned char *)x.data(), x.size());
	}
	d = diffAny(m, out, 0);
	PBT_CHECK(g, d.empty(), "decoded value differs: %s", d.c_str());
	PBT_CHECK(g, out.encode() == ref, "re-encoding the decoded value gives different bytes");
	// a decoded value is a normal value: it can be copied and reused
	CAnyValue cp(out); out.clear();
	d = diffAny(m, cp, 0);
	PBT_CHECK(g, d.empty(), "copy of the decoded value differs after the original is cleared: %s", d.c_str());
	d = diffAny(M(), out, 0);
	PBT_CHECK(g, d.empty(), "cleared value is not null: %s", d.c_str());
	if (m.nodes() >= 3) g.nontrivial();
	g.labelIf(used > 0 && used < 3, "decode into a used value");
	g.labelIf(m.depth() >= 4, "depth>=4"); g.labelIf(enc.size() > 65536, "encoding over 64K"); g.labelIf(m.nodes() > 50, "over 50 nodes");
	g.labelIf(m.k == M::MAP, "map root"); g.labelIf(m.k == M::VEC, "vector root");
}
static void roundtrip(G &g)
{
	size_t budget = 3 + g.size(g.thorough() ? 400 : 150);
	judge(g, genRoot(g, TREE_BIN, (int)g.range(0, 6), budget));
}
static void large(G &g) { judge(g, bigTree(g, TREE_BIN, g.chance(1, 4) ? 140000 : 9000)); }
// every integer boundary, one value per case
static void integers(G &g)
{
	uint64_t p = g.u(64); int64_t off = g.range(-2, 2); bool neg = g.b();
	uint64_t x = ((uint64_t)1 << p) + off; if (neg) x = 0 - x;
	M m = g.b() ? M::U(x) : M::S((int64_t)x);
	g.note("integer: %s", show(m).c_str());
	CAnyValue v = scalarAny(g, m);
	std::string enc = v.encode(), ref; refEncode(m, ref);
	PBT_CHECK(g, enc == ref, "integer encoding %s, expected %s", quote(enc).c_str(), quote(ref).c_str());
	CAnyValue o; o.decode(enc.data(), enc.size());
	std::string d = diffAny(m, o, 0);
	PBT_CHECK(g, d.empty(), "%s", d.c_str());
	g.nontrivial();
}
// other writers may use wider tags than needed; the value is the same
static void looseForms(G &g)
{
	size_t budget = 1 + g.size(80);
	M m = genRoot(g, TREE_BIN, 4, budget);
	std::string e; looseEncode(g, m, e);
	g.note("tree: %s\nbytes: %s", show(m).c_str(), quote(e, 300).c_str());
	Exact x(e); CAnyValue o; o.decode(x.data(), x.size());
	std::string d = diffAny(m, o, 0);
	PBT_CHECK(g, d.empty(), "%s", d.c_str());
	std::string ref; refEncode(m, ref);
	PBT_CHECK(g, o.encode() == ref, "re-encoding is not canonical");
	if (m.nodes() >= 2) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"roundtrip", roundtrip, 150000, 3000000, "random value trees (boundary-biased integers, string classes up to 70000 bytes, any-byte keys) encoded, compared with the reference encoder, decoded into fresh and used targets; non-trivial = at least 3 nodes", 20000, 0},
		{"large", large, 1200, 30000, "up to 140000 items or members, strings up to 4 MB; non-trivial = at least 3 nodes", 20000, 0},
		{"integers", integers, 50000, 300000, "2^p+-2 of either sign through every constructor that fits; all non-trivial", 5000, 0},
		{"loose_forms", looseForms, 80000, 1000000, "valid encodings using wider tags than necessary; non-trivial = at least 2 nodes", 10000, 0},
	};
	return pbtMain(argc, argv, "C01", s);
}
