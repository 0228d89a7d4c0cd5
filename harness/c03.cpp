// SCALE: 1.5
// C03: JSON encoding is valid JSON and round-trips.
#include "refjson.h"
#include "CAnyPackage.h"
using namespace pbt; using namespace lce;
static const double TOL = 1e-14;

static void judge(G &g, const M &m, CAnyValue &v)
{
	std::string js = v.encodeJSON();
	g.note("json: %s", quote(js, 600).c_str());
	M r; RefJson ref(js);
	PBT_CHECK(g, ref.parse(r), "the encoding is not valid JSON: %s in %s", ref.err.c_str(), quote(js.substr(ref.p > 20 ? ref.p - 20 : 0), 60).c_str());
	PBT_CHECK(g, sameM(m, r, TOL), "an independent parser reads another value: %s", show(r).c_str());
	std::string pre = g.text(g.u(4), "ab"), app = pre; v.encodeJSON(app);
	PBT_CHECK(g, app == pre + js, "encoding onto a non-empty buffer does not append");
	CAnyValue back; if (g.chance(1, 5)) back = CAnyValue(7);
	{ Exact x(js); back.decodeJSON(x.data(), x.size()); }
	std::string d = diffAny(m, back, TOL);
	PBT_CHECK(g, d.empty(), "decoding the encoding gives another value: %s", d.c_str());
	// behind a package head
	if (g.chance(1, 4))
	{
		CAnyPackage p; p.head().setCmd(77); p.getRoot() = v; p.encodeJSON();
		PBT_CHECK(g, p.size() == sizeof(AnyHeader) + js.size() && memcmp(p.getBodyData(), js.data(), js.size()) == 0, "package body is not the JSON encoding");
		Exact x(std::string(p.data(), p.size())); CAnyPackage q; q.decodeJSON(x.data(), x.size());
		d = diffAny(m, q.getRoot(), TOL);
		PBT_CHECK(g, d.empty(), "JSON package round trip: %s", d.c_str());
		PBT_CHECK(g, q.head().getCmd() == 77, "JSON package lost its head");
		g.label("through a package");
	}
}
static void trees(G &g)
{
	size_t budget = 3 + g.size(g.thorough() ? 300 : 120);
	M m = genRoot(g, TREE_JSON, (int)g.range(0, 6), budget);
	g.note("tree: %s", show(m).c_str());
	CAnyValue v; buildAny(g, m, v);
	judge(g, m, v);
	if (m.nodes() >= 3) g.nontrivial();
	g.labelIf(m.depth() >= 4, "depth>=4"); g.labelIf(m.nodes() > 50, "over 50 nodes");
}
static void large(G &g)
{
	M m = bigTree(g, TREE_JSON, g.chance(1, 4) ? 140000 : 9000);
	g.note("tree: %s", show(m).c_str());
	CAnyValue v; buildAny(g, m, v); judge(g, m, v);
	if (m.nodes() >= 3) g.nontrivial();
}
static void scalars(G &g)
{
	M m;
	switch (g.u(4))
	{
	case 0: m = g.b() ? M::U(g.num64()) : M::S((int64_t)g.num64()); break;
	case 1: m = M::F(genDouble(g, true)); break;
	case 2: { std::string s; size_t n = g.u(6); for (size_t i = 0; i < n; ++i) s += (char)g.u(256); m = M::T(s); break; }
	default: { uint64_t p = g.u(64); m = M::U(((uint64_t)1 << p) - 1 + g.u(3)); if (g.b()) { m = M::S((int64_t)(0 - m.u)); } break; }
	}
	g.note("scalar: %s", show(m).c_str());
	CAnyValue v = scalarAny(g, m);
	bool wrap = g.b();
	if (wrap) { CAnyValue w; M wm; if (g.b()) { w.push_back(v); wm = M::V(); wm.v.push_back(m); } else { w["k"] = v; wm = M::O(); wm.m["k"] = m; } judge(g, wm, w); }
	else judge(g, m, v);
	g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"trees", trees, 80000, 2000000, "random value trees with any-byte strings and keys; non-trivial = at least 3 nodes", 20000, 0},
		{"large", large, 900, 30000, "up to 140000 items or members, strings up to 4 MB; non-trivial = at least 3 nodes", 20000, 0},
		{"scalars", scalars, 150000, 2000000, "boundary-biased integers, doubles over the whole finite range, short byte strings; alone or in a container; all non-trivial", 5000, 0},
	};
	return pbtMain(argc, argv, "C03", s);
}
