// SCALE: 2
// C06: XML encoding is well-formed and faithful.
#include "anymodel.h"
#include "CAnyPackage.h"
using namespace pbt; using namespace lce;

// independent parser of the XML subset: elements, character data, CDATA sections
struct X { std::string name, text; bool cdata; std::vector<X> kids; X() : cdata(false) {} };
struct XP
{
	const std::string &t; size_t p; std::string err;
	explicit XP(const std::string &s) : t(s), p(0) {}
	bool bad(const char *m) { if (err.empty()) { char b[80]; snprintf(b, sizeof b, "%s at byte %zu", m, p); err = b; } return false; }
	static bool ns(char c) { return isalpha((unsigned char)c) || c == '_'; }
	static bool nc(char c) { return ns(c) || isdigit((unsigned char)c) || c == '-' || c == '.'; }
	bool name(std::string &n) { if (p >= t.size() || !ns(t[p])) return bad("name expected"); while (p < t.size() && nc(t[p])) n += t[p++]; return true; }
	bool content(X &x)
	{
		while (p < t.size())
		{
			if (t.compare(p, 9, "<![CDATA[") == 0) { size_t e = t.find("]]>", p + 9); if (e == std::string::npos) return bad("open CDATA"); x.cdata = true; x.text += t.substr(p + 9, e - p - 9); p = e + 3; }
			else if (t.compare(p, 2, "</") == 0) return true;
			else if (t[p] == '<') { X k; if (!elem(k)) return false; x.kids.push_back(k); }
			else if (t[p] == '&') return bad("unexpected entity");
			else { if (t.compare(p, 3, "]]>") == 0) return bad("]]> in text"); x.text += t[p++]; }
		}
		return true;
	}
	bool elem(X &x)
	{
		if (p >= t.size() || t[p] != '<') return bad("'<' expected"); ++p;
		if (!name(x.name)) return false; if (p >= t.size() || t[p] != '>') return bad("'>' expected"); ++p;
		if (!content(x)) return false;
		std::string e; if (t.compare(p, 2, "</")) return bad("end tag expected"); p += 2;
		if (!name(e)) return false; if (e != x.name) return bad("end tag does not match"); if (p >= t.size() || t[p] != '>') return bad("'>' expected"); ++p;
		return true;
	}
};
static std::string cmp(const M &m, const X &x, const std::string &path)
{
	char b[64];
	switch (m.k)
	{
	case M::NUL: return x.kids.empty() && !x.cdata && x.text == "null" ? "" : path + " should read null";
	case M::BOOL: return x.kids.empty() && !x.cdata && x.text == (m.u ? "true" : "false") ? "" : path + " has the wrong bool";
	case M::UINT: snprintf(b, sizeof b, "%llu", (unsigned long long)m.u); return x.kids.empty() && !x.cdata && x.text == b ? "" : path + " reads " + x.text + " instead of " + b;
	case M::SINT: snprintf(b, sizeof b, "%lld", (long long)m.u); return x.kids.empty() && !x.cdata && x.text == b ? "" : path + " reads " + x.text + " instead of " + b;
	case M::FLT: { char *e; double d = strtod(x.text.c_str(), &e); return x.kids.empty() && !x.cdata && !x.text.empty() && !*e && (d == m.d || fabs(d - m.d) <= 1e-14 * fabs(m.d) || fabs(d - m.d) < 1e-320) ? "" : path + " reads " + x.text; }
	case M::STR: return x.kids.empty() && x.text == m.s && (x.cdata || m.s.empty() || m.s.find_first_of("<&") == std::string::npos) ? "" : path + " reads " + pbt::quote(x.text) + " instead of " + pbt::quote(m.s);
	case M::VEC:
		if (!x.text.empty() || x.kids.size() != m.v.size()) { snprintf(b, sizeof b, " has %zu items, expected %zu", x.kids.size(), m.v.size()); return path + b; }
		for (size_t i = 0; i < m.v.size(); ++i) { snprintf(b, sizeof b, "[%zu]", i); if (x.kids[i].name != "li") return path + b + " is not a list item"; std::string r = cmp(m.v[i], x.kids[i], path + b); if (!r.empty()) return r; }
		return "";
	case M::MAP:
	{
		if (!x.text.empty() || x.kids.size() != m.m.size()) { snprintf(b, sizeof b, " has %zu elements, expected %zu", x.kids.size(), m.m.size()); return path + b; }
		size_t j = 0;
		for (std::map<std::string, M>::const_iterator i = m.m.begin(); i != m.m.end(); ++i, ++j) { if (x.kids[j].name != i->first) return path + " has element " + x.kids[j].name + ", expected " + i->first; std::string r = cmp(i->second, x.kids[j], path + "." + i->first); if (!r.empty()) return r; }
		return "";
	}
	}
	return "?";
}
static void judge(G &g, const M &m)
{
	g.note("tree: %s", show(m).c_str());
	CAnyValue v; buildAny(g, m, v);
	bool utf8 = g.b(); std::string doc, pre; uint64_t how = g.u(4);
	if (how == 0) doc = v.encodeXMLWithHead(utf8);
	else if (how == 1) { pre = g.text(g.u(4), "ab"); doc = pre; v.encodeXMLWithHead(doc, utf8); PBT_CHECK(g, doc.compare(0, pre.size(), pre) == 0, "bytes already in the buffer were changed"); doc.erase(0, pre.size()); }
	else if (how == 2) { CAnyPackage p; p.setRoot(v); p.encodeXML(utf8); doc.assign(p.getBodyData(), p.getBodySize()); }
	else { std::string body = v.encodeXML(); doc = std::string(utf8 ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : "<?xml version=\"1.0\" encoding=\"GB2312\"?>") + "<xmldata>" + body + "</xmldata>"; std::string app = "p"; v.encodeXML(app); PBT_CHECK(g, app == "p" + body, "encoding onto a non-empty buffer does not append"); }
	g.note("xml: %s", quote(doc, 600).c_str());
	std::string decl = utf8 ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : "<?xml version=\"1.0\" encoding=\"GB2312\"?>";
	PBT_CHECK(g, doc.compare(0, decl.size(), decl) == 0, "XML declaration is wrong");
	std::string rest = doc.substr(decl.size()); XP xp(rest); X root;
	PBT_CHECK(g, xp.elem(root) && xp.p == rest.size(), "not well-formed: %s", xp.err.empty() ? "bytes behind the root" : xp.err.c_str());
	PBT_CHECK(g, root.name == "xmldata", "root element is %s", root.name.c_str());
	std::string d = cmp(m, root, "root");
	PBT_CHECK(g, d.empty(), "%s", d.c_str());
	if (m.nodes() >= 3) g.nontrivial();
	g.labelIf(doc.find("]]><![CDATA[") != std::string::npos, "split CDATA");
}
static void trees(G &g) { size_t budget = 3 + g.size(100); judge(g, genRoot(g, TREE_XML, (int)g.range(0, 6), budget)); }
static void large(G &g) { judge(g, bigTree(g, TREE_XML, g.chance(1, 4) ? 140000 : 9000)); }
int main(int argc, char **argv)
{
	std::vector<Suite> s = {{"trees", trees, 150000, 3000000, "random trees with XML-name keys and text biased to markup characters and ']]>'; non-trivial = at least 3 nodes", 20000, 0},
		{"large", large, 600, 20000, "up to 140000 items or members, strings up to 4 MB full of markup and ']]>'; non-trivial = at least 3 nodes", 20000, 0}};
	return pbtMain(argc, argv, "C06", s);
}
