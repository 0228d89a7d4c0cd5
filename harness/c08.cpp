// C08: message packages preserve head fields and body.
#include "anymodel.h"
#include <arpa/inet.h>
#include "CAnyPackage.h"
#include "CPackageFilter.h"
#include "CH2T3PackageFilter.h"
using namespace pbt; using namespace lce;

enum { NF = 10 };
static const char *names[NF] = {"len", "version", "serviceId", "cmd", "seq", "format", "uid", "clientIp", "errno", "flag"};
static const int width[NF] = {4, 2, 4, 4, 4, 4, 8, 4, 4, 4};
static void setF(AnyHeader &h, int f, uint64_t v) { switch (f) { case 0: h.setLen(v); break; case 1: h.setVersion(v); break; case 2: h.setServiceId(v); break; case 3: h.setCmd(v); break; case 4: h.setSeq(v); break; case 5: h.setFormat(v); break; case 6: h.setUid(v); break; case 7: h.setClientIp(v); break; case 8: h.setErrno(v); break; case 9: h.setFlag(v); break; } }
static uint64_t getF(AnyHeader &h, int f) { switch (f) { case 0: return h.getLen(); case 1: return h.getVersion(); case 2: return h.getServiceId(); case 3: return h.getCmd(); case 4: return h.getSeq(); case 5: return h.getFormat(); case 6: return h.getUid(); case 7: return h.getClientIp(); case 8: return h.getErrno(); default: return h.getFlag(); } }
static uint64_t cut(uint64_t v, int f) { return width[f] == 8 ? v : v & (((uint64_t)1 << (8 * width[f])) - 1); }
struct HM { uint8_t stx; uint64_t f[NF]; };
static void sameHead(G &g, AnyHeader &h, const HM &m, const char *when)
{
	PBT_CHECK(g, h.getStx() == m.stx, "%s: start byte is %d instead of %d", when, h.getStx(), m.stx);
	for (int i = 0; i < NF; ++i) PBT_CHECK(g, getF(h, i) == m.f[i], "%s: head field %s is %llx instead of %llx", when, names[i], (unsigned long long)getF(h, i), (unsigned long long)m.f[i]);
}
static std::string wire(const HM &m) { std::string r(1, (char)m.stx); for (int i = 0; i < NF; ++i) for (int b = width[i] - 1; b >= 0; --b) r += (char)(m.f[i] >> (8 * b)); return r; }

static void message(G &g)
{
	CAnyPackage p; HM m; memset(&m, 0, sizeof m);
	bool own = g.b(); // head assembled in place or set as a whole
	AnyHeader h; m.stx = 2; sameHead(g, h, m, "a new head");
	AnyHeader &th = own ? p.head() : h;
	if (own) { th.setStx(2); }
	int sets = (int)g.range(0, 14);
	for (int i = 0; i < sets; ++i)
	{
		int f = (int)g.u(NF); uint64_t v = g.chance(1, 3) ? g.u(0) : g.num64(); g.note("set %s = %llx", names[f], (unsigned long long)v);
		setF(th, f, v); m.f[f] = cut(v, f); sameHead(g, th, m, "after a set");
	}
	if (!own) p.setHead(h);
	sameHead(g, p.head(), m, "package head");
	M body; std::string enc;
	bool json = g.chance(1, 4);
	size_t budget = 30; body = g.chance(1, 60) ? bigTree(g, json ? TREE_JSON : TREE_BIN, 9000) : genRoot(g, json ? TREE_JSON : TREE_BIN, 4, budget);
	g.note("body %s as %s", show(body).c_str(), json ? "JSON" : "binary");
	if (body.k == M::MAP && g.b()) { CAnyValue tmp; for (std::map<std::string, M>::iterator it = body.m.begin(); it != body.m.end(); ++it) { CAnyValue v; buildAny(g, it->second, v); if (g.b()) p[it->first] = v; else p.insert(it->first, v); } if (body.m.empty()) { buildAny(g, body, tmp); p.setRoot(tmp); } }
	else { CAnyValue v; buildAny(g, body, v); if (g.b()) p.setRoot(v); else p.getRoot() = v; }
	if (g.chance(1, 3)) { if (json) p.encode(); else p.encodeJSON(); g.note("encoded twice"); }
	if (json) p.encodeJSON(); else p.encode();
	enc = std::string(p.getBodyData(), p.getBodySize());
	PBT_CHECK(g, p.size() == sizeof(AnyHeader) + p.getBodySize(), "package size %zu is not head + body %zu", p.size(), p.getBodySize());
	std::string ref; refEncode(body, ref);
	if (!json) PBT_CHECK(g, enc == ref, "body bytes are %s instead of %s", quote(enc).c_str(), quote(ref).c_str());
	p.head().setLen(p.size() + 1); m.f[0] = p.size() + 1; p.setEtx();
	PBT_CHECK(g, p.size() == sizeof(AnyHeader) + enc.size() + 1 && p.head().getLen() == p.size(), "length %u for %zu bytes", p.head().getLen(), p.size());
	std::string w(p.data(), p.size());
	PBT_CHECK(g, w == wire(m) + enc + "\x03", "bytes on the wire are %s instead of head %s, body, end byte", quote(w.substr(0, 43)).c_str(), quote(wire(m)).c_str());
	CH2T3PackageFilter flt; int real = 0, len = 0;
	std::string behind = w + (g.b() ? g.blob(g.u(20)) : "");
	int fr = flt.isWholePkg(behind.data(), (int)behind.size(), real, len);
	PBT_CHECK(g, fr == 0 && (size_t)len == w.size(), "the framing filter says %d, length %d for a message of %zu bytes", fr, len, w.size());
	// receive, into a fresh or used package
	CAnyPackage q; bool used = g.b();
	if (used) { q["old"] = CAnyValue("x"); q["a"] = CAnyValue(1); q.head().setUid(~0ull); q.encode(); g.label("received into a used package"); }
	size_t n = w.size() - (json || g.chance(1, 3) ? 1 : 0);
	Exact ex(w.substr(0, n));
	try { if (json) q.decodeJSON(ex.p, n); else if (g.b()) q.decode(ex.p, n); else q.decode((const unsigned char *)ex.p, n); } catch (const std::exception &e) { g.fail("a valid message is rejected: %s", e.what()); }
	sameHead(g, q.head(), m, "received head");
	std::string d = diffAny(body, q.getRoot(), json ? 1e-14 : 0);
	PBT_CHECK(g, d.empty(), "received body: %s", d.c_str());
	if (body.k == M::MAP) for (std::map<std::string, M>::iterator it = body.m.begin(); it != body.m.end(); ++it) { PBT_CHECK(g, q.hasKey(it->first), "received body has no key %s", quote(it->first).c_str()); d = diffAny(it->second, q[it->first], json ? 1e-14 : 0); PBT_CHECK(g, d.empty(), "member %s: %s", quote(it->first).c_str(), d.c_str()); }
	// answer from a copy: independent of the original
	CAnyPackage c(q); uint32_t seq = (uint32_t)g.u(1ull << 32); c.head().setSeq(seq); c.clearBody(); c["ret"] = CAnyValue(1); c.encode();
	sameHead(g, q.head(), m, "head of the original after changing a copy"); d = diffAny(body, q.getRoot(), json ? 1e-14 : 0); PBT_CHECK(g, d.empty(), "body of the original after changing a copy: %s", d.c_str());
	HM cm = m; cm.f[4] = seq; sameHead(g, c.head(), cm, "head of the copy");
	g.labelIf(json, "JSON body");
	if (sets > 1 && enc.size() > 1) g.nontrivial();
}
static void truncated(G &g)
{
	size_t n = g.u(sizeof(AnyHeader) + 3); std::string w = g.blob(n); bool json = g.b();
	if (n > sizeof(AnyHeader)) w = w.substr(0, sizeof(AnyHeader)) + (json ? std::string("[]").substr(0, n - sizeof(AnyHeader)) : std::string("\x01\x05").substr(0, n - sizeof(AnyHeader)));
	g.note("%zu bytes, %s", n, json ? "JSON" : "binary");
	CAnyPackage q; q["k"] = CAnyValue(1); bool ok = true; Exact ex(w);
	try { if (json) q.decodeJSON(ex.p, n); else q.decode(ex.p, n); } catch (const std::exception &) { ok = false; }
	if (n < sizeof(AnyHeader)) PBT_CHECK(g, !ok, "%zu bytes are accepted as a message with a %zu byte head", n, sizeof(AnyHeader));
	if (n == sizeof(AnyHeader)) { PBT_CHECK(g, ok && q.getRoot().isNull(), "a message without body is rejected or keeps the old body"); PBT_CHECK(g, std::string((char *)&q.head(), n) == w, "head bytes changed"); }
	g.nontrivial();
}
// one or two packages used again and again: each carries what was put in last
struct RM { HM head; M body; int form; std::string enc; M was; size_t tail; }; // form: 0 bytes as given, 1 binary, 2 JSON of was, then tail end bytes
static void sameP(G &g, CAnyPackage &p, const RM &m, const char *when)
{
	std::string w(p.data(), p.size()), hw = wire(m.head);
	PBT_CHECK(g, w.substr(0, hw.size()) == hw, "%s: head bytes are %s instead of %s", when, quote(w.substr(0, hw.size())).c_str(), quote(hw).c_str());
	PBT_CHECK(g, p.getBodySize() == w.size() - hw.size() && std::string(p.getBodyData(), p.getBodySize()) == w.substr(hw.size()), "%s: body bytes differ from the bytes behind the head", when);
	std::string b = w.substr(hw.size());
	if (m.form == 2)
	{
		PBT_CHECK(g, b.size() >= m.tail && b.substr(b.size() - m.tail) == std::string(m.tail, '\x03'), "%s: %zu end bytes are missing", when, m.tail);
		Exact ex(b.substr(0, b.size() - m.tail)); CAnyValue v;
		try { v.decodeJSON(ex.p, b.size() - m.tail); } catch (const std::exception &e) { g.fail("%s: body %s is rejected: %s", when, quote(b.substr(0, 200)).c_str(), e.what()); }
		std::string d = diffAny(m.was, v, 1e-14); PBT_CHECK(g, d.empty(), "%s: JSON body: %s", when, d.c_str());
	}
	else PBT_CHECK(g, b == m.enc + std::string(m.tail, '\x03'), "%s: body is %zu bytes %s instead of %zu bytes %s", when, b.size(), quote(b.substr(0, 100)).c_str(), m.enc.size() + m.tail, quote((m.enc + std::string(m.tail, '\x03')).substr(0, 100)).c_str());
	std::string d = diffAny(m.body, p.getRoot(), 1e-14); PBT_CHECK(g, d.empty(), "%s: body tree: %s", when, d.c_str());
}
static void reuse(G &g)
{
	CAnyPackage p[2]; RM m[2];
	for (int i = 0; i < 2; ++i) { memset(&m[i].head, 0, sizeof(HM)); m[i].form = 0; m[i].tail = 0; p[i].head().setStx(2); m[i].head.stx = 2; }
	int n = (int)g.range(2, 14), puts = 0;
	for (int i = 0; i < n; ++i)
	{
		int k = g.b(); CAnyPackage &q = p[k]; RM &r = m[k]; char op[40] = "";
		switch (g.u(10))
		{
		case 0: { int f = (int)g.u(NF); uint64_t v = g.num64(); setF(q.head(), f, v); r.head.f[f] = cut(v, f); snprintf(op, sizeof op, "set %s", names[f]); break; }
		case 1: { size_t budget = 12; r.body = g.chance(1, 8) ? bigTree(g, TREE_JSON, 9000) : genRoot(g, TREE_JSON, 3, budget); CAnyValue v; buildAny(g, r.body, v); if (g.b()) q.setRoot(v); else q.getRoot() = v; snprintf(op, sizeof op, "setRoot"); break; }
		case 2: case 3: q.encode(); r.form = 1; r.enc.clear(); refEncode(r.body, r.enc); r.tail = 0; snprintf(op, sizeof op, "encode"); ++puts; break;
		case 4: q.encodeJSON(); r.form = 2; r.was = r.body; r.tail = 0; snprintf(op, sizeof op, "encodeJSON"); ++puts; break;
		case 5: q.setEtx(); ++r.tail; snprintf(op, sizeof op, "setEtx"); break;
		case 6: { r.enc = g.fill(g.edge(g.chance(1, 6) ? 140000 : 300), "ab\x03{\xff"); r.form = 0; r.tail = 0; if (g.b()) q.setBodyData(r.enc.data(), r.enc.size()); else q.setBodyData((const unsigned char *)r.enc.data(), r.enc.size()); snprintf(op, sizeof op, "setBodyData %zu", r.enc.size()); ++puts; break; }
		case 7: if (g.b()) { q.clear(); r.form = 0; r.tail = 0; r.enc.clear(); snprintf(op, sizeof op, "clear"); } else { q.clearBody(); snprintf(op, sizeof op, "clearBody"); } r.body = M(); break;
		case 8: if (g.b()) q = p[1 - k]; else { CAnyPackage c(p[1 - k]); q = c; } r = m[1 - k]; snprintf(op, sizeof op, "assign from %d", 1 - k); break;
		default:
		{
			M b; size_t budget = 12; b = genRoot(g, TREE_JSON, 3, budget); std::string w = wire(m[1 - k].head), e; refEncode(b, e); bool only = g.chance(1, 6); if (only) e.clear();
			w += e; Exact ex(w); try { q.decode(ex.p, w.size()); } catch (const std::exception &x) { g.fail("a valid message is rejected: %s", x.what()); }
			r.head = m[1 - k].head; r.body = only ? M() : b; r.form = 0; r.enc.clear(); r.tail = 0; snprintf(op, sizeof op, "decode");
		}
		}
		g.note("%d: %s", k, op);
		for (int j = 0; j < 2; ++j) sameP(g, p[j], m[j], op);
	}
	if (puts > 1) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"message", message, 60000, 1000000, "head fields set in random order and values, random body tree, encoded (binary or JSON), framed, decoded into a fresh or used package; non-trivial: two or more fields set and a non-empty body", 10000, 0};
	Suite b = {"truncated", truncated, 5000, 50000, "0 to head+2 bytes decoded; all non-trivial", 10000, 0};
	Suite c = {"reuse", reuse, 20000, 300000, "2 to 14 operations (head fields, body tree, encode, body bytes, clear, assign, decode) on two packages against a model of head, body bytes and tree; non-trivial: bytes put in twice or more", 10000, 0};
	s.push_back(a); s.push_back(b); s.push_back(c);
	return pbtMain(argc, argv, "C08", s);
}
