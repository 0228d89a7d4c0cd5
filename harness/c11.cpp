// SCALE: 2
// REPO_SRC: src/Utils.cpp src/CHttpReader.cpp
// C11: HTTP request parsing recovers what the client sent.
#include "pbt.h"
#undef MAP_FILE
#include "CHttpReader.h"
using namespace pbt; using namespace lce;
typedef std::string S; typedef std::map<S, S> SM;

// raw: characters that may stand for themselves where the text is put
static S enc(G &g, const S &s, const char *raw = "")
{
	S r; char b[4]; bool all = g.chance(1, 6), low = g.b(); if (all || g.b()) raw = "";
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = s[i];
		if (!all && ((c < 128 && isalnum(c)) || c == '-' || c == '_' || c == '.' || c == '~' || c == '*' || (c && strchr(raw, c)))) r += c;
		else if (c == ' ' && g.b()) r += '+';
		else { snprintf(b, sizeof b, low ? "%%%02x" : "%%%02X", c); r += b; }
	}
	return r;
}
static S genVal(G &g) { switch (g.u(6)) { case 0: return ""; case 1: return g.bytes(g.size(20)); case 2: return g.text(g.size(20), "%+&=; \r\n\"ab"); case 3: return std::to_string((long long)g.num64()); case 4: return g.text(g.size(300), "abcdef "); default: return g.text(1 + g.u(8), "xyz019"); } }
static const char *RAWV = "=?/:@!$'(),;\"<>[]{}|^`\xc3\xa9\xe4\xb8\xad\xff", *RAWN = "?/:@!$'(),", *RAWC = "=?/:@!()[]{}|";
static S big(G &g, size_t max) { return g.fill(g.edge(max), g.pick({"abc0", "a b&c=d%e+f", "x"})); } // now and then a length that buffers are made of
static S genName(G &g) { switch (g.u(6)) { case 0: return g.text(1 + g.u(5), "a b&=%"); case 1: return "a"; case 2: return "uid"; default: return g.text(1 + g.u(6), "abcUV_-9"); } }
static S genTok(G &g) { return g.text(1 + g.u(8), "abcUV_9"); }
static S mixCase(G &g, const S &s) { S r = s; unsigned k = g.u(4); for (size_t i = 0; i < r.size(); ++i) { if (k == 0) r[i] = tolower(r[i]); else if (k == 1) r[i] = toupper(r[i]); else if (k == 2) r[i] = g.b() ? toupper(r[i]) : tolower(r[i]); } return r; }
static const char *HN[] = {"Host", "Accept", "Referer", "Accept-Language", "Accept-Encoding", "User-Agent", "Connection", "Cache-Control", "If-Match", "If-None-Match", "If-Range", "X-Test", "Content-Length", "Content-Type", "Cookie", "If-Modified-Since"};
enum { NH = 16 };
struct File { S name, type, data; };
struct Req { int cmd; S path, query, version, body; SM heads, cookies, values; std::map<S, File> files; bool exactValues, multipart; S wire; };

static S noise(G &g) { switch (g.u(4)) { case 0: return ""; case 1: return "="; case 2: return "=" + g.text(g.u(4), "ab1"); default: return "Z" + g.text(g.u(4), "abc1"); } }
static S pairs(G &g, SM &out, size_t max)
{
	S r; bool many = g.chance(1, 50); size_t n = many ? g.edge(1100) : g.size(max); g.labelIf(n > 100, "over 100 parameters");
	bool noisy = g.chance(1, 3); // parameters without a value or a name, and empty ones, between the others
	for (size_t i = 0; i < n; ++i)
	{
		if (noisy && g.chance(1, 2)) { r += (r.empty() ? "" : "&") + noise(g); g.label("bare parameters"); }
		S k = genName(g), v = many || !g.chance(1, 40) ? genVal(g) : big(g, 70000); if (many) k += std::to_string(i % 300); out[k] = v; r += (r.empty() ? "" : "&") + enc(g, k, RAWN) + "=" + enc(g, v, RAWV);
	}
	if (noisy && g.chance(1, 2)) r += (r.empty() ? "" : "&") + noise(g);
	return r;
}
static Req gen(G &g)
{
	Req q; q.cmd = (int)g.u(3); q.exactValues = true; q.multipart = false;
	q.path = "/" + (g.chance(1, 30) ? g.fill(g.edge(70000), "abc/._-") : g.text(g.size(20), "abc/._-%20~+=&:@")); q.version = g.b() ? "HTTP/1.1" : "HTTP/1.0";
	S uri = q.path, line;
	std::vector<S> hl;
	#define ADD(n, v) do { S nn = (n), vv = (v); q.heads[nn] = vv; hl.push_back(mixCase(g, nn) + ":" + (g.chance(1, 4) ? S(g.u(3), ' ') : " ") + vv); } while (0)
	if (q.cmd != POST) { if (g.chance(2, 3)) { q.query = pairs(g, q.values, 6); uri += "?" + q.query; } }
	else if (g.chance(1, 4)) uri += "?" + g.text(g.size(8), "ab=&"); // a query behind a POST target is not part of the body
	for (size_t i = 0, n = g.size(6); i < n; ++i)
	{
		S name = HN[g.u(12)]; if (q.heads.count(name)) continue;
		S v = g.text(g.size(30), "abc;=,/: \"%+?"); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v[v.size() - 1] == ' ') v.erase(v.size() - 1);
		if (g.chance(1, 40)) { v = g.fill(g.edge(70000), "abc;=,/:\"%+?"); g.labelIf(v.size() > 4000, "head over 4000 bytes"); }
		ADD(name, v);
	}
	if (g.chance(1, 30)) { size_t n = g.edge(1100); for (size_t i = 0; i < n; ++i) { char h[32]; snprintf(h, sizeof h, "X-Many-%zu", i); hl.push_back(S(h) + ": " + std::to_string(i)); } g.labelIf(n > 50, "over 50 heads"); }
	if (g.chance(1, 2))
	{
		S c; bool many = g.chance(1, 40); size_t n = many ? g.edge(520) : 1 + g.u(4);
		for (size_t i = 0; i < n; ++i) { S k = genTok(g), v = many || !g.chance(1, 40) ? genVal(g) : big(g, 70000); if (many) k += std::to_string(i); q.cookies[k] = v; if (g.chance(1, 8)) c += (c.empty() ? "" : ";") + (g.b() ? S("Zc") : S("")); c += (c.empty() ? "" : g.b() ? "; " : ";") + k + "=" + enc(g, v, RAWC); }
		ADD("Cookie", c);
	}
	if (q.cmd == POST)
	{
		unsigned k = g.u(4);
		if (k < 2) { q.body = pairs(g, q.values, 8); if (k == 0) ADD("Content-Type", "application/x-www-form-urlencoded"); }
		else if (k == 2) { q.body = genVal(g) + g.blob(g.chance(1, 20) ? g.edge(1 << 21) : g.size(200)); q.exactValues = false; ADD("Content-Type", "application/octet-stream"); }
		else
		{
			q.multipart = true; S b = g.pick({"----WebKitFormBoundaryAbC", "B", "xYzZy-42"}) + g.text(8 + g.u(8), "0123456789");
			ADD("Content-Type", "multipart/form-data; boundary=" + b);
			bool many = g.chance(1, 30); for (size_t i = 0, n = many ? g.edge(300) : g.size(5); i < n; ++i)
			{
				S name = genTok(g); if (many) name += std::to_string(i); if (q.values.count(name) || q.files.count(name)) continue;
				S data; switch (g.u(6)) { case 0: data = ""; break; case 1: data = g.blob(g.size(300)); break; case 2: data = "filename=\"x\"\r\nContent-Type: t\r\n\r\n" + g.text(g.size(5), "ab"); break; case 3: data = g.text(g.size(4), "\r\n-"); break; case 4: if (g.chance(1, 20)) { data = g.blob(g.edge(1 << 21)); break; } data = "a=1&b=2%41+"; break; default: data = genVal(g); }
				if (data.find(b) != S::npos) continue;
				S part = "--" + b + "\r\nContent-Disposition: form-data; name=\"" + name + "\"";
				if (g.chance(2, 5))
				{
					File f; f.name = g.text(1 + g.u(10), "abc. -_\xc3\xa9"); f.type = g.pick({"text/plain", "application/octet-stream", "image/png"}); f.data = data;
					part += "; filename=\"" + f.name + "\"\r\nContent-Type: " + f.type; if (g.chance(1, 5)) part += "\r\nContent-Transfer-Encoding: binary";
					q.files[name] = f;
				}
				else { if (g.chance(1, 6)) part += "\r\nContent-Type: text/plain; charset=utf-8"; q.values[name] = data; }
				q.body += part + "\r\n\r\n" + data + "\r\n";
			}
			q.body += "--" + b + "--\r\n"; q.exactValues = true;
		}
		ADD("Content-Length", std::to_string(q.body.size()));
	}
	g.shuffle(hl);
	q.wire = S(q.cmd == GET ? "GET" : q.cmd == POST ? "POST" : "HEAD") + " " + uri + " " + q.version + "\r\n";
	for (size_t i = 0; i < hl.size(); ++i) q.wire += hl[i] + "\r\n";
	q.wire += "\r\n" + q.body;
	return q;
}
// a call of getCookie with this type, if there is one
template <class T, class R> static auto cookieAs(R &r, const S &n, T &v, int) -> decltype(r.getCookie(n, v), bool()) { v = 1; return r.getCookie(n, v) == v; }
template <class T, class R> static bool cookieAs(R &, const S &, T &, long) { return false; }
static void verify(G &g, CHttpReader &r, const Req &q, const std::set<S> &names)
{
	PBT_CHECK(g, r.getCommand() == q.cmd, "method is %d instead of %d", r.getCommand(), q.cmd);
	PBT_CHECK(g, q.path == r.getURI(), "path is %s instead of %s", quote(r.getURI()).c_str(), quote(q.path).c_str());
	PBT_CHECK(g, q.version == r.getVersion(), "version is %s instead of %s", quote(r.getVersion()).c_str(), q.version.c_str());
	for (int i = 0; i < NH; ++i)
	{
		S n = HN[i]; SM::const_iterator it = q.heads.find(n); S want = it == q.heads.end() ? "" : it->second;
		S got = r.getHead(mixCase(g, n)); PBT_CHECK(g, got == want, "head %s is %s instead of %s", n.c_str(), quote(got).c_str(), quote(want).c_str());
	}
	#define H(n, f) { SM::const_iterator it = q.heads.find(n); PBT_CHECK(g, (it == q.heads.end() ? S() : it->second) == r.f(), #f " is %s", quote(r.f()).c_str()); }
	H("Host", getHost) H("Accept", getAccept) H("Referer", getReferer) H("Accept-Language", getAcceptLanguage) H("Content-Type", getContentType) H("Accept-Encoding", getAcceptEncoding) H("User-Agent", getUserAgent) H("Connection", getConnection) H("Cache-Control", getCacheControl) H("If-Match", getIfMatch) H("If-None-Match", getIfNoneMatch) H("If-Range", getIfRange)
	PBT_CHECK(g, r.getContentLength() == (q.cmd == POST ? q.body.size() : 0), "content length %lu", r.getContentLength());
	{ SM::const_iterator it = q.heads.find("Cookie"); PBT_CHECK(g, (it == q.heads.end() ? S() : it->second) == r.getCookieList(), "cookie list is %s", quote(r.getCookieList()).c_str()); }
	S raw; r.getValue(raw); S want = q.cmd == POST ? q.body : q.query; PBT_CHECK(g, raw == want, "%s is %s instead of %s", q.cmd == POST ? "body" : "query", quote(raw).c_str(), quote(want).c_str()); PBT_CHECK(g, S(r.getBody()) == want.c_str(), "getBody differs");
	for (std::set<S>::const_iterator n = names.begin(); n != names.end(); ++n)
	{
		S got, def = "d"; SM::const_iterator it = q.cookies.find(*n); r.getCookie(*n, got, def); S w = it == q.cookies.end() ? def : it->second;
		PBT_CHECK(g, got == w, "cookie %s is %s instead of %s", quote(*n).c_str(), quote(got).c_str(), quote(w).c_str());
		unsigned long ul = 0; PBT_CHECK(g, r.getCookie(*n, ul, 77UL) == ul && ul == (it == q.cookies.end() ? 77UL : (unsigned long)atoll(it->second.c_str())), "cookie %s as a number is %lu", quote(*n).c_str(), ul);
		{
			bool have = it != q.cookies.end(); const char *cv = have ? it->second.c_str() : ""; int i = 1; unsigned short us = 1; unsigned char uc = 1;
			PBT_CHECK(g, r.getCookie(*n, i, -7) == i && i == (have ? atoi(cv) : -7), "cookie %s as int is %d", quote(*n).c_str(), i); PBT_CHECK(g, r.getCookie(*n, uc, (unsigned char)9) == uc && uc == (have ? (unsigned char)atoi(cv) : 9), "cookie %s as unsigned char is %d", quote(*n).c_str(), uc);
			PBT_CHECK(g, (cookieAs<int>(r, *n, i, 0) && i == (have ? atoi(cv) : 0)), "cookie %s as int cannot be asked for or is %d", quote(*n).c_str(), i); PBT_CHECK(g, cookieAs<unsigned short>(r, *n, us, 0) && us == (have ? (unsigned short)atol(cv) : 0), "cookie %s as unsigned short cannot be asked for or is %d", quote(*n).c_str(), us);
		}
		if (q.exactValues && !q.files.count(*n))
		{
			it = q.values.find(*n); w = it == q.values.end() ? def : it->second; r.getValue(*n, got, def);
			PBT_CHECK(g, got == w, "value %s is %s instead of %s", quote(*n).c_str(), quote(got).c_str(), quote(w).c_str());
			r.getValue(*n, ul, 77UL); PBT_CHECK(g, ul == (it == q.values.end() ? 77UL : (unsigned long)atoll(it->second.c_str())), "value %s as unsigned long is %lu", quote(*n).c_str(), ul);
			int i = 0; r.getValue(*n, i, -7); PBT_CHECK(g, i == (it == q.values.end() ? -7 : atoi(it->second.c_str())), "value %s as int is %d", quote(*n).c_str(), i);
			unsigned short us = 0; r.getValue(*n, us, (unsigned short)9); PBT_CHECK(g, us == (it == q.values.end() ? 9 : (unsigned short)atol(it->second.c_str())), "value %s as unsigned short is %d", quote(*n).c_str(), us);
			unsigned char uc = 0; r.getValue(*n, uc, (unsigned char)9); PBT_CHECK(g, uc == (it == q.values.end() ? 9 : (unsigned char)atol(it->second.c_str())), "value %s as unsigned char is %d", quote(*n).c_str(), uc);
			bool bo = false; r.getValue(*n, bo, true); PBT_CHECK(g, bo == (it == q.values.end() ? true : atol(it->second.c_str()) != 0), "value %s as bool is %d", quote(*n).c_str(), bo);
		}
		std::map<S, File>::const_iterator f = q.files.find(*n); S fd = r.getFile(*n), fn = r.getFileName(*n), ft = r.getFileType(*n);
		if (f == q.files.end()) PBT_CHECK(g, fd.empty() && fn.empty() && ft.empty(), "a file %s named %s of %zu bytes appears that was not sent", quote(*n).c_str(), quote(fn).c_str(), fd.size());
		else { PBT_CHECK(g, fn == f->second.name && ft == f->second.type, "file %s has name %s and type %s instead of %s and %s", quote(*n).c_str(), quote(fn).c_str(), quote(ft).c_str(), quote(f->second.name).c_str(), f->second.type.c_str()); PBT_CHECK(g, fd == f->second.data, "file %s contains %s instead of %s", quote(*n).c_str(), quote(fd).c_str(), quote(f->second.data).c_str()); }
	}
	if (q.exactValues) for (SM::const_iterator it = r.getValueList().begin(); it != r.getValueList().end(); ++it) PBT_CHECK(g, q.values.count(it->first) || q.files.count(it->first) || it->first.empty() || (it->first[0] == 'Z' && it->second.empty()), "a value %s = %s appears that was not sent", quote(it->first).c_str(), quote(it->second).c_str());
}
static S mutate(G &g, S d)
{
	for (size_t i = 0, n = g.u(5); i < n && !d.empty(); ++i) { size_t p = g.u(d.size()); switch (g.u(5)) { case 0: d[p] = (char)g.u(256); break; case 1: d.erase(p, 1 + g.u(6)); break; case 2: d.insert(p, g.text(1 + g.u(4), "\r\n: %=&;\"-")); break; case 3: d.erase(p); break; default: { S x = d.substr(p, g.u(20)); d.insert(g.u(d.size()), x); } } }
	return d;
}
static bool feed(CHttpReader &r, const S &w, bool &threw)
{
	char *p = (char *)malloc(w.size()); memcpy(p, w.data(), w.size()); bool ok = false; threw = false;
	try { ok = r.setData(p, (int)w.size()); } catch (const std::exception &) { threw = true; }
	free(p); return ok;
}
static void requests(G &g)
{
	CHttpReader r; std::set<S> names; names.insert("nope"); size_t n = 1 + g.u(4), good = 0, feats = 0;
	for (size_t i = 0; i < n; ++i)
	{
		Req q = gen(g);
		for (SM::iterator it = q.values.begin(); it != q.values.end(); ++it) names.insert(it->first);
		for (SM::iterator it = q.cookies.begin(); it != q.cookies.end(); ++it) names.insert(it->first);
		for (std::map<S, File>::iterator it = q.files.begin(); it != q.files.end(); ++it) names.insert(it->first);
		bool threw;
		if (g.chance(1, 6)) { S w = mutate(g, q.wire); g.note("garbage: %s", quote(w, 300).c_str()); feed(r, w, threw); continue; }
		if (g.chance(1, 8)) { r.clear(); g.note("clear"); }
		g.note("request: %s", quote(q.wire, 900).c_str());
		bool ok = feed(r, q.wire, threw); PBT_CHECK(g, ok && !threw, "a well-formed request is rejected: %s", threw ? "exception" : r.getErrMsg());
		verify(g, r, q, names); ++good; feats += q.values.size() + q.cookies.size() + q.files.size();
		g.labelIf(q.multipart, "multipart"); g.labelIf(!q.files.empty(), "with files"); g.labelIf(!q.cookies.empty(), "with cookies"); g.labelIf(q.cmd == HEAD, "HEAD");
	}
	if (good > 0 && feats > 1) g.nontrivial();
}
static void garbage(G &g)
{
	CHttpReader r; size_t n = 1 + g.u(3);
	for (size_t i = 0; i < n; ++i)
	{
		S w; switch (g.u(3)) { case 0: w = g.text(g.size(60), "GET POSHEAD /?=&%\r\n:;"); break; case 1: w = g.bytes(g.size(60)); break; default: w = mutate(g, gen(g).wire); }
		if (g.chance(1, 4)) w = g.pick({"GET ", "POST ", "HEAD "}) + w;
		g.note("%s", quote(w, 400).c_str()); bool threw; bool ok = feed(r, w, threw);
		S v; r.getURI(); r.getBody(); r.getValue("a", v); r.getCookie("a", v); r.getFile("a"); for (int k = 0; k < NH; ++k) r.getHead(HN[k]); r.getIfModifiedSinceTime(); r.getContentLength();
		g.labelIf(ok, "parsed"); g.labelIf(threw, "exception"); if (w.size() > 10) g.nontrivial();
	}
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"requests", requests, 40000, 500000, "1-4 generated requests (GET/HEAD query, form, raw and multipart bodies, cookies, header case) on one reader with garbage in between; non-trivial: at least two parameters, cookies or files", 10000, 0};
	Suite b = {"garbage", garbage, 40000, 500000, "random and mutated requests in exactly-sized buffers; non-trivial: over ten bytes", 10000, 0};
	s.push_back(a); s.push_back(b);
	return pbtMain(argc, argv, "C11", s);
}
