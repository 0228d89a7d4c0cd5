// SCALE: 2
// REPO_SRC: src/Utils.cpp src/CHttpWriter.cpp
// C12: HTTP responses carry exactly the status, headers, cookies and body set.
#include "pbt.h"
#include <memory>
#include "CHttpWriter.h"
#include "CPackageFilter.h"
#include "CHttpPackageFilter.h"
using namespace pbt; using namespace lce;
typedef std::string S;

static time_t parseGmt(const S &s)
{
	struct tm t; memset(&t, 0, sizeof t); const char *e = strptime(s.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &t);
	return e && !*e ? timegm(&t) : -1;
}
static const struct { int c; const char *t; } REASON[] = {{100, "Continue"}, {101, "Switching Protocols"}, {200, "OK"}, {201, "Created"}, {202, "Accepted"}, {203, "Non-Authoritative Information"}, {204, "No Content"}, {205, "Reset Content"}, {206, "Partial Content"}, {300, "Multiple Choices"}, {301, "Moved Permanently"}, {302, "Found"}, {303, "See Other"}, {304, "Not Modified"}, {305, "Use Proxy"}, {307, "Temporary Redirect"}, {400, "Bad Request"}, {401, "Unauthorized"}, {402, "Payment Required"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {407, "Proxy Authentication Required"}, {408, "Request Time-out"}, {409, "Conflict"}, {410, "Gone"}, {411, "Length Required"}, {412, "Precondition Failed"}, {413, "Request Entity Too Large"}, {414, "Request-URI Too Large"}, {415, "Unsupported Media Type"}, {416, "Requested range not satisfiable"}, {417, "Expectation Failed"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {504, "Gateway Time-out"}, {505, "HTTP Version not supported"}};
static S trim(const S &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == S::npos ? "" : s.substr(a, b - a + 1); }
static S low(S s) { for (size_t i = 0; i < s.size(); ++i) s[i] = tolower(s[i]); return s; }
static S val(G &g, bool longer = true) { if (longer && g.chance(1, 40)) return g.fill(g.edge(70000), "abc019/%"); S v; switch (g.u(5)) { case 0: v = g.text(g.size(12), "abc=;,:/ \"%+"); break; case 1: v = longer ? g.text(900 + g.u(300), "abcdef0123/") : "x"; break; case 2: v = "Content-Length: " + std::to_string(g.u(100)); break; case 3: v = g.text(g.size(60), "abcXYZ019-_.~%sdn"); break; default: v = longer ? g.text(g.size(5000), "abcd/?&=%") : "yy"; } return trim(v); }
static S cval(G &g) { return g.chance(1, 40) ? g.fill(g.edge(70000), "abc019/%") : g.chance(1, 8) ? g.text(1000 + g.u(3000), "abc123%") : g.text(g.size(20), "abcXYZ019-_.~%sdn"); }
static S token(G &g) { return "X-" + g.text(1 + g.size(20), "abcUV-_9"); }

static void responses(G &g)
{
	CHttpWriter *w = new CHttpWriter; size_t n = 1 + g.u(4), feats = 0; std::unique_ptr<CHttpWriter> own(w);
	for (size_t r = 0; r < n; ++r)
	{
		if (r || g.chance(4, 5)) w->begin(); else g.label("fresh writer");
		S conn = "Close", ctype = "text/html", body; int status = 200; unsigned long setLen = 0; time_t lm = 0, ex = 0;
		std::map<S, S> one; std::map<S, S> heads; struct Ck { S v, d, p; time_t t; }; std::map<S, Ck> cookies;
		bool many = g.chance(1, 25); g.labelIf(many, "many calls"); for (size_t i = 0, k = many ? g.edge(520) : g.size(14); i < k; ++i) switch (g.u(15))
		{
		case 0: status = g.chance(1, 8) ? (int)g.u(1000) : REASON[g.u(sizeof REASON / sizeof *REASON)].c; w->setStatusCode(status); break;
		case 1: conn = g.pick({"Keep-Alive", "close", "keep-alive, Upgrade"}); w->setConnection(conn); break;
		case 2: ctype = g.chance(1, 6) ? val(g) : S("application/json; charset=utf-8"); w->setContentType(ctype); break;
		case 3: one["cache-control"] = val(g); w->setCacheControl(one["cache-control"]); break;
		case 4: one["location"] = "http://h/" + val(g); w->setLocation(one["location"]); break;
		case 5: one["etag"] = "\"" + val(g) + "\""; w->setETag(one["etag"]); break;
		case 6: lm = 1 + (time_t)g.u(4000000000u); w->setLastModified(lm); break;
		case 7: ex = 1 + (time_t)g.u(4000000000u); w->setExpires(ex); break;
		case 8: case 9: { S k = token(g); if (many && g.chance(2, 3)) k += std::to_string(i); heads[k] = val(g); w->setHead(k, heads[k]); break; }
		case 10: { S k = g.text(1 + g.u(6), "abcUV_9"); if (many) k += std::to_string(i); if (cookies.count(k)) break; Ck c = {cval(g), g.b() ? S("d.example") : S(), g.b() ? S("/p") : S(), g.b() ? (time_t)0 : (time_t)g.u(1000000000u) - 500000000}; 
			if (g.chance(1, 3)) { long long x = g.num64(); c.v = std::to_string(x); w->setCookie(k, x, c.d, c.p, c.t); } else w->setCookie(k, c.v, c.d, c.p, c.t); cookies[k] = c; break; }
		case 11: { S b = !many && g.chance(1, 20) ? g.blob(g.edge(1 << 22)) : g.chance(1, 6) ? g.blob(g.size(5000)) : g.blob(g.size(60)); w->write(b.data(), b.size()); body += b; break; }
		case 12: { S b = g.chance(1, 3) ? g.blob(g.size(100)) : S("\r\n\r\nHTTP/1.1 200 OK\r\n"); *w << b; body += b; break; }
		case 13: { S b = g.text(g.size(30), "abc <>%sdn"); *w << b.c_str(); body += b; break; }
		default: switch (g.u(4)) { case 0: { long long x = g.num64(); *w << x; body += std::to_string(x); break; } case 1: { unsigned x = (unsigned)g.num64(); *w << x; body += std::to_string(x); break; } case 2: *w << 'c'; body += 'c'; break; default: setLen = g.u(3) ? 1 + g.u(100000) : (unsigned long)1 << 33; w->setBodyLen(setLen); }
		}
		int ends = g.chance(1, 8) ? 2 : 1; time_t t0 = time(0); for (int i = 0; i < ends; ++i) w->end(); time_t t1 = time(0);
		PBT_CHECK(g, w->size() == (size_t)w->getDataLen() && w->data() == w->getData(), "two accessors disagree");
		S m(w->data(), w->size()); g.note("response %zu: %s", r, quote(m, 700).c_str());
		size_t he = m.find("\r\n\r\n"); PBT_CHECK(g, he != S::npos, "the response has no end of head");
		S head = m.substr(0, he + 2), got = m.substr(he + 4); PBT_CHECK(g, got == body, "body is %s instead of %s", quote(got).c_str(), quote(body).c_str());
		size_t p = head.find("\r\n"); S sl = head.substr(0, p);
		S reason; for (size_t i = 0; i < sizeof REASON / sizeof *REASON; ++i) if (REASON[i].c == status) reason = REASON[i].t;
		S pre = "HTTP/1.1 " + std::to_string(status) + " "; PBT_CHECK(g, sl.compare(0, pre.size(), pre) == 0 && (reason.empty() ? sl.size() >= pre.size() : sl.substr(pre.size()) == reason), "status line is %s", quote(sl).c_str());
		std::multimap<S, S> want, have;
		want.insert({"connection", conn}); want.insert({"content-type", trim(ctype)});
		for (auto &x : one) if (!x.second.empty()) want.insert({x.first, trim(x.second)});
		for (auto &x : heads) want.insert({low(x.first), x.second});
		// header names that differ only in case are two heads of one name: the multimap compares their values
		if (setLen || !body.empty()) want.insert({"content-length", std::to_string(setLen ? setLen : body.size())});
		for (p += 2; p < head.size();)
		{
			size_t e = head.find("\r\n", p); S l = head.substr(p, e - p); p = e + 2; size_t c = l.find(':'); PBT_CHECK(g, c != S::npos && c > 0, "head line %s has no name", quote(l).c_str());
			S k = low(l.substr(0, c)), v = trim(l.substr(c + 1));
			if (k == "date") { time_t t = parseGmt(v); PBT_CHECK(g, t >= t0 && t <= t1, "Date is %s", quote(v).c_str()); have.insert({k, ""}); }
			else if (k == "last-modified" || k == "expires") { time_t t = parseGmt(v), wt = k == "expires" ? ex : lm; PBT_CHECK(g, wt && t == wt, "%s is %s instead of %lld", k.c_str(), quote(v).c_str(), (long long)wt); have.insert({k, ""}); }
			else if (k == "set-cookie")
			{
				size_t q = v.find('='); S cn = v.substr(0, q); PBT_CHECK(g, q != S::npos && cookies.count(cn), "cookie %s was not set", quote(v).c_str()); Ck c = cookies[cn];
				std::vector<S> at; for (size_t a = 0;;) { size_t b = v.find(';', a); at.push_back(trim(v.substr(a, b == S::npos ? b : b - a))); if (b == S::npos) break; a = b + 1; }
				PBT_CHECK(g, at[0] == cn + "=" + c.v, "cookie %s is %s instead of %s", cn.c_str(), quote(at[0]).c_str(), quote(c.v).c_str());
				int d = 0, pa = 0, e2 = 0; for (size_t i = 1; i < at.size(); ++i)
				{
					size_t q2 = at[i].find('='); S an = low(at[i].substr(0, q2)), av = q2 == S::npos ? S() : at[i].substr(q2 + 1);
					if (an == "domain") { ++d; PBT_CHECK(g, !c.d.empty() && av == c.d, "cookie domain %s", quote(av).c_str()); }
					else if (an == "path") { ++pa; PBT_CHECK(g, !c.p.empty() && av == c.p, "cookie path %s", quote(av).c_str()); }
					else if (an == "expires") { ++e2; time_t t = parseGmt(av); PBT_CHECK(g, c.t && t >= t0 + c.t && t <= t1 + c.t, "cookie expiry %s for %lld s", quote(av).c_str(), (long long)c.t); }
					else g.fail("cookie attribute %s was not set", quote(at[i]).c_str());
				}
				PBT_CHECK(g, d == !c.d.empty() && pa == !c.p.empty() && e2 == (c.t != 0), "cookie attributes missing or doubled in %s", quote(v).c_str());
				have.insert({"set-cookie", cn});
			}
			else have.insert({k, v});
		}
		if (body.empty() && !setLen) { auto cl = have.equal_range("content-length"); if (cl.first != cl.second && cl.first->second == "0" && std::distance(cl.first, cl.second) == 1) have.erase(cl.first); } // allowed, not required
		want.insert({"date", ""}); if (lm) want.insert({"last-modified", ""}); if (ex) want.insert({"expires", ""}); for (auto &c : cookies) want.insert({"set-cookie", c.first});
		std::vector<std::pair<S, S> > a(want.begin(), want.end()), b(have.begin(), have.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		for (size_t i = 0; i < a.size() || i < b.size(); ++i) PBT_CHECK(g, i < a.size() && i < b.size() && a[i] == b[i], "heads differ: wanted %s: %s, found %s: %s", i < a.size() ? a[i].first.c_str() : "-", i < a.size() ? quote(a[i].second).c_str() : "-", i < b.size() ? b[i].first.c_str() : "-", i < b.size() ? quote(b[i].second).c_str() : "-");
		if (!setLen || setLen == body.size())
		{
			CHttpPackageFilter f; int real = 0, pkg = 0; S next = m + "HTTP/1.1 200 OK\r\n\r\n"; std::vector<char> x(next.begin(), next.end());
			int rc = f.isWholePkg(x.data(), (int)x.size(), real, pkg); PBT_CHECK(g, rc == 0 && pkg == (int)m.size(), "the framing filter answers %d with %d of %zu bytes", rc, pkg, m.size());
			std::vector<char> y(m.begin(), m.begin() + g.u(m.size())); rc = f.isWholePkg(y.data(), (int)y.size(), real, pkg); PBT_CHECK(g, rc == -1, "the framing filter answers %d for the first %zu of %zu bytes", rc, y.size(), m.size());
		}
		feats += one.size() + heads.size() + cookies.size() + !body.empty(); g.labelIf(m.size() > 1100, "over 1100 bytes"); g.labelIf(m.size() > 1000000, "over 1000000 bytes"); g.labelIf(!cookies.empty(), "with cookies"); g.labelIf(r > 0, "reused writer");
	}
	if (feats >= 2) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"responses", responses, 40000, 600000, "1-4 generated responses on one writer, parsed back by an independent parser and by the framing filter; non-trivial: at least two heads, cookies or bodies", 10000, 0};
	s.push_back(a);
	return pbtMain(argc, argv, "C12", s);
}
