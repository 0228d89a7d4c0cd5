// SCALE: 8
// REPO_SRC: src/Utils.cpp
// C14: HTTP dates format and parse exactly.
#include "pbt.h"
#include "Utils.h"
using namespace pbt;

static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *DL[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char *MO[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
struct Civil { int y, m, d, wd, H, M, S; };
// plain day counting, independent of libc
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int y, int m) { static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return k[m] + (m == 1 && leap(y)); }
static Civil civil(int64_t t)
{
	Civil c; int64_t day = t / 86400, s = t % 86400; c.wd = (int)((day + 4) % 7); c.H = s / 3600; c.M = s / 60 % 60; c.S = s % 60;
	c.y = 1970; while (day >= (leap(c.y) ? 366 : 365)) { day -= leap(c.y) ? 366 : 365; ++c.y; }
	c.m = 0; while (day >= mdays(c.y, c.m)) { day -= mdays(c.y, c.m); ++c.m; }
	c.d = (int)day + 1; return c;
}
static const int64_t END = 2145916799; // 2037-12-31 23:59:59
static void dates(G &g)
{
	int64_t t;
	switch (g.u(4))
	{
	case 0: t = g.u(END + 1); break;
	case 1: { int y = (int)g.range(1970, 2037), m = (int)g.u(12); int64_t day = 0; for (int i = 1970; i < y; ++i) day += leap(i) ? 366 : 365; for (int i = 0; i < m; ++i) day += mdays(y, i); t = day * 86400 + g.range(-2, 2) * (g.b() ? 1 : 86400); break; } // around month ends
	case 2: t = (int64_t)g.u(24837) * 86400 + g.pick({0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399}); break;
	default: t = g.u(100000); if (g.b()) t = END - t;
	}
	if (t < 0) t = 0;
	if (t > END) t = END;
	Civil c = civil(t); char a[80], b[80], d[80], e[80], f[80];
	snprintf(a, sizeof a, "%s, %02d %s %04d %02d:%02d:%02d GMT", D[c.wd], c.d, MO[c.m], c.y, c.H, c.M, c.S);
	snprintf(b, sizeof b, "%s, %02d-%s-%02d %02d:%02d:%02d GMT", DL[c.wd], c.d, MO[c.m], c.y % 100, c.H, c.M, c.S);
	snprintf(d, sizeof d, "%s %s %2d %02d:%02d:%02d %04d", D[c.wd], MO[c.m], c.d, c.H, c.M, c.S, c.y);
	snprintf(e, sizeof e, "%s, %02d-%s-%04d %02d:%02d:%02d GMT", D[c.wd], c.d, MO[c.m], c.y, c.H, c.M, c.S);
	snprintf(f, sizeof f, "%s, %02d %s %02d %02d:%02d:%02d GMT", D[c.wd], c.d, MO[c.m], c.y % 100, c.H, c.M, c.S);
	g.note("%lld = %s", (long long)t, a);
	std::string got = lce::GetGMTDate((time_t)t);
	PBT_CHECK(g, got == a, "second %lld is formatted as %s instead of %s", (long long)t, got.c_str(), a);
	const char *sp[] = {a, b, d, e, f};
	for (int i = 0; i < 5; ++i) { time_t r = lce::Gmt2Time(sp[i]); PBT_CHECK(g, (int64_t)r == t, "%s is parsed as %lld instead of %lld", sp[i], (long long)r, (long long)t); }
	g.labelIf(c.m == 1 && c.d >= 28, "end of February"); g.labelIf(t > 2082844800, "after the epoch of 2036");
	g.nontrivial();
}
static void garbage(G &g)
{
	std::string s;
	switch (g.u(4))
	{
	case 0: s = g.text(g.size(20), "Mon JaFeb0123456789:-, \x80"); break;
	case 1: s = g.bytes(g.size(30)); break;
	case 2: { Civil c = civil((int64_t)g.u(END)); char b[80]; int n = g.b() ? snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", D[c.wd], c.d, MO[c.m], c.y, c.H, c.M, c.S) : snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %04d", D[c.wd], MO[c.m], c.d, c.H, c.M, c.S, c.y); s.assign(b, g.u(n + 1)); g.label("cut date"); break; }
	default: { s = "X "; if (g.b()) s += g.text(1 + g.u(2), "0123") + (g.b() ? " " : "-"); s += MO[g.u(12)]; s += g.text(g.u(3), " -"); s += g.text(g.size(20), "0123456789 :"); s.erase(g.u(s.size() + 1)); }
	}
	if (g.chance(1, 3) && !s.empty()) s[g.u(s.size())] = (char)g.u(256);
	size_t z = s.find('\0'); if (z != std::string::npos) s.erase(z);
	g.note("%s", quote(s).c_str());
	char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1);
	time_t r = lce::Gmt2Time(p), r2 = lce::Gmt2Time(p); free(p);
	PBT_CHECK(g, r == r2, "two parses of the same text differ");
	g.labelIf(r != 0, "accepted");
	if (s.size() > 4) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"dates", dates, 150000, 2000000, "seconds of 1970-2037 (uniform, month ends, day boundaries), formatted and parsed in five spellings; all non-trivial", 10000, 0};
	Suite b = {"garbage", garbage, 150000, 2000000, "cut and mutated dates and random text in exactly-sized buffers; non-trivial: over four bytes", 10000, 0};
	s.push_back(a); s.push_back(b);
	return pbtMain(argc, argv, "C14", s);
}
