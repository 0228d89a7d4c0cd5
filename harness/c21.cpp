// SCALE: 4
// REPO_SRC: src/CConfig.cpp src/Utils.cpp
// C21: configuration files mean what their lines say.
#include "pbt.h"
#include <sys/syscall.h>
#include "CConfig.h"
using namespace pbt;

// an anonymous file reachable by name: nothing is left on disk
struct MemFile
{
	int fd; std::string path;
	MemFile(const std::string &c) : fd((int)syscall(SYS_memfd_create, "cfg", 0)) { char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", fd); path = b; if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size()) { perror("memfd"); _exit(99); } }
	~MemFile() { close(fd); }
};
typedef std::map<std::string, std::map<std::string, std::string> > Cfg;
static std::string sp(G &g, bool inner = true) { std::string r; if (g.chance(1, 3)) for (size_t i = 0, n = 1 + g.u(3); i < n; ++i) r += g.chance(1, 3) ? '\t' : ' '; (void)inner; return r; }
static std::string word(G &g, const char *alpha, size_t max) { std::string r = g.text(1 + g.size(max), alpha); return r; }
static const char *NAMES[] = {"host", "port", "a", "log.file", "x-y", "Key One", "0", "\xe9\x94\xae", "a]", "k#", "p|q"};
static const char *SECTS[] = {"", "main", "db", "web server", "a", "S1", "\xc4\xa3", "m=n", "#s", "k;"};

static void lines(G &g)
{
	Cfg m; std::string text, app; bool nospace = true; int defs = 0, sects = 0;
	size_t n = 1 + (g.chance(1, 40) ? g.edge(1100) : g.size(30)); g.labelIf(n > 200, "over 200 lines");
	const char *eol = g.chance(1, 3) ? "\r\n" : "\n";
	for (size_t i = 0; i < n; ++i)
	{
		std::string l; std::string lead = sp(g);
		switch (g.u(9))
		{
		case 0: l = lead + "#" + (g.chance(1, 40) ? g.fill(g.edge(70000), "ab =[]") : g.text(g.size(12), "ab =[];#x")); g.label("comment"); break;
		case 1: l = lead + ";" + g.text(g.size(12), "ab =[];#x"); g.label("comment"); break;
		case 2: l = g.chance(1, 2) ? "" : lead + sp(g); g.label("blank"); break;
		case 3: case 4:
			app = SECTS[g.u(10)]; ++sects;
			l = lead + "[" + sp(g) + app + sp(g) + "]" + sp(g);
			if (g.chance(1, 5)) { l += g.pick<const char *>({" # note", "; x=1", " k=v", "junk"}); g.label("text after a section header"); }
			break;
		case 5: // neither: defines nothing
			l = lead + g.pick<std::string>({"justtext", "two words", "[unclosed", "[un=closed", "=value", " = v", "\x01\xff", "key:value"}); g.label("neither form");
			break;
		default:
		{
			std::string k = NAMES[g.u(11)], v;
			switch (g.u(4)) { case 0: v = ""; break; case 1: v = word(g, "abc019.:/=#;[]|", 20); break; case 2: v = "a b\tc " + g.text(1, "xyz=]"); break; default: { char b[32]; snprintf(b, sizeof b, "%d", (int)g.range(-1000, 100000)); v = b; } }
			if (g.chance(1, 60)) { v = "v" + g.fill(g.edge(70000), "abc019.:/=#;[]|") + "w"; g.labelIf(v.size() > 4000, "value over 4000 bytes"); }
			l = lead + k + sp(g) + "=" + sp(g) + v + sp(g);
			g.labelIf(m[app].count(k), "repeated key"); g.labelIf(v.find('=') != std::string::npos, "equals sign in the value");
			m[app][k] = v; ++defs; if (!lead.empty()) nospace = false;
		}
		}
		text += l; if (i + 1 < n || g.chance(3, 4)) text += eol;
	}
	g.note("file:\n%s", quote(text, 1500).c_str());
	MemFile f(text); lce::CConfig c;
	PBT_CHECK(g, c.loadConfig(f.path), "loading fails: %s", c.getErrMsg());
	for (auto s : SECTS) for (auto k : NAMES)
	{
		std::string v = "junk", d = "the default"; bool has = m.count(s) && m[s].count(k);
		std::string &r = c.getValue(s, k, v, d);
		PBT_CHECK(g, &r == &v && v == (has ? m[s][k] : d), "[%s] %s is %s, expected %s", s, k, quote(v).c_str(), quote(has ? m[s][k] : d).c_str());
	}
	// keys nobody wrote
	static const char *JUNK[] = {"justtext", "two words", "[unclosed", "[un", "", "\x01\xff", "key:value", "key", "#", "m", "[m", "[main]", "[main] k", "k", "[a] k", "[] k"};
	for (auto s : SECTS) for (auto k : JUNK) { std::string v; c.getValue(s, k, v, "none"); PBT_CHECK(g, v == "none", "[%s] has a key %s (value %s) that the file does not define", s, quote(k).c_str(), quote(v).c_str()); }
	for (auto s : {"unclosed", "nosuch", "un=closed"}) for (auto k : NAMES) { std::string v; c.getValue(s, k, v, "none"); PBT_CHECK(g, v == "none", "section %s has a key %s", s, k); }
	if (defs > 2 && sects > 0 && !nospace) g.nontrivial();
}
static void typed(G &g)
{
	long long v; std::string txt; char b[64];
	std::string pre = sp(g), post = sp(g);
	int t = g.u(8);
	unsigned long long uv = 0;
	switch (t)
	{
	case 0: v = (int)g.num64(); break;
	case 1: v = (unsigned)g.num64(); break;
	case 2: v = (long)g.num64(); break;
	case 3: v = (unsigned short)g.num64(); break;
	case 4: v = (unsigned char)g.num64(); break;
	case 5: uv = g.num64(); v = 0; break;
	case 6: v = (long)(g.b() ? g.u(3) : g.num64()); break;
	default: v = 0;
	}
	if (t == 5) snprintf(b, sizeof b, "%llu", uv); else snprintf(b, sizeof b, "%lld", v);
	txt = b; if (g.chance(1, 8) && txt[0] != '-') txt = "00" + txt;
	if (g.chance(1, 6)) { txt += g.pick<const char *>({" # c", "k", ".5", ";"}); g.label("text after the number"); }
	if (t == 7) txt = "";
	bool absent = g.chance(1, 6);
	g.note("type %d value %s%s", t, quote(txt).c_str(), absent ? " (asked under another name)" : "");
	MemFile f("[s]\nother=1\nk=" + pre + txt + post + "\n"); lce::CConfig c;
	PBT_CHECK(g, c.loadConfig(f.path), "loading fails");
	std::string k = absent ? "nok" : "k", s = absent && g.b() ? "nos" : "s";
	long long def = 1 + g.u(100);
#define CK(T, want) do { T o = (T)77; T r = c.getValue(s, k, o, (T)def); T w = absent ? (T)def : (T)(want); PBT_CHECK(g, o == w && r == w, "%s read as %s gives %lld/%lld, expected %lld", quote(txt).c_str(), #T, (long long)o, (long long)r, (long long)w); } while (0)
	switch (t)
	{
	case 0: CK(int, v); break;
	case 1: CK(unsigned int, v); break;
	case 2: CK(long, v); break;
	case 3: CK(unsigned short, v); break;
	case 4: CK(unsigned char, v); break;
	case 5: CK(unsigned long, uv); break;
	case 6: CK(bool, v != 0); break;
	default: { std::string o = "x"; c.getValue(s, k, o, "dd"); PBT_CHECK(g, o == (absent ? "dd" : ""), "an empty value reads as %s", quote(o).c_str()); }
	}
	if (!absent && (v > 9 || v < 0 || uv > 9)) g.nontrivial();
}
static void addresses(G &g)
{
	std::vector<std::pair<std::string, unsigned short> > want; std::string txt; char b[64];
	size_t n = 1 + (g.chance(1, 20) ? g.edge(1030) : g.size(6)); g.labelIf(n > 15, "over 15 addresses");
	for (size_t i = 0; i < n; ++i)
	{
		int oct[4]; for (int &o : oct) o = g.b() ? g.u(10) : g.u(256);
		snprintf(b, sizeof b, "%d.%d.%d.%d", oct[0], oct[1], oct[2], oct[3]);
		unsigned short p = (unsigned short)(g.b() ? 1 + g.u(9) : 1 + g.u(65535));
		want.push_back(std::make_pair(std::string(b), p));
		snprintf(b, sizeof b, ":%d", p); if (i) txt += "|"; txt += want.back().first + b;
	}
	bool absent = g.chance(1, 6); g.note("%s%s", txt.c_str(), absent ? " (asked under another name)" : "");
	MemFile f("[s]\nk = " + txt + "\n"); lce::CConfig c;
	PBT_CHECK(g, c.loadConfig(f.path), "loading fails");
	std::vector<std::pair<std::string, unsigned short> > got; got.push_back(std::make_pair(std::string("old"), (unsigned short)1));
	bool r = c.getIPAndPortList("s", absent ? "z" : "k", got, "9.9.9.9", 99);
	if (absent) { want.clear(); want.push_back(std::make_pair(std::string("9.9.9.9"), (unsigned short)99)); }
	PBT_CHECK(g, r == !absent && got == want, "the list %s reads as %zu entries, first %s:%d (result %d)", txt.c_str(), got.size(), got.empty() ? "" : got[0].first.c_str(), got.empty() ? 0 : got[0].second, r);
	if (n == 1)
	{
		std::string ip = "old"; unsigned short p = 3;
		r = c.getIPAndPort("s", absent ? "z" : "k", ip, p, "9.9.9.9", 99);
		PBT_CHECK(g, r == !absent && ip == want[0].first && p == want[0].second, "the address %s reads as %s:%d (result %d)", txt.c_str(), ip.c_str(), p, r);
	}
	if (!absent) g.nontrivial();
}
static void bytes(G &g)
{
	std::string t;
	switch (g.u(3)) { case 0: t = g.bytes(g.size(80)); break; case 1: t = g.text(g.size(80), " \t\r\n[]=#;ab"); break; default: t = g.blob(g.size(3000)); }
	if (g.b()) for (size_t i = 0, n = g.size(20); i < n && !t.empty(); ++i) t[g.u(t.size())] = " \t\r\n[]=#;\0"[g.u(10)];
	// what follows a newline is unaffected by whatever came before
	t += "\n \t[ last ]\n\tkey one = v=1 \n";
	g.note("%s", quote(t, 800).c_str());
	MemFile f(t); lce::CConfig c; PBT_CHECK(g, c.loadConfig(f.path), "loading fails");
	std::string v; c.getValue("last", "key one", v); PBT_CHECK(g, v == "v=1", "[last] key one is %s after %s", quote(v).c_str(), quote(t, 100).c_str());
	std::vector<std::pair<std::string, unsigned short> > l; std::string ip; unsigned short p; int i; bool bb;
	for (auto s : {"", "a", "b", "last"}) for (auto k : {"", "a", "b", "ab", "[a"}) { c.getValue(s, k, v); c.getValue(s, k, i); c.getValue(s, k, bb); c.getIPAndPort(s, k, ip, p, "d", 1); c.getIPAndPortList(s, k, l, "d", 1); }
	if (t.size() > 40) g.nontrivial();
}
static void missing(G &g)
{
	lce::CConfig c; std::string p = "/proc/self/fd/" + std::to_string(5000 + g.u(1000)); PBT_CHECK(g, !c.loadConfig(p), "loading a file that does not exist succeeds");
	int v; PBT_CHECK(g, c.getValue("a", "b", v, 7) == 7, "default"); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"lines", lines, 12000, 300000, "files of sections, keys, comments, blanks and malformed lines with random spacing; non-trivial: a section, three keys and an indented key", 10000, 0},
		{"typed", typed, 30000, 500000, "numbers across the range of every getter type; non-trivial: present and more than one digit", 10000, 0},
		{"addresses", addresses, 20000, 300000, "ip:port lists; non-trivial: present", 10000, 0},
		{"bytes", bytes, 20000, 400000, "arbitrary bytes before a well-formed tail; non-trivial: over 40 bytes", 10000, 0},
		{"missing", missing, 50, 500, "paths that do not exist", 10000, 0}};
	return pbtMain(argc, argv, "C21", s);
}
