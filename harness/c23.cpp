// REPO_SRC: src/CAsyncLog.cpp src/CLog.cpp src/CThread.cpp src/Utils.cpp
// C23: the asynchronous log writes every accepted line once, whole, in order.
#include "pbt.h"
#include <memory>
#include <atomic>
#include <pthread.h>
#include <signal.h>
#include <map>
#include <sys/resource.h>
#include "CLog.h"
using namespace pbt;

// virtual clock, and control over how long the background thread sleeps between two looks at the buffers
static std::atomic<time_t> g_now(1700000000);
// a flush looks at the clock: a writer gets in there
static __thread int t_meet = 0; static std::atomic<int> g_meet(0); // 1: the flush waits, 2: the writer is done
static time_t clockNow();
#define FAKE_NOW clockNow()
#include "fakeclock.h"
enum { HOLD, FAST, STEP };
static std::atomic<int> g_mode(FAST), g_asleep(0), g_wake(0);
static std::atomic<unsigned long> g_slept(0); // microseconds
static void realSleep(const struct timespec *ts, void *) { syscall(SYS_nanosleep, ts, NULL); }
static __thread bool t_mine = false; // a thread of the harness: it sleeps as it says
static int doze(unsigned long us)
{
	struct timespec ts = {0, 200000};
	if (t_mine) { ts.tv_sec = us / 1000000; ts.tv_nsec = us % 1000000 * 1000; realSleep(&ts, NULL); return 0; }
	if (g_mode == STEP) { ts.tv_nsec = 20000; ++g_asleep; while (g_mode == STEP && g_wake == 0) realSleep(&ts, NULL); if (g_wake > 0) --g_wake; g_slept += us; return 0; }
	do realSleep(&ts, NULL); while (g_mode == HOLD);
	return 0;
}
extern "C" int usleep(useconds_t us) { return doze(us); }
extern "C" int nanosleep(const struct timespec *t, struct timespec *) { return doze(t->tv_sec * 1000000ul + t->tv_nsec / 1000); }
extern "C" int clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *) { return doze(fl ? 100000 : t->tv_sec * 1000000ul + t->tv_nsec / 1000); }
static time_t clockNow() { if (t_meet > 0 && --t_meet == 0) { g_meet = 1; struct timespec ts = {0, 20000}; for (int i = 0; g_meet == 1 && i < 2000; ++i) realSleep(&ts, NULL); } return g_now; }
// one sleep of the background thread ends and what it does until the next one is over
static void tick(G &g) { struct timespec ts = {0, 20000}; int a = g_asleep; ++g_wake; for (int i = 0; g_asleep == a; ++i) { PBT_CHECK(g, i < 200000, "the background thread does not come back"); realSleep(&ts, NULL); } }
static std::string fmtTime(const char *f, time_t t) { struct tm m; gmtime_r(&t, &m); char b[64]; strftime(b, sizeof b, f, &m); return b; }
static std::string day() { return fmtTime("%Y-%m-%d", g_now); }
static std::string fileName(const std::string &base, unsigned i) { char b[32]; snprintf(b, sizeof b, "_%u", i); return base + "_" + day() + (i ? b : "") + ".log"; }
static std::string readLogs(G &g, const std::string &base, unsigned num, std::vector<std::string> *parts = NULL)
{
	std::string all;
	for (unsigned i = num + 3; i-- > 0;) { std::string p = fileName(base, i); struct stat st; if (stat(p.c_str(), &st)) continue; PBT_CHECK(g, i < num, "file %u exists, at most %u are kept", i, num); std::string c = slurp(p, 1 << 26); all += c; if (parts) parts->push_back(c); }
	return all;
}
// whatever is in the files is the tail of what was accepted, on a line boundary; all = nothing may be missing
static void checkTail(G &g, const std::string &all, const std::vector<std::string> &lines, bool complete)
{
	size_t left = all.size(), k = lines.size();
	while (left > 0 && k > 0)
	{
		const std::string &l = lines[k - 1];
		PBT_CHECK(g, left >= l.size() && all.compare(left - l.size(), l.size(), l) == 0, "the files end in %s where line %zu of %zu is %s", quote(all.substr(left > 150 ? left - 150 : 0, std::min<size_t>(left, 150))).c_str(), k, lines.size(), quote(l, 100).c_str());
		left -= l.size(); --k;
	}
	PBT_CHECK(g, left == 0, "the files hold %zu bytes that were not logged", left);
	if (complete) PBT_CHECK(g, k == 0, "the %zu oldest lines are missing", k);
}
static void history(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = HOLD; g_now = 1700000000;
	std::string base = scratch() + "/app"; size_t cap = g.pick<size_t>({16, 40, 64, 100, 256, 1000}) + g.u(8); if (g.chance(1, 10)) { cap = g.pick<size_t>({4096, 10240, 12000, 65536, 200000}) + g.u(8); g.label("buffers of 4096 bytes and more"); } bool small = g.chance(1, 3); unsigned num = small ? 1 + g.u(4) : 1000; unsigned long maxSize = small ? 1 + g.u(400) : 1 + g.u(2000); if (g.chance(1, 15)) { maxSize = g.pick<unsigned long>({1ul << 31, 1ul << 32, (1ul << 32) + 20, 1ul << 40, 1ul << 63}); g.label("limit of 2 GB and more"); }
	g.note("buffers of %zu bytes, file limit %lu, %u files", cap, maxSize, num);
	lce::CAsyncLog *log = new lce::CAsyncLog; PBT_CHECK(g, log->init(base, 1000000, maxSize, num, false, cap), "init fails");
	std::vector<std::string> acc; size_t outstanding = 0, refused = 0, exact = 0, spill = 0, n = 1 + g.size(60); bool dirty = false;
	// what is flushed goes into the files of the day of the flush: day -> (an instant of it, its lines)
	std::map<std::string, std::pair<time_t, std::vector<std::string>>> days; std::vector<std::string> pend; bool midnight = g.chance(1, 3);
	auto settle = [&] { if (!pend.empty()) { auto &d = days[day()]; d.first = g_now; d.second.insert(d.second.end(), pend.begin(), pend.end()); pend.clear(); } };
	auto otherDays = [&] { time_t now = g_now; std::string today = day(); for (auto &d : days) if (d.first != today) { g_now = d.second.first; checkTail(g, readLogs(g, base, num), d.second.second, !small); } g_now = now; };
	for (size_t i = 0; i <= n; ++i)
	{
		if (i == n || g.chance(1, 7))
		{
			g.note("flush"); log->flush(); outstanding = 0; settle();
			const std::vector<std::string> &mine = days[day()].second;
			std::vector<std::string> parts; std::string all = readLogs(g, base, num, &parts); size_t tot = 0; for (auto &a : mine) tot += a.size();
			checkTail(g, all, mine, !small); otherDays();
			PBT_CHECK(g, mine.empty() || !all.empty(), "nothing is in the files after a flush"); (void)tot;
			if (all.size() < tot) { PBT_CHECK(g, parts.size() == num, "lines were dropped with %zu of %u files in use", parts.size(), num); for (size_t k = 0; k + 1 < parts.size(); ++k) PBT_CHECK(g, parts[k].size() >= maxSize, "a rotated file holds %zu bytes, the limit is %lu", parts[k].size(), maxSize); dirty = true; }
			for (auto &p : parts) PBT_CHECK(g, p.size() < maxSize + cap || p.size() <= cap, "a file of %zu bytes with a limit of %lu and buffers of %zu", p.size(), maxSize, cap);
			continue;
		}
		if (g.chance(1, 6)) g_now = g_now + g.u(100);
		if (midnight && g.chance(1, 9)) { g_now = g.chance(1, 4) ? g_now - 86400 : (g_now / 86400 + 1) * 86400 - g.u(3); g.note("the clock says %s", fmtTime("%F %T", g_now).c_str()); }
		std::string body; size_t room = cap - outstanding % cap; int form = g.u(4); size_t head = form == 1 ? 0 : 21 + (form == 2);
		switch (g.u(6))
		{
		case 0: body = std::string(room >= head + g.u(3) ? room - head : 0, 'e'); ++exact; break; // ends at the end of a buffer
		case 1: body = room > head + 1 ? std::string(room - head - 1, 'f') : ""; ++exact; break;
		case 2: body = cap > 2000 ? g.fill(g.b() ? g.edge(cap) : 10239 - g.u(30), "abc %s") : g.text(g.size(cap), "abc %s"); break;
		case 3: body = cap > 2000 ? g.fill(g.size(cap + 10), "xy\n\xff") : g.text(g.size(cap + 10), "xy\n\xff"); break;
		default: body = g.text(g.size(8), "abc"); 
		}
		if (form == 3 && body.empty()) form = 1;
		if (form == 2) body.resize(std::min<size_t>(body.size(), 10239)); // what the formatted form holds
		std::string stamp = fmtTime("[%Y-%m-%d %H:%M:%S]", g_now), line; bool r;
		switch (form) { case 0: case 3: r = log->write(std::string(body)); line = stamp + body + "\n"; break; case 1: r = log->writeRaw(body); line = body + "\n"; break; default: r = log->write("%s", body.c_str()); line = stamp + ":" + body + "\n"; }
		g.note("form %d, %zu bytes: %s", form, line.size(), r ? "accepted" : "refused");
		if (r) { if (outstanding < cap && outstanding + line.size() > cap) ++spill; acc.push_back(line); pend.push_back(line); outstanding += line.size(); }
		else { ++refused; PBT_CHECK(g, outstanding + line.size() > cap, "a line of %zu bytes is refused with %zu of %zu bytes in use", line.size(), outstanding, cap); }
	}
	settle(); g_mode = FAST; delete log;
	checkTail(g, readLogs(g, base, num), days[day()].second, !small); otherDays();
	g.labelIf(days.size() > 1, "several days"); g.labelIf(refused, "refused lines"); g.labelIf(spill, "second buffer used"); g.labelIf(dirty, "oldest dropped"); g.labelIf(exact, "line fits the buffer exactly"); g.labelIf(num == 1, "one file");
	if (acc.size() > 3 && spill) g.nontrivial();
}
// nobody flushes: pending lines are in the files when the interval is over, and at once when a buffer is full
static void cadence(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = STEP; g_now = 1700000000; g_asleep = 0; g_wake = 0; g_slept = 0;
	std::string base = scratch() + "/app"; size_t cap = 100 + g.u(400); int secs = g.chance(1, 4) ? g.pick({7, 9, 10, 11, 30, 60, 300, 3600, 86400}) : (int)g.u(6);
	lce::CAsyncLog *log = new lce::CAsyncLog; PBT_CHECK(g, log->init(base, secs, 1 << 24, 5, false, cap), "init fails");
	struct timespec ts = {0, 20000}; while (g_asleep == 0) realSleep(&ts, NULL);
	g.note("interval %d s, buffers of %zu bytes", secs, cap);
	std::vector<std::string> acc; std::vector<unsigned long> due; size_t used = 0, n = 3 + g.size(120), fulls = 0, timed = 0;
	for (size_t i = 0; i < n; ++i)
	{
		if (g.b())
		{
			std::string b = "line " + std::to_string(i) + " " + std::string(g.u(g.chance(1, 4) ? cap : 40), 'x'); bool r = log->writeRaw(b);
			if (r) { acc.push_back(b + "\n"); due.push_back(g_slept + (secs + 1ul) * 1000000ul); used += b.size() + 1; }
			if (used > cap || !r) { ++fulls; for (auto &d : due) d = std::min<unsigned long>(d, g_slept + 300000); } // the buffer that is written to is full
			continue;
		}
		unsigned k = g.chance(1, 4) ? g.u(std::min(12 * (secs + 1), 150)) : 1 + g.u(3);
		for (unsigned j = 0; j < k; ++j)
		{
			tick(g); std::string all = readLogs(g, base, 5); size_t tot = 0, in = 0; while (in < acc.size() && tot + acc[in].size() <= all.size()) tot += acc[in++].size();
			PBT_CHECK(g, tot == all.size(), "the file ends inside a line");
			used = 0; for (size_t x = in; x < acc.size(); ++x) used += acc[x].size();
			for (size_t x = in; x < acc.size(); ++x) PBT_CHECK(g, due[x] >= g_slept, "line %zu of %zu is not in the file %lu ms after it had to be there (interval %d s, %zu bytes pending)", x + 1, acc.size(), (g_slept - due[x]) / 1000, secs, used);
			if (in) ++timed;
		}
	}
	g_mode = FAST; delete log; checkTail(g, readLogs(g, base, 5), acc, true);
	g.labelIf(fulls, "a buffer fills up"); g.labelIf(timed, "written by the interval"); if (timed && acc.size() > 3) g.nontrivial();
}
// destroying the log writes what it has accepted; an object that was never started is harmless
static void life(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = FAST; g_now = 1700000000;
	std::string base = scratch() + "/app"; int kind = g.u(3);
	if (kind == 0)
	{
		char mem[sizeof(lce::CAsyncLog) + 64] __attribute__((aligned(64))); memset(mem, (int)g.u(256), sizeof mem);
		lce::CAsyncLog *l = new (mem) lce::CAsyncLog; g.note("never started");
		if (g.b()) PBT_CHECK(g, !l->writeRaw("x"), "a log that was not started accepts a line");
		if (g.b()) l->flush();
		l->~CAsyncLog(); g.nontrivial(); return;
	}
	std::unique_ptr<lce::CAsyncLog> log(new lce::CAsyncLog); log->init(base, 1000000, 1 << 20, 5, false, 4096);
	std::vector<std::string> acc; size_t n = g.size(40);
	for (size_t i = 0; i < n; ++i) { std::string b = "line " + std::to_string(i) + g.text(g.size(60), "ab"); if (log->writeRaw(b)) acc.push_back(b + "\n"); }
	g.note("%zu lines then destroyed", n); if (g.chance(1, 3)) realSleep((const struct timespec[]){{0, (long)g.u(1000000)}}, NULL);
	log.reset(); checkTail(g, readLogs(g, base, 5), acc, true); if (n > 2) g.nontrivial();
}
struct Th { lce::CAsyncLog *log; int id, n; size_t pad; unsigned gap; std::vector<char> ok; };
static std::string padOf(int a, int b, size_t pad) { return std::string((size_t)(b * 7 + a * 3) % (pad + 1), (char)('a' + b % 26)); }
static void *writer(void *p)
{
	Th *t = (Th *)p;
	for (int i = 0; i < t->n; ++i)
	{
		char b[64]; snprintf(b, sizeof b, "T%d.%d:", t->id, i); std::string l = b + padOf(t->id, i, t->pad) + ";";
		bool r = i % 3 == 0 ? t->log->write("%s", l.c_str()) : i % 3 == 1 ? t->log->writeRaw(l) : t->log->write(l); t->ok.push_back(r);
		if (t->gap && i % t->gap == 0) { struct timespec ts = {0, 100000}; realSleep(&ts, NULL); }
	}
	return NULL;
}
static void threads(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = g.chance(1, 4) ? HOLD : FAST; g_now = 1700000000;
	std::string base = scratch() + "/app"; int n = 1 + g.u(5), per = 5 + g.u(150); size_t pad = g.u(60), cap = 120 + g.u(3000); unsigned long maxSize = 500 + g.u(4000);
	lce::CAsyncLog *log = new lce::CAsyncLog; log->init(base, g.u(2), maxSize, 4000, false, cap); std::vector<Th> ts(n); std::vector<pthread_t> id(n); unsigned gap = g.u(6); int fl = g.u(30);
	g.note("%d threads of %d lines, buffers %zu, limit %lu, %d flushes by the caller", n, per, cap, maxSize, fl);
	for (int i = 0; i < n; ++i) { ts[i].log = log; ts[i].id = i; ts[i].n = per; ts[i].pad = pad; ts[i].gap = gap; pthread_create(&id[i], NULL, writer, &ts[i]); }
	for (int i = 0; i < fl; ++i) { log->flush(); struct timespec t = {0, (long)g.u(80000)}; realSleep(&t, NULL); }
	for (int i = 0; i < n; ++i) pthread_join(id[i], NULL);
	log->flush(); std::string all = readLogs(g, base, 4000);
	std::vector<int> next(n, 0); size_t p = 0; int total = 0, accd = 0; std::string s1 = fmtTime("[%Y-%m-%d %H:%M:%S]", g_now);
	while (p < all.size())
	{
		size_t q = all.find('\n', p); PBT_CHECK(g, q != std::string::npos, "an unfinished line at the end");
		std::string l = all.substr(p, q - p), w = l; p = q + 1; if (l.compare(0, s1.size(), s1) == 0) { l.erase(0, s1.size()); if (!l.empty() && l[0] == ':') l.erase(0, 1); }
		int a = -1, b = -1, c = 0; PBT_CHECK(g, sscanf(l.c_str(), "T%d.%d:%n", &a, &b, &c) == 2 && c > 0 && a >= 0 && a < n && b >= 0 && b < per, "a torn line %s", quote(w).c_str());
		while (next[a] < per && !ts[a].ok[next[a]]) ++next[a];
		PBT_CHECK(g, b == next[a], "thread %d: line %d where %d is due", a, b, next[a]); ++next[a]; ++total;
		PBT_CHECK(g, l.substr(c) == padOf(a, b, pad) + ";", "a damaged line %s", quote(w).c_str());
	}
	for (int i = 0; i < n; ++i) for (char o : ts[i].ok) accd += o;
	PBT_CHECK(g, total == accd, "%d lines are in the files, %d were accepted", total, accd);
	g_mode = FAST; delete log;
	g.labelIf(accd < n * per, "refused lines"); if (n > 1 && accd > 20) g.nontrivial();
}
// time stamps taken while other threads take theirs
static std::atomic<bool> g_stop(false);
static int g_lines;
static void *stamper(void *p) { lce::CAsyncLog *l = (lce::CAsyncLog *)p; for (int i = 0; i < g_lines; ++i) l->write("x"); return NULL; }
static void *ticker(void *) { unsigned i = 0; while (!g_stop) { g_now = ++i & 1 ? 1699999999 - 86400 * 40 : 1735689599; } return NULL; }
static void stamps(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = HOLD; g_now = 1735689599; g_stop = false; std::string base = scratch() + "/app";
	lce::CAsyncLog *log = new lce::CAsyncLog; log->init(base, 1000000, 1 << 24, 5, false, 1 << 21); int n = 2 + g.u(3); g_lines = 1500 + g.u(3000); std::vector<pthread_t> id(n + 1);
	pthread_create(&id[n], NULL, ticker, NULL); for (int i = 0; i < n; ++i) pthread_create(&id[i], NULL, stamper, log); for (int i = 0; i < n; ++i) pthread_join(id[i], NULL); g_stop = true; pthread_join(id[n], NULL);
	g_now = 1735689599; log->flush(); std::string all = readLogs(g, base, 5), a = fmtTime("[%Y-%m-%d %H:%M:%S]:x", 1735689599), b = fmtTime("[%Y-%m-%d %H:%M:%S]:x", 1699999999 - 86400 * 40);
	size_t p = 0, na = 0, nb = 0; while (p < all.size()) { size_t q = all.find('\n', p); std::string l = all.substr(p, q - p); p = q + 1; PBT_CHECK(g, l == a || l == b, "the line %s carries a time that never was (%s or %s)", l.c_str(), a.c_str(), b.c_str()); (l == a ? na : nb)++; }
	PBT_CHECK(g, na + nb == (size_t)n * g_lines, "%zu lines of %d", na + nb, n * g_lines);
	g_mode = FAST; delete log; if (na && nb) g.nontrivial();
}
// the CLog front end
static void front(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = HOLD; using lce::CLog; std::string base = scratch() + "/app"; bool showLine = g.b(); unsigned mask = g.pick<unsigned>({15, 15, 1, 2, 4});
	lce::CLog::log(CLog::LEVEL_INFO, "f", 1, "before the log is set up"); lce::CLog::flush();
	PBT_CHECK(g, CLog::init(base, 1000000, 1 << 16, 1 << 20, 5, false, mask, showLine), "init fails"); std::vector<std::string> want; size_t n = 1 + g.size(30);
	for (size_t i = 0; i < n; ++i)
	{
		int lv = g.u(4); if (mask != 15 && lv == CLog::LEVEL_WARN - 1) lv = 0;
		std::string msg = g.text(g.chance(1, 10) ? g.u(4200) : g.size(60), "ab %d%s"); static const char *N[] = {"DEBUG", "INFO", "WARN", "ERROR"}; long line = (long)g.u(100000);
		CLog::log((uint8_t)(lv + 1), "dir/f.cpp", line, "%s", msg.c_str());
		if (((lv + 1) & mask) != (unsigned)(lv + 1)) continue;
		std::string l = fmtTime("[%Y-%m-%d %H:%M:%S]:[", g_now) + N[lv] + "]"; if (showLine) l += "[file:dir/f.cpp][line:" + std::to_string(line) + "]"; want.push_back(l + " " + msg.substr(0, 3999) + "\n");
	}
	g.note("mask %u, %zu messages", mask, n); CLog::flush(); checkTail(g, readLogs(g, base, 5), want, true); g_mode = FAST; if (want.size() > 1) g.nontrivial();
}
// the directory is not there, the disk is full, a file may not grow or no descriptor is left for a while: what was accepted is written when that is over
static void faults(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_mode = HOLD; g_now = 1700000000; signal(SIGXFSZ, SIG_IGN);
	std::string dir = scratch() + "/d", base = dir + "/app"; int kind = g.u(4); size_t cap = 60 + g.u(400); unsigned long maxSize = kind == 3 ? 1 + g.u(300) : 1 << 20; static const char *N[] = {"no directory", "no space", "file size limit", "no descriptors"};
	if (kind) mkdir(dir.c_str(), 0700);
	lce::CAsyncLog *log = new lce::CAsyncLog; PBT_CHECK(g, log->init(base, 1000000, maxSize, 1000, false, cap), "init fails");
	struct rlimit fs, nf; getrlimit(RLIMIT_FSIZE, &fs); getrlimit(RLIMIT_NOFILE, &nf);
	std::vector<std::string> acc; bool bad = false; int faulty = 0, pending = 0, ends = 0; size_t n = 2 + g.size(40), size = 0; bool ever = false;
	auto end = [&] { if (!bad) return; bad = false; ++ends; if (kind == 0) mkdir(dir.c_str(), 0700); else if (kind == 1) unlink(fileName(base, 0).c_str()); else if (kind == 2) setrlimit(RLIMIT_FSIZE, &fs); else setrlimit(RLIMIT_NOFILE, &nf); };
	auto begin = [&] {
		if (bad) return;
		if (kind == 0) { if (ever) return; bad = true; }
		else if (kind == 1) { if (ever || symlink("/dev/full", fileName(base, 0).c_str())) return; bad = true; }
		else if (kind == 2) { struct stat st; struct rlimit l = fs; l.rlim_cur = (stat(fileName(base, 0).c_str(), &st) ? 0 : st.st_size) + g.u(40); setrlimit(RLIMIT_FSIZE, &l); bad = true; }
		else { struct rlimit l = nf; l.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &l); bad = true; }
		ever = true;
	};
	if (kind < 2 || g.b()) begin();
	for (size_t i = 0; i < n; ++i)
	{
		if (g.chance(1, 8)) begin();
		if (bad && g.chance(1, 8)) end();
		if (g.chance(1, 5)) {
			bool was = bad; std::vector<std::string> mid; for (size_t j = 0, m = g.b() ? 1 + g.u(4) : 0; j < m; ++j) mid.push_back("mid " + std::to_string(i) + "." + std::to_string(j) + std::string(g.u(30), 'm')); std::vector<char> ok(mid.size()); pthread_t th; struct Mid { lce::CAsyncLog *l; std::vector<std::string> *m; std::vector<char> *ok; } a = {log, &mid, &ok};
			if (!mid.empty()) { g_meet = 0; pthread_create(&th, NULL, [](void *p) -> void * { Mid *a = (Mid *)p; t_mine = true; struct timespec ts = {0, 20000}; while (g_meet == 0) realSleep(&ts, NULL); for (size_t j = 0; j < a->m->size(); ++j) (*a->ok)[j] = a->l->writeRaw((*a->m)[j]); g_meet = 2; return NULL; }, &a); t_meet = 1 + g.u(2); }
			log->flush();
			if (!mid.empty())
			{
				t_meet = 0; if (g_meet == 0) g_meet = 1; pthread_join(th, NULL); size_t got = 0; std::vector<std::string> both = acc; for (size_t j = 0; j < mid.size(); ++j) if (ok[j]) { both.push_back(mid[j] + "\n"); ++got; } g.note("flush, %s, %zu lines during it", bad ? N[kind] : "fine", got); g.labelIf(got && was, "lines during a flush that fails"); g.labelIf(got && !was, "lines during a flush");
				if (was) { ++faulty; if (size) ++pending; } else { std::string all = readLogs(g, base, 1000), want, whole; for (auto &l : acc) want += l; for (auto &l : both) whole += l; PBT_CHECK(g, all.size() >= want.size() && all == whole.substr(0, all.size()), "after a flush the files hold %s", quote(all.size() > 200 ? all.substr(all.size() - 200) : all).c_str()); size = 0; }
				for (size_t j = acc.size(); j < both.size(); ++j) size += both[j].size(); acc = both; continue;
			}
			g.note("flush, %s", bad ? N[kind] : "fine"); if (was) { ++faulty; if (size) ++pending; } else { size = 0; checkTail(g, readLogs(g, base, 1000), acc, true); } continue;
		}
		std::string b = "line " + std::to_string(i) + " " + std::string(g.u(30), (char)('a' + g.u(26))); bool r; if (g.b()) r = log->writeRaw(b); else { r = log->write("%s", b.c_str()); b = fmtTime("[%Y-%m-%d %H:%M:%S]:", g_now) + b; }
		if (r) { acc.push_back(b + "\n"); size += b.size(); }
	}
	end(); log->flush(); std::string all = readLogs(g, base, 1000);
	g_mode = FAST; delete log; checkTail(g, readLogs(g, base, 1000), acc, true); checkTail(g, all, acc, true);
	g.label(N[kind]); g.labelIf(pending, "a flush fails with lines pending"); g.labelIf(ends > 1, "more than once"); if (pending && ends && acc.size() > 3) g.nontrivial();
}
int main(int argc, char **argv)
{
	t_mine = true;
	std::vector<Suite> s = {
		{"history", history, 2500, 40000, "lines (many ending exactly at a buffer's end) and flushes with the background thread held; non-trivial: four lines and the second buffer used", 20000, 0},
		{"faults", faults, 800, 12000, "the directory missing, no space, a file size limit or no descriptors for a while; non-trivial: a flush fails with lines pending, later ones do not", 20000, F_ISOLATE},
		{"cadence", cadence, 600, 8000, "the background thread stepped sleep by sleep; non-trivial: four lines, some written by it", 30000, 0},
		{"life", life, 400, 5000, "logs destroyed with lines pending or never started; non-trivial: over two lines, or never started", 20000, 0},
		{"threads", threads, 300, 5000, "concurrent writers, caller flushes and background flushes; non-trivial: two writers and twenty lines", 30000, F_RACY},
		{"stamps", stamps, 40, 400, "writers while the clock jumps between two instants; non-trivial: both instants seen", 30000, F_RACY},
		{"front", front, 150, 3000, "CLog at every level and mask; non-trivial: two lines expected", 20000, F_ISOLATE}};
	return pbtMain(argc, argv, "C23", s);
}
