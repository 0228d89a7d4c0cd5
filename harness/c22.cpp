// SCALE: 2
// REPO_SRC: src/CFileLog.cpp src/CThread.cpp src/Utils.cpp
// C22: the rotating file log loses nothing but the oldest lines.
#include "pbt.h"
#include <memory>
#include <pthread.h>
#include "CFileLog.h"
using namespace pbt;

// virtual clock: the log asks time() for its stamps and its day
static time_t g_now = 1700000000;
#define FAKE_NOW g_now
#include "fakeclock.h"
static std::string fmtTime(const char *f) { struct tm m; gmtime_r(&g_now, &m); char b[64]; strftime(b, sizeof b, f, &m); return b; }

struct Day { std::vector<std::string> lines; };
static std::string readAll(const std::string &p) { return slurp(p, 1 << 26); }

// files of one day, oldest first, must be the tail of what was logged that day
static void checkDay(G &g, const std::string &base, const std::string &day, const std::vector<std::string> &lines, unsigned long maxSize, unsigned num, bool extraAllowed)
{
	std::string all; std::vector<std::string> parts; (void)extraAllowed;
	for (unsigned i = num + 3; i-- > 0;)
	{
		char b[32]; snprintf(b, sizeof b, "_%u", i);
		std::string p = base + "_" + day + (i ? b : "") + ".log";
		struct stat st; if (lstat(p.c_str(), &st) != 0) continue;
		PBT_CHECK(g, i < num, "%s exists though at most %u files are kept", p.substr(base.size()).c_str(), num);
		parts.push_back(readAll(p)); all += parts.back();
	}
	if (lines.empty()) { PBT_CHECK(g, all.empty(), "day %s has content %s though nothing was logged", day.c_str(), quote(all).c_str()); return; }
	PBT_CHECK(g, parts.size() >= 1 && parts.size() <= num, "%zu files on day %s, limit %u", parts.size(), day.c_str(), num);
	// walk backwards over whole lines
	size_t left = all.size(), k = lines.size();
	while (left > 0 && k > 0)
	{
		const std::string &l = lines[k - 1];
		PBT_CHECK(g, left >= l.size() && all.compare(left - l.size(), l.size(), l) == 0, "the files of %s end in %s where line %zu of %zu is %s", day.c_str(), quote(all.substr(left > 120 ? left - 120 : 0, std::min<size_t>(left, 120))).c_str(), k, lines.size(), quote(l, 100).c_str());
		left -= l.size(); --k;
	}
	PBT_CHECK(g, left == 0, "the files of %s hold %zu bytes more than was logged", day.c_str(), left);
	PBT_CHECK(g, k < lines.size(), "the newest line of %s is in no file", day.c_str());
	if (k > 0) // something was dropped: only because every other file was full
	{
		PBT_CHECK(g, parts.size() == num, "%zu lines were dropped with only %zu of %u files in use", k, parts.size(), num);
		for (size_t i = 0; i + 1 < parts.size(); ++i) PBT_CHECK(g, parts[i].size() >= maxSize, "a rotated file holds %zu bytes, less than the limit %lu, while older lines were dropped", parts[i].size(), maxSize);
	}
	// size limit: exceeded by at most the last line
	size_t at = k;
	for (size_t i = 0; i < parts.size(); ++i)
	{
		size_t sz = 0, last = 0; while (sz < parts[i].size()) { PBT_CHECK(g, at < lines.size(), "file boundary"); last = lines[at].size(); sz += last; ++at; }
		PBT_CHECK(g, sz == parts[i].size(), "a file boundary splits a line");
		PBT_CHECK(g, sz == 0 || sz - last < maxSize || maxSize == 0, "a file holds %zu bytes of which the last line has %zu: the limit %lu was passed earlier", sz, last, maxSize);
	}
}

static void history(G &g)
{
	setenv("TZ", "UTC", 1); tzset();
	std::string base = scratch() + "/app"; std::map<std::string, std::vector<std::string> > want;
	g_now = 1700000000 + g.u(86400);
	unsigned long maxSize = g.b() ? 1 + g.u(200) : g.pick<unsigned long>({1, 30, 60, 100, 1000}); unsigned num = g.chance(1, 3) ? 1 + g.u(2) : 1 + g.u(6); bool big = g.chance(1, 12); if (big) { maxSize = g.pick<unsigned long>({1ul << 31, (1ul << 31) + 40, 1ul << 32, (1ul << 32) + 20, 1ul << 40, 1ul << 63, ~0ul}); g.label("limit of 2 GB and more"); }
	g.note("limit %lu bytes, %u files", maxSize, num);
	std::unique_ptr<lce::CFileLog> log(new lce::CFileLog); log->init(base, maxSize, num, false);
	bool wasFull = false; int reopen = 0, total = 0, days = 0;
	size_t n = 1 + g.size(60);
	for (size_t i = 0; i < n; ++i)
	{
		if (g.chance(1, 4)) g_now += g.pick<int>({0, 1, 59, 3600, 7200});
		if (g.chance(1, 25)) { g_now += 86400; ++days; g.note("next day"); }
		if (g.chance(1, 20)) { g.note("reopen"); ++reopen; log.reset(new lce::CFileLog); log->init(base, maxSize, num, false); }
		std::string body;
		switch (g.u(5)) { case 0: body = ""; break; case 1: body = g.blob(g.size(big ? 300 : maxSize * 2 + 10)); for (auto &c : body) if (c == 0) c = 'z'; break; case 2: body = "line\nbreak\r"; break; default: body = g.text(g.size(40), "abc %s\\n\t"); }
		if (g.chance(1, 30)) { body = g.fill(g.edge(g.b() ? 10000 : 70000), "abc %"); if (g.chance(1, 3)) body = g.fill(10239 - g.u(12), "xyz"); g.labelIf(body.size() > 4000, "line over 4000 bytes"); }
		char id[16]; snprintf(id, sizeof id, "#%zu:", i); body = id + body;
		std::string day = fmtTime("%Y-%m-%d"), stamp = fmtTime("[%Y-%m-%d %H:%M:%S]"), line; bool r = true; int form = g.u(5); if (form == 2) body.resize(std::min<size_t>(body.size(), 10239)); // what the formatted form holds
		switch (form)
		{
		case 0: r = log->write(std::string(body)); line = stamp + body + "\n"; break;
		case 1: r = log->writeRaw(body); line = body + "\n"; break;
		case 2: r = log->write("%s", body.c_str()); line = stamp + ":" + body.substr(0, 10239) + "\n"; break;
		case 3: *log << body << std::endl; line = stamp + ":" + body + "\n"; break;
		default: { r = log->write("%d-%s-%5.2f", (int)i, "x", 1.5); char b[64]; snprintf(b, sizeof b, "%d-x- 1.50", (int)i); line = stamp + ":" + b + "\n"; }
		}
		g.note("%d %s", form, quote(body, 60).c_str());
		PBT_CHECK(g, r, "writing fails: %s", log->getErrMsg());
		want[day].push_back(line); ++total;
		if (g.chance(1, 4) || i + 1 == n) for (auto &d : want) checkDay(g, base, d.first, d.second, maxSize, num, false);
	}
	size_t bytes = 0; for (auto &d : want) { size_t b = 0; for (auto &l : d.second) b += l.size(); if (!big && b > maxSize * num + maxSize) wasFull = true; bytes += b; }
	g.labelIf(wasFull, "oldest lines dropped"); g.labelIf(reopen, "reopened"); g.labelIf(days, "day change"); g.labelIf(num == 1, "one file"); g.labelIf(num == 2, "two files");
	if ((big || bytes > maxSize) && total > 4) g.nontrivial();
}
// the directory is not there, or the disk is full, for a while
static void faults(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_now = 1700000000;
	std::string top = scratch(), dir = top + "/d", base = dir + "/app", day = fmtTime("%Y-%m-%d"), file = base + "_" + day + ".log";
	lce::CFileLog log; log.init(base, 50 + g.u(300), 3, false); std::vector<std::string> kept;
	int kind = g.u(2); bool bad = true; // 0: directory missing, 1: no space (the file is a link to /dev/full)
	if (kind == 1) { mkdir(dir.c_str(), 0700); if (symlink("/dev/full", file.c_str())) return; }
	size_t nb = 1 + g.size(6), ng = 1 + g.size(10), lost = 0; g.note("%s for %zu lines, then %zu good ones", kind ? "no space" : "no directory", nb, ng);
	for (size_t i = 0; i < nb + ng; ++i)
	{
		if (i == nb) { bad = false; if (kind == 0) mkdir(dir.c_str(), 0700); else unlink(file.c_str()); }
		char b[64]; snprintf(b, sizeof b, "line %zu", i); bool r = g.b() ? log.writeRaw(b) : (log.writeRaw(std::string(b)));
		if (bad) { PBT_CHECK(g, !r, "a line that could not be written is reported as written"); ++lost; }
		else { if (r) kept.push_back(std::string(b) + "\n"); PBT_CHECK(g, r || i == nb, "line %zu is refused after the fault is gone: %s", i, log.getErrMsg()); }
	}
	std::string want, got = readAll(base + "_" + day + "_2.log") + readAll(base + "_" + day + "_1.log") + readAll(file); for (auto &k : kept) want += k;
	PBT_CHECK(g, got == want, "the lines reported as written are not what the file holds: %s instead of %s", quote(got).c_str(), quote(want).c_str());
	if (nb > 1 && ng > 1) g.nontrivial();
}
struct Th { lce::CFileLog *log; int id, n; size_t pad; };
static void *writer(void *p)
{
	Th *t = (Th *)p;
	for (int i = 0; i < t->n; ++i) { char b[64]; snprintf(b, sizeof b, "T%d.%d:", t->id, i); if (i % 3) t->log->writeRaw(b + std::string((size_t)(i * 7 + t->id) % (t->pad + 1), 'p')); else t->log->write("%s", (b + std::string((size_t)(i * 7 + t->id) % (t->pad + 1), 'p')).c_str()); }
	return NULL;
}
static void threads(G &g)
{
	setenv("TZ", "UTC", 1); tzset(); g_now = 1700000000;
	std::string base = scratch() + "/app", day = fmtTime("%Y-%m-%d"), stamp = fmtTime("[%Y-%m-%d %H:%M:%S]:");
	unsigned long maxSize = 200 + g.u(3000); int n = 2 + g.u(5), per = 5 + g.u(60); size_t pad = g.u(60);
	lce::CFileLog log; log.init(base, maxSize, 1000, false); std::vector<Th> ts(n); std::vector<pthread_t> id(n);
	g.note("%d threads of %d lines, limit %lu", n, per, maxSize);
	for (int i = 0; i < n; ++i) { ts[i].log = &log; ts[i].id = i; ts[i].n = per; ts[i].pad = pad; pthread_create(&id[i], NULL, writer, &ts[i]); }
	for (int i = 0; i < n; ++i) pthread_join(id[i], NULL);
	std::string all; int files = 0;
	for (int i = 999; i >= 0; --i) { char b[32]; snprintf(b, sizeof b, i ? "_%d" : "", i); std::string p = base + "_" + day + b + ".log"; struct stat st; if (stat(p.c_str(), &st) == 0) { ++files; all += readAll(p); } }
	std::vector<int> next(n, 0); size_t p = 0; int total = 0;
	while (p < all.size())
	{
		size_t q = all.find('\n', p); PBT_CHECK(g, q != std::string::npos, "an unfinished line at the end");
		std::string l = all.substr(p, q - p); p = q + 1; if (l.compare(0, stamp.size(), stamp) == 0) l.erase(0, stamp.size());
		int a = -1, b = -1, c = 0; PBT_CHECK(g, sscanf(l.c_str(), "T%d.%d:%n", &a, &b, &c) == 2 && c > 0 && a >= 0 && a < n, "a torn line %s", quote(l).c_str());
		PBT_CHECK(g, b == next[a], "thread %d: line %d where %d is due", a, b, next[a]); ++next[a]; ++total;
		PBT_CHECK(g, l.substr(c) == std::string((size_t)(b * 7 + a) % (pad + 1), 'p'), "a damaged line %s", quote(l).c_str());
	}
	PBT_CHECK(g, total == n * per, "%d of %d lines are in the files", total, n * per);
	if (files > 2) g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s = {
		{"history", history, 4000, 60000, "sequences of lines in every form, clock movement, day changes and reopenings; non-trivial: more than one file's worth and four lines", 20000, 0},
		{"faults", faults, 1500, 20000, "a missing directory or a full disk for a while; non-trivial: two lines before and after", 10000, 0},
		{"threads", threads, 200, 4000, "concurrent writers with rotation; non-trivial: over two files", 20000, F_RACY}};
	return pbtMain(argc, argv, "C22", s);
}
