// Small property-based testing engine used by every check in /verif.
//
// * Every choice a case makes is drawn from a choice tape (class G).  The tape of the running
//   case lives in shared memory, so a crash, sanitizer abort, assertion or hang of the code under
//   test leaves the tape behind for the parent.
// * Cases run in forked worker processes; case i of a suite depends only on (VERIF_SEED,
//   property, suite, i), so a run is reproducible.
// * A failing tape is shrunk (truncate / delete / zero / minimise) by re-running it in fresh
//   children, and the shrunk tape plus the description of the case is the replay file.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <exception>
#include <initializer_list>

namespace pbt
{
enum { TAPE_MAX = 1 << 17, NOTE_MAX = 1 << 16, MSG_MAX = 8192, HASH_MAX = 1 << 19, LABEL_MAX = 160, SAMPLE_MAX = 3, SAMPLE_LEN = 1600 };

enum State { ST_IDLE = 0, ST_RUN = 1, ST_PASS = 2, ST_FAIL = 3, ST_DONE = 4 };

struct Label { char name[56]; uint64_t n; };

struct Slot
{
	volatile uint64_t caseIdx;
	volatile uint64_t startMs;
	volatile uint32_t state;
	volatile uint32_t ntape;
	volatile uint32_t noteLen;
	volatile uint64_t evals, nontrivial, discarded;
	volatile uint32_t nhash;
	volatile uint32_t nsamples;
	uint32_t nlabels;
	Label labels[LABEL_MAX];
	char msg[MSG_MAX];
	char note[NOTE_MAX];
	char samples[SAMPLE_MAX][SAMPLE_LEN];
	uint64_t tape[TAPE_MAX];
	uint64_t hashes[HASH_MAX];
};

// monotonic milliseconds straight from the kernel: harnesses interpose gettimeofday()/time().
inline uint64_t nowMs()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

inline uint64_t mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hashStr(const char *s, uint64_t h = 1469598103934665603ULL)
{
	for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
	return h;
}
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
};

inline std::string quote(const std::string &s, size_t max = 200)
{
	std::string r = "\"";
	char b[8];
	for (size_t i = 0; i < s.size() && i < max; ++i)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else if (c == '\n') r += "\\n";
		else if (c == '\r') r += "\\r";
		else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	r += "\"";
	if (s.size() > max) { char t[48]; snprintf(t, sizeof t, "...(%lu bytes)", (unsigned long)s.size()); r += t; }
	return r;
}

class G
{
public:
	G(Slot *s, uint64_t seed, bool replay, const std::vector<uint64_t> &in, bool thorough)
		: m_s(s), m_rng(seed), m_replay(replay), m_in(in), m_pos(0), m_hash(seed * 0), m_nontrivial(false), m_thorough(thorough)
	{
		m_s->ntape = 0; m_s->noteLen = 0; m_s->note[0] = 0; m_s->msg[0] = 0;
		m_hash = 14695981039346656037ULL;
	}
	// uniform in [0,n); n==0: any 64-bit value
	uint64_t u(uint64_t n)
	{
		uint64_t v;
		if (m_replay) { v = m_pos < m_in.size() ? m_in[m_pos] : 0; if (n) v %= n; }
		else { v = m_s->ntape >= TAPE_MAX ? 0 : m_rng.next(); if (n) v %= n; }
		++m_pos;
		if (m_s->ntape < TAPE_MAX) { m_s->tape[m_s->ntape] = v; m_s->ntape = m_s->ntape + 1; }
		m_hash = (m_hash ^ v) * 1099511628211ULL; m_hash ^= m_hash >> 29;
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo) + 1); }
	bool b() { return u(2) != 0; }
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return u(den) >= den - num; }
	template <class T> T pick(std::initializer_list<T> l) { const T *p = l.begin(); return p[u(l.size())]; }
	template <class T> const T &pick(const std::vector<T> &l) { return l[u(l.size())]; }
	// skewed size in [0,max]: mostly small
	size_t size(size_t max)
	{
		if (max == 0) return 0;
		switch (u(8))
		{
		case 0: case 1: case 2: return u(std::min<size_t>(max, 3) + 1);
		case 3: case 4: case 5: return u(std::min<size_t>(max, 12) + 1);
		case 6: return u(std::min<size_t>(max, 60) + 1);
		default: return u(max + 1);
		}
	}
	// interesting 64-bit integers
	uint64_t num64()
	{
		uint64_t k = u(8);
		if (k < 2) return u(10);
		if (k == 2) return u(0);
		if (k == 3) return (uint64_t)0 - u(300);
		if (k == 4) { uint64_t p = u(64); return ((uint64_t)1 << p) - 1 + u(3); }
		if (k == 5) { uint64_t p = u(64); return (uint64_t)0 - ((uint64_t)1 << p) - 1 + u(3); }
		if (k == 6) return u((uint64_t)1 << 32);
		return u(1000000);
	}
	// len bytes from few draws (payload blobs)
	std::string blob(size_t len)
	{
		std::string r(len, 0);
		Rng g(u((uint64_t)1 << 32) + 1);
		for (size_t i = 0; i < len; ++i) r[i] = (char)(g.next() >> 13);
		return r;
	}
	// len characters of alpha from few draws
	std::string fill(size_t len, const char *alpha)
	{
		std::string r(len, 0); size_t n = strlen(alpha);
		Rng g(u((uint64_t)1 << 32) + 1);
		for (size_t i = 0; i < len; ++i) r[i] = alpha[(g.next() >> 13) % n];
		return r;
	}
	// a length in [0,max] at or next to one that buffers, counters and limits are made of
	size_t edge(size_t max)
	{
		static const size_t E[] = {0, 10, 16, 20, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 10240, 16384, 32768, 65536, 100000, 131072, 1 << 18, 1 << 20, 1 << 21, 1 << 22, 1 << 24};
		size_t n = 0; while (n < sizeof E / sizeof *E && E[n] <= max) ++n;
		size_t v = E[u(n)], d = u(6); v = d < 3 ? v + d : v - std::min<size_t>(v, d - 2);
		return std::min(v, max);
	}
	std::string text(size_t len, const char *alpha)
	{
		std::string r; size_t n = strlen(alpha);
		for (size_t i = 0; i < len; ++i) r += alpha[u(n)];
		return r;
	}
	std::string bytes(size_t len)
	{
		std::string r;
		for (size_t i = 0; i < len; ++i) r += (char)u(256);
		return r;
	}
	template <class T> void shuffle(std::vector<T> &v)
	{
		for (size_t i = v.size(); i > 1; --i) { size_t j = i - 1 - u(i); std::swap(v[i - 1], v[j]); }
	}
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		va_list ap; va_start(ap, fmt);
		size_t room = NOTE_MAX - m_s->noteLen;
		if (room > 2)
		{
			int k = vsnprintf(m_s->note + m_s->noteLen, room - 1, fmt, ap);
			if (k > 0) { size_t kk = std::min<size_t>(k, room - 2); m_s->noteLen = m_s->noteLen + kk; m_s->note[m_s->noteLen] = '\n'; m_s->noteLen = m_s->noteLen + 1; m_s->note[m_s->noteLen] = 0; }
		}
		va_end(ap);
	}
	void label(const char *name)
	{
		for (uint32_t i = 0; i < m_s->nlabels; ++i)
			if (strncmp(m_s->labels[i].name, name, sizeof(m_s->labels[i].name) - 1) == 0) { ++m_s->labels[i].n; return; }
		if (m_s->nlabels < LABEL_MAX)
		{
			strncpy(m_s->labels[m_s->nlabels].name, name, sizeof(m_s->labels[0].name) - 1);
			m_s->labels[m_s->nlabels].n = 1;
			++m_s->nlabels;
		}
	}
	void labelIf(bool c, const char *name) { if (c) label(name); }
	void nontrivial() { m_nontrivial = true; }
	bool isNontrivial() const { return m_nontrivial; }
	bool thorough() const { return m_thorough; }
	uint64_t hash() const { return m_hash; }
	void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn))
	{
		va_list ap; va_start(ap, fmt);
		vsnprintf(m_s->msg, MSG_MAX, fmt, ap);
		va_end(ap);
		m_s->state = ST_FAIL;
		_exit(77);
	}

private:
	Slot *m_s;
	Rng m_rng;
	bool m_replay;
	const std::vector<uint64_t> &m_in;
	size_t m_pos;
	uint64_t m_hash;
	bool m_nontrivial;
	bool m_thorough;
};

#define PBT_CHECK(g, cond, ...) do { if (!(cond)) { (g).note("failed condition: %s (%s:%d)", #cond, __FILE__, __LINE__); (g).fail(__VA_ARGS__); } } while (0)

enum SuiteFlags { F_NONE = 0, F_RACY = 1, F_ISOLATE = 2, F_SERIAL = 4 };

struct Suite
{
	const char *name;
	void (*fn)(G &);
	uint64_t quick, thorough; // number of cases
	const char *rule;         // how cases are made and what makes one non-trivial
	unsigned timeoutMs;       // per case
	int flags;
};
// a listed defect that is not repaired: fn must still fail for the finding to be reported
struct Known { const char *id; void (*fn)(G &); };

struct Opts
{
	std::string prop, tier, evidence, replayDir, replayFile, only, knownFile;
	uint64_t seed; int workers; double scale; double budgetS; bool keepGoing;
};

inline std::string jstr(const std::string &s)
{
	std::string r = "\""; char b[8];
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
inline std::string slurp(const std::string &p, size_t max = 1 << 20)
{
	std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
	char b[4096]; size_t k;
	while (r.size() < max && (k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
	fclose(f); return r;
}

struct Outcome { int kind; std::string why; std::vector<uint64_t> tape; std::string note; bool hang; Outcome() : kind(0), hang(false) {} }; // kind 0 pass, 1 fail, 2 timeout

// remove a scratch tree made by this engine (never follows links, refuses any other place)
inline void rmTree(const std::string &d)
{
	if (d.compare(0, 8, "/tmp/pbt") != 0 || d.find("..") != std::string::npos) return;
	if (DIR *dp = opendir(d.c_str()))
	{
		while (struct dirent *e = readdir(dp))
		{
			std::string n = e->d_name; if (n == "." || n == "..") continue;
			struct stat st; std::string p = d + "/" + n;
			if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str());
		}
		closedir(dp);
	}
	rmdir(d.c_str());
}
inline std::string &scratchRoot() { static std::string s; return s; }
// a directory of the running process, emptied on each call; everything goes away with the engine
inline std::string scratch()
{
	char b[64]; snprintf(b, sizeof b, "/s%d", (int)getpid());
	std::string d = scratchRoot() + b; rmTree(d); mkdir(d.c_str(), 0700); return d;
}

class Engine
{
public:
	Engine(const Opts &o, const std::vector<Suite> &s, const std::vector<Known> &k) : m_o(o), m_suites(s), m_known(k), m_inconclusive(0), m_violations(0)
	{
		char t[] = "/tmp/pbtXXXXXX"; m_tmp = mkdtemp(t); scratchRoot() = m_tmp; if (chdir(t)) {}
	}
	~Engine() { rmTree(m_tmp); }

	Slot *newSlot()
	{
		void *p = mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(3); }
		return (Slot *)p;
	}
	void childSetup(int errIdx)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		signal(SIGPIPE, SIG_IGN);
		char b[32]; snprintf(b, sizeof b, "/e%d", errIdx);
		int fd = open((m_tmp + b).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); if (fd > 2) close(fd); }
		int nul = open("/dev/null", O_RDONLY); if (nul >= 0) { dup2(nul, 0); if (nul > 2) close(nul); }
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		setpgid(0, 0);
	}
	std::string errText(int errIdx)
	{
		char b[32]; snprintf(b, sizeof b, "/e%d", errIdx);
		return slurp(m_tmp + b, 1 << 18);
	}
	static std::string summarize(const std::string &e)
	{
		// the interesting lines of a sanitizer report / assertion
		std::string r; size_t p = 0; int n = 0, frames = 0;
		while (p < e.size() && n < 14)
		{
			size_t q = e.find('\n', p); if (q == std::string::npos) q = e.size();
			std::string l = e.substr(p, q - p); p = q + 1;
			bool fr = l.find("    #") == 0;
			if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("READ of") == 0 || l.find("WRITE of") == 0 || (fr && frames < 8))
			{ r += l.substr(0, 300) + "\n"; ++n; if (fr) ++frames; }
		}
		return r;
	}
	static std::string statusText(int st)
	{
		char b[64];
		if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
		else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
		return b;
	}
	bool thorough() const { return m_o.tier == "thorough"; }
	uint64_t caseSeed(const Suite &s, uint64_t i) { return mix64(hashStr(m_o.prop.c_str()) ^ mix64(hashStr(s.name) ^ mix64(m_o.seed * 1000003ULL + 17))) + mix64(i * 2654435761ULL + 12345); }

	void runCase(const Suite &s, Slot *sl, uint64_t seed, bool replay, const std::vector<uint64_t> &tape)
	{
		G g(sl, seed, replay, tape, thorough());
		sl->startMs = nowMs();
		sl->state = ST_RUN;
		try { s.fn(g); }
		catch (const std::exception &e) { g.fail("unexpected exception: %s", e.what()); }
		sl->state = ST_PASS;
		sl->evals = sl->evals + 1;
		if (g.isNontrivial())
		{
			sl->nontrivial = sl->nontrivial + 1;
			if (sl->nhash < HASH_MAX) { sl->hashes[sl->nhash] = g.hash(); sl->nhash = sl->nhash + 1; }
			if (sl->nsamples < SAMPLE_MAX && sl->noteLen)
			{
				size_t k = std::min<size_t>(sl->noteLen, SAMPLE_LEN - 1);
				memcpy(sl->samples[sl->nsamples], sl->note, k); sl->samples[sl->nsamples][k] = 0;
				sl->nsamples = sl->nsamples + 1;
			}
		}
	}
	// run one tape in a fresh child
	Outcome attempt(const Suite &s, const std::vector<uint64_t> &tape, unsigned timeoutMs, bool replay = true, uint64_t seed = 0)
	{
		static Slot *sl = NULL;
		if (!sl) sl = newSlot();
		sl->state = ST_IDLE; sl->ntape = 0; sl->noteLen = 0; sl->note[0] = 0; sl->msg[0] = 0; sl->nhash = 0; sl->nsamples = SAMPLE_MAX;
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) { childSetup(40); runCase(s, sl, seed, replay, tape); _exit(0); }
		uint64_t t0 = nowMs(); int st = 0; Outcome o;
		while (true)
		{
			pid_t w = waitpid(pid, &st, WNOHANG);
			if (w == pid) break;
			if (nowMs() - t0 > timeoutMs) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); o.hang = true; break; }
			usleep(nowMs() - t0 < 50 ? 300 : 3000);
		}
		kill(-pid, SIGKILL);
		o.tape.assign(sl->tape, sl->tape + sl->ntape);
		o.note = sl->note;
		if (o.hang) { o.kind = 2; o.why = "case does not finish (hang)"; return o; }
		if (sl->state == ST_PASS && WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.kind = 0; return o; }
		o.kind = 1;
		if (sl->state == ST_FAIL) o.why = sl->msg;
		else o.why = "code under test aborted: " + statusText(st) + "\n" + summarize(errText(40));
		return o;
	}

	Outcome shrink(const Suite &s, const Outcome &first, double seconds)
	{
		Outcome best = first;
		uint64_t end = nowMs() + (uint64_t)(seconds * 1000);
		unsigned to = first.hang ? s.timeoutMs : s.timeoutMs;
		auto tryTape = [&](const std::vector<uint64_t> &t) -> bool {
			if (nowMs() > end) return false;
			Outcome o = attempt(s, t, to);
			if (o.kind == 0) return false;
			if (o.kind == 2 && !first.hang) return false;
			if (o.tape.size() > best.tape.size()) return false;
			if (o.tape.size() == best.tape.size() && !(o.tape < best.tape)) return false;
			best = o; return true;
		};
		bool progress = true;
		while (progress && nowMs() < end)
		{
			progress = false;
			// truncate
			for (size_t l = 0; l < best.tape.size() && nowMs() < end;)
			{
				std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + l);
				if (tryTape(t)) { progress = true; break; }
				l = l ? l * 2 : 1;
			}
			for (size_t bs = 128; bs >= 1 && nowMs() < end; bs /= 2)
			{
				for (size_t i = best.tape.size(); i > 0 && nowMs() < end;)
				{
					size_t st = i > bs ? i - bs : 0;
					if (i > best.tape.size()) { i = best.tape.size(); continue; }
					std::vector<uint64_t> t(best.tape);
					t.erase(t.begin() + st, t.begin() + i);
					if (tryTape(t)) progress = true;
					i = st;
				}
			}
			for (size_t bs = 32; bs >= 1 && nowMs() < end; bs /= 4)
			{
				for (size_t i = 0; i < best.tape.size() && nowMs() < end; i += bs)
				{
					std::vector<uint64_t> t(best.tape); bool nz = false;
					for (size_t k = i; k < i + bs && k < t.size(); ++k) { if (t[k]) nz = true; t[k] = 0; }
					if (nz && tryTape(t)) progress = true;
				}
			}
			for (size_t i = 0; i < best.tape.size() && nowMs() < end; ++i)
			{
				uint64_t lo = 0;
				while (i < best.tape.size() && best.tape[i] > lo && nowMs() < end)
				{
					uint64_t mid = lo + (best.tape[i] - lo) / 2;
					std::vector<uint64_t> t(best.tape); t[i] = mid;
					if (tryTape(t)) progress = true;
					else { if (mid == best.tape[i] - 1 || mid + 1 <= lo) break; lo = mid + 1; }
				}
			}
		}
		return best;
	}

	std::string writeReplay(const Suite &s, const Outcome &o, int repro, int of)
	{
		mkdir(m_o.replayDir.c_str(), 0777);
		char b[128]; snprintf(b, sizeof b, "/%s-%s-%llu.replay", m_o.prop.c_str(), s.name, (unsigned long long)m_o.seed);
		std::string p = m_o.replayDir + b;
		FILE *f = fopen(p.c_str(), "w");
		if (!f) { perror(p.c_str()); return p; }
		fprintf(f, "property %s\nsuite %s\nseed %llu\ntier %s\nreproduced %d/%d\ntape %zu", m_o.prop.c_str(), s.name, (unsigned long long)m_o.seed, m_o.tier.c_str(), repro, of, o.tape.size());
		for (size_t i = 0; i < o.tape.size(); ++i) fprintf(f, " %llu", (unsigned long long)o.tape[i]);
		fprintf(f, "\n---- what failed\n%s\n---- the case\n%s\n", o.why.c_str(), o.note.c_str());
		fclose(f);
		return p;
	}

	// returns true if a violation was reported
	bool handleFailure(const Suite &s, const Outcome &first, double shrinkS)
	{
		fprintf(stderr, "[%s/%s] failure, confirming: %s\n", m_o.prop.c_str(), s.name, first.why.c_str());
		Outcome confirmed; int ok = 0, n = (s.flags & F_RACY) ? 12 : 5;
		for (int i = 0; i < n; ++i)
		{
			Outcome o = attempt(s, first.tape, first.hang ? s.timeoutMs * 2 : s.timeoutMs * 2);
			if (o.kind) { ++ok; confirmed = o; if (ok >= 2 || first.hang) break; }
		}
		if (!ok)
		{
			if ((s.flags & F_RACY) && !first.hang)
			{
				// the history itself contradicts the property; scheduling did not repeat it
				std::string p = writeReplay(s, first, 0, n);
				report(s, first, p);
				return true;
			}
			++m_inconclusive;
			fprintf(stderr, "[%s/%s] not reproducible (%s); counted as inconclusive\n", m_o.prop.c_str(), s.name, first.hang ? "timeout" : "failure");
			return false;
		}
		Outcome best = shrink(s, confirmed, shrinkS);
		int rep = 0;
		for (int i = 0; i < 3; ++i) if (attempt(s, best.tape, s.timeoutMs * 2).kind) ++rep;
		if (!rep) best = confirmed;
		std::string p = writeReplay(s, best, rep, 3);
		report(s, best, p);
		return true;
	}
	void report(const Suite &s, const Outcome &o, const std::string &path)
	{
		++m_violations;
		printf("VIOLATION property=%s replay=%s\n", m_o.prop.c_str(), path.c_str());
		printf("  suite %s: %s\n", s.name, o.why.c_str());
		std::string n = o.note; if (n.size() > 4000) n = n.substr(0, 4000) + "...";
		printf("  case:\n%s\n", n.c_str());
		fflush(stdout);
	}

	// run a suite; returns false when a violation was found
	bool runSuite(const Suite &s)
	{
		uint64_t N = thorough() ? s.thorough : s.quick;
		N = (uint64_t)(N * m_o.scale); if (N < 1) N = 1;
		int W = (s.flags & F_SERIAL) ? 1 : m_o.workers; if ((uint64_t)W > N) W = (int)N;
		std::vector<Slot *> sl(W); std::vector<pid_t> pid(W, 0); std::vector<uint64_t> nextCase(W);
		uint64_t t0 = nowMs(), deadline = t0 + (uint64_t)(m_o.budgetS * 1000);
		for (int w = 0; w < W; ++w) { sl[w] = newSlot(); nextCase[w] = w; }
		fflush(stdout); fflush(stderr);
		auto spawn = [&](int w) {
			sl[w]->state = ST_IDLE; sl[w]->startMs = nowMs();
			pid_t p = fork();
			if (p == 0)
			{
				childSetup(w);
				std::vector<uint64_t> none;
				uint64_t cnt = 0;
				for (uint64_t i = nextCase[w]; i < N; i += W)
				{
					if (nowMs() > deadline) break;
					sl[w]->caseIdx = i;
					runCase(s, sl[w], caseSeed(s, i), false, none);
					if (s.flags & F_ISOLATE) { sl[w]->caseIdx = i; sl[w]->state = ST_IDLE; _exit(i + W < N ? 78 : 0); }
					// stderr of long runs must not fill the disk
					if ((++cnt & 1023) == 0) { if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
				}
				sl[w]->state = ST_DONE;
				_exit(0);
			}
			pid[w] = p;
		};
		for (int w = 0; w < W; ++w) spawn(w);
		int live = W; bool violated = false; int incThis = 0;
		auto killAll = [&]() { for (int w = 0; w < W; ++w) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); pid[w] = 0; } live = 0; };
		while (live > 0 && !violated)
		{
			bool idle = true;
			for (int w = 0; w < W && !violated; ++w)
			{
				if (!pid[w]) continue;
				int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
				if (r == pid[w])
				{
					idle = false;
					kill(-pid[w], SIGKILL);
					pid[w] = 0;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (sl[w]->state == ST_DONE || sl[w]->state == ST_IDLE)) { --live; continue; }
					if (WIFEXITED(st) && WEXITSTATUS(st) == 78 && sl[w]->state == ST_IDLE) { nextCase[w] = sl[w]->caseIdx + W; if (nowMs() < deadline) spawn(w); else --live; continue; }
					Outcome o; o.kind = 1;
					o.tape.assign(sl[w]->tape, sl[w]->tape + sl[w]->ntape); o.note = sl[w]->note;
					if (sl[w]->state == ST_FAIL) o.why = sl[w]->msg;
					else o.why = "code under test aborted: " + statusText(st) + "\n" + summarize(errText(w));
					uint64_t idx = sl[w]->caseIdx;
					// free the cores before shrinking
					killOthers(pid, sl, nextCase, W);
					if (handleFailure(s, o, thorough() ? 120 : 60)) { violated = true; break; }
					if (++incThis > 5) { killAll(); break; }
					nextCase[w] = idx + W; live = 0;
					for (int x = 0; x < W; ++x) { if (nextCase[x] < N) { spawn(x); ++live; } }
				}
				else if (sl[w]->state == ST_RUN && (int64_t)(nowMs() - sl[w]->startMs) > (int64_t)s.timeoutMs * 3) // the next case may start between the two readings
				{
					idle = false;
					Outcome o; o.kind = 2; o.hang = true; o.why = "case does not finish (hang)";
					o.tape.assign(sl[w]->tape, sl[w]->tape + sl[w]->ntape); o.note = sl[w]->note;
					uint64_t idx = sl[w]->caseIdx;
					killOthers(pid, sl, nextCase, W);
					if (handleFailure(s, o, thorough() ? 90 : 45)) { violated = true; break; }
					if (++incThis > 5) { live = 0; break; }
					nextCase[w] = idx + W; live = 0;
					for (int x = 0; x < W; ++x) { if (nextCase[x] < N) { spawn(x); ++live; } }
				}
			}
			if (idle) usleep(2000);
		}
		killAll();
		// collect
		SuiteStat st; st.name = s.name; st.rule = s.rule; st.evals = 0; st.nontrivial = 0; st.planned = N;
		std::set<uint64_t> hs;
		for (int w = 0; w < W; ++w)
		{
			st.evals += sl[w]->evals; st.nontrivial += sl[w]->nontrivial;
			for (uint32_t i = 0; i < sl[w]->nhash; ++i) hs.insert(sl[w]->hashes[i]);
			for (uint32_t i = 0; i < sl[w]->nlabels; ++i) st.labels[sl[w]->labels[i].name] += sl[w]->labels[i].n;
			for (uint32_t i = 0; i < sl[w]->nsamples && st.samples.size() < 2 && w < 2; ++i) st.samples.push_back(sl[w]->samples[i]);
			munmap(sl[w], sizeof(Slot));
		}
		st.distinct = hs.size();
		st.wall = (nowMs() - t0) / 1000.0;
		fprintf(stderr, "[%s/%s] %llu/%llu cases, %llu distinct non-trivial, %.1fs%s\n", m_o.prop.c_str(), s.name, (unsigned long long)st.evals, (unsigned long long)N, (unsigned long long)st.distinct, st.wall, violated ? " VIOLATED" : "");
		for (auto &l : st.labels) fprintf(stderr, "      %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
		m_stats.push_back(st);
		return !violated;
	}
	void killOthers(std::vector<pid_t> &pid, std::vector<Slot *> &sl, std::vector<uint64_t> &nextCase, int W)
	{
		for (int x = 0; x < W; ++x)
		{
			if (pid[x])
			{
				kill(-pid[x], SIGKILL); kill(pid[x], SIGKILL); waitpid(pid[x], 0, 0); pid[x] = 0;
				nextCase[x] = sl[x]->caseIdx;                      // re-run the interrupted case
				if (sl[x]->state == ST_IDLE && sl[x]->evals == 0) nextCase[x] = x;
			}
			else if (sl[x]->state == ST_DONE) nextCase[x] = (uint64_t)-1;
		}
	}

	struct SuiteStat { std::string name, rule; uint64_t evals, nontrivial, distinct, planned; double wall; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };

	int run()
	{
		uint64_t t0 = nowMs();
		if (!m_o.replayFile.empty()) return replay();
		bool ok = true;
		knownFindings(ok);
		for (size_t i = 0; i < m_suites.size() && (ok || m_o.keepGoing); ++i)
		{
			if (!m_o.only.empty() && m_o.only != m_suites[i].name) continue;
			if (!runSuite(m_suites[i])) ok = false;
		}
		writeEvidence((nowMs() - t0) / 1000.0);
		uint64_t total = 0; for (auto &s : m_stats) total += s.evals;
		if (ok && total == 0) { fprintf(stderr, "no case finished\n"); return 2; }
		return ok ? 0 : 1;
	}
	void knownFindings(bool &ok)
	{
		std::string kf = slurp(m_o.knownFile);
		for (size_t i = 0; i < m_known.size(); ++i)
		{
			if (!m_o.only.empty()) continue;
			std::string tag = std::string("known: property=") + m_o.prop + " id=" + m_known[i].id + " ";
			size_t p = kf.find(tag); std::string text;
			if (p != std::string::npos) { size_t q = kf.find('\n', p); text = kf.substr(p + tag.size(), q == std::string::npos ? std::string::npos : q - p - tag.size()); }
			Suite s = {m_known[i].id, m_known[i].fn, 1, 1, "", 20000, 0};
			std::vector<uint64_t> none;
			Outcome o = attempt(s, none, 20000);
			if (o.kind == 0) { m_knownLines.push_back(std::string(m_known[i].id) + ": no longer fails"); continue; }
			if (p == std::string::npos) { std::string r = writeReplay(s, o, 1, 1); report(s, o, r); ok = false; continue; }
			printf("KNOWN-FINDING: property=%s %s: %s\n", m_o.prop.c_str(), m_known[i].id, text.c_str());
			fflush(stdout);
			m_knownLines.push_back(std::string(m_known[i].id) + ": " + text);
		}
	}
	int replay()
	{
		std::string t = slurp(m_o.replayFile, 16 << 20);
		char suite[64] = "";
		size_t p = t.find("suite "); if (p != std::string::npos) sscanf(t.c_str() + p, "suite %63s", suite);
		p = t.find("\ntape "); std::vector<uint64_t> tape;
		if (p != std::string::npos)
		{
			const char *c = t.c_str() + p + 6; char *e; size_t n = strtoull(c, &e, 10);
			for (size_t i = 0; i < n; ++i) { c = e; tape.push_back(strtoull(c, &e, 10)); }
		}
		for (size_t i = 0; i < m_suites.size() + m_known.size(); ++i)
		{
			Suite k = {"", 0, 1, 1, "", 20000, 0};
			if (i >= m_suites.size()) { k.name = m_known[i - m_suites.size()].id; k.fn = m_known[i - m_suites.size()].fn; }
			const Suite &s = i < m_suites.size() ? m_suites[i] : k;
			if (strcmp(s.name, suite)) continue;
			Outcome o = attempt(s, tape, s.timeoutMs * 3);
			printf("%s\n%s\n%s\n", o.kind ? "REPRODUCED" : "passes", o.why.c_str(), o.note.c_str());
			if (o.kind) { printf("VIOLATION property=%s replay=%s\n", m_o.prop.c_str(), m_o.replayFile.c_str()); return 1; }
			return 0;
		}
		fprintf(stderr, "unknown suite %s\n", suite); return 2;
	}
	void writeEvidence(double wall)
	{
		if (m_o.evidence.empty()) return;
		uint64_t ev = 0, dn = 0; std::string rule, samples, suites;
		for (size_t i = 0; i < m_stats.size(); ++i)
		{
			SuiteStat &s = m_stats[i]; ev += s.evals; dn += s.distinct;
			rule += (i ? " | " : "") + s.name + ": " + s.rule;
			for (size_t k = 0; k < s.samples.size(); ++k) samples += (samples.empty() ? "" : ",") + std::string("{\"suite\":") + jstr(s.name) + ",\"case\":" + jstr(s.samples[k]) + "}";
			char b[200]; snprintf(b, sizeof b, "%s{\"suite\":\"%s\",\"evaluations\":%llu,\"planned\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"wall_s\":%.2f,\"classes\":{", i ? "," : "", s.name.c_str(), (unsigned long long)s.evals, (unsigned long long)s.planned, (unsigned long long)s.nontrivial, (unsigned long long)s.distinct, s.wall);
			suites += b; bool f = true;
			for (auto &l : s.labels) { snprintf(b, sizeof b, "%s%s:%llu", f ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); suites += b; f = false; }
			suites += "}}";
		}
		std::string known; for (size_t i = 0; i < m_knownLines.size(); ++i) known += (i ? "," : "") + jstr(m_knownLines[i]);
		FILE *f = fopen(m_o.evidence.c_str(), "w"); if (!f) { perror(m_o.evidence.c_str()); return; }
		fprintf(f, "{\n\"property\":%s,\n\"tier\":%s,\n\"seed\":%llu,\n\"level\":\"exploration\",\n\"coverage\":{\n\"evaluations\":%llu,\n\"distinct_nontrivial\":%llu,\n\"rule\":%s,\n\"samples\":[%s],\n\"suites\":[%s],\n\"inconclusive\":%d,\n\"known_findings\":[%s]\n},\n\"wall_s\":%.2f,\n\"violations\":%d\n}\n",
				jstr(m_o.prop).c_str(), jstr(m_o.tier).c_str(), (unsigned long long)m_o.seed, (unsigned long long)ev, (unsigned long long)dn, jstr(rule + " || distinct = distinct hashes of the drawn choice tapes of non-trivial cases").c_str(), samples.c_str(), suites.c_str(), m_inconclusive, known.c_str(), wall, m_violations);
		fclose(f);
	}

private:
	Opts m_o; std::vector<Suite> m_suites; std::vector<Known> m_known; std::string m_tmp; std::vector<SuiteStat> m_stats; std::vector<std::string> m_knownLines; int m_inconclusive, m_violations;
};

inline int pbtMain(int argc, char **argv, const char *prop, const std::vector<Suite> &suites, const std::vector<Known> &known = std::vector<Known>())
{
	Opts o; o.prop = prop; o.tier = "quick"; o.seed = 1; o.workers = 8; o.scale = 1; o.budgetS = 0; o.replayDir = "."; o.keepGoing = false;
	if (getenv("VERIF_SEED")) o.seed = strtoull(getenv("VERIF_SEED"), 0, 10);
	if (getenv("VERIF_TIER")) o.tier = getenv("VERIF_TIER");
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; std::string v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--seed") { o.seed = strtoull(v.c_str(), 0, 10); ++i; }
		else if (a == "--tier") { o.tier = v; ++i; }
		else if (a == "--evidence") { o.evidence = v; ++i; }
		else if (a == "--replaydir") { o.replayDir = v; ++i; }
		else if (a == "--replay") { o.replayFile = v; ++i; }
		else if (a == "--suite") { o.only = v; ++i; }
		else if (a == "--known") { o.knownFile = v; ++i; }
		else if (a == "--workers") { o.workers = atoi(v.c_str()); ++i; }
		else if (a == "--scale") { o.scale = atof(v.c_str()); ++i; }
		else if (a == "--budget") { o.budgetS = atof(v.c_str()); ++i; }
		else if (a == "--keep-going") o.keepGoing = true;
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	if (o.budgetS == 0) o.budgetS = o.tier == "thorough" ? 600 : 60; // per suite; a cap, not a target
	signal(SIGPIPE, SIG_IGN);
	setvbuf(stdout, 0, _IOLBF, 0);
	Engine e(o, suites, known);
	return e.run();
}
}
#endif
