// SCALE: 2
// REPO_SRC: src/CMysql.cpp
// FLAGS: -DHAVE_MYSQL_H=1 -I/usr/include/mariadb -I/usr/include/mysql
// C31: database results expose every field exactly and errors are reported.
// The client library is replaced by a stand-in that records every call, checks the handle life cycle and
// plans the outcome of each step (ok, lost connection, any other error, several results).
#include "pbt.h"
#include <memory>
#include <set>
#include <malloc.h>
#include <sanitizer/allocator_interface.h>
#include "CMysql.h"
using namespace pbt;
typedef std::string S;

struct Table { std::vector<S> cols; std::vector<std::vector<S>> rows; std::vector<std::vector<bool>> nul; };
struct Answer { int kind; unsigned long long affected; Table t; }; // 0: no rows, 1: rows, 2: the result cannot be fetched, 3: like 0 but affected is -1
struct Handle
{
	bool inited, connected; S db, host, user, pass, charset; unsigned port; int ct, rt, wt; bool broken; int err; S msg;
	std::vector<Answer> pending; bool fresh, unread; // an answer is current; its rows are not fetched yet
	Handle() : inited(false), connected(false), port(0), ct(-1), rt(-1), wt(-1), broken(false), err(0), fresh(false), unread(false) {}
};
struct Res { Table t; size_t row, col; std::vector<MYSQL_FIELD> f; std::vector<char *> ptr, blocks; std::vector<unsigned long> len; };
struct Exec { S sql, db, host, user, pass, charset; unsigned port; int ct, rt, wt; int err; S msg; };
struct World
{
	const int *wt[3];
	G *g; std::map<MYSQL *, Handle> h; std::map<MYSQL_RES *, Res> res; std::vector<Exec> log; std::vector<Answer> plan, lastAnswer; S lastErr; unsigned pLost, pErr, pConn, pSel, serial; bool dead; uint64_t connects, closes, inits, frees, drained; bool nextFails; std::set<S> dbs; S connMsg, selMsg; int lastExec;
	World() : wt(), g(NULL), pLost(0), pErr(0), pConn(0), pSel(0), serial(0), dead(false), connects(0), closes(0), inits(0), frees(0), drained(0), nextFails(false), lastExec(-1) {}
	Handle &at(MYSQL *m, const char *what, bool conn = true)
	{
		auto it = h.find(m); PBT_CHECK(*g, m && it != h.end() && it->second.inited, "%s is called on a handle that is not initialised or is closed", what);
		PBT_CHECK(*g, !conn || it->second.connected, "%s is called on a handle that is not connected", what); return it->second;
	}
	int fail(Handle &x, int err) { x.err = err; char b[40]; snprintf(b, sizeof b, "server error %d #%u", err, ++serial); x.msg = b; lastErr = b; if (err == 2006 || err == 2013) x.broken = true; g->note("  -> %s", b); return 1; }
	int other() { static const int e[] = {1064, 1046, 1205, 1213, 2014, 1317, 2002, 2003, 2005, 2007, 2012}; return e[g->u(11)]; }
	void settle() { PBT_CHECK(*g, res.empty(), "%zu result sets are not freed", res.size()); size_t open = 0; for (auto &x : h) open += x.second.inited; PBT_CHECK(*g, open == 0, "%zu database handles are not closed", open); }
};
static World *W;

extern "C" {
MYSQL *STDCALL mysql_init(MYSQL *m)
{
	bool own = m == NULL; if (own) m = (MYSQL *)calloc(1, sizeof(MYSQL)); Handle &x = W->h[m]; PBT_CHECK(*W->g, !x.inited, "mysql_init is called on a handle that is still open"); x = Handle(); x.inited = true; m->free_me = own; ++W->inits; return m;
}
int STDCALL mysql_options(MYSQL *m, enum mysql_option o, const void *a)
{
	Handle &x = W->at(m, "mysql_options", false); PBT_CHECK(*W->g, !x.connected, "an option is set after connecting");
	switch ((int)o) { case MYSQL_OPT_CONNECT_TIMEOUT: x.ct = *(const int *)a; break; case MYSQL_OPT_READ_TIMEOUT: x.rt = *(const int *)a; break; case MYSQL_OPT_WRITE_TIMEOUT: x.wt = *(const int *)a; break;
	case MYSQL_SET_CHARSET_NAME: x.charset = (const char *)a; if (x.charset == "bad") return W->fail(x, 2019); break; default: break; }
	return 0;
}
MYSQL *STDCALL mysql_real_connect(MYSQL *m, const char *host, const char *user, const char *pass, const char *db, unsigned int port, const char *, unsigned long)
{
	Handle &x = W->at(m, "mysql_real_connect", false); PBT_CHECK(*W->g, !x.connected, "mysql_real_connect on a connected handle"); ++W->connects;
	x.host = host ? host : ""; x.user = user ? user : ""; x.pass = pass ? pass : ""; x.port = port; x.err = 0; W->g->note("  connect to %s:%u", x.host.c_str(), port);
	if (W->wt[0]) PBT_CHECK(*W->g, x.ct == *W->wt[0] && x.rt == *W->wt[1] && x.wt == *W->wt[2], "connecting with timeouts of %d, %d and %d s instead of %d, %d and %d", x.ct, x.rt, x.wt, *W->wt[0], *W->wt[1], *W->wt[2]);
	if (W->g->chance(W->pConn, 100)) { W->fail(x, W->g->pick({2002, 2003, 2005, 1045, 1040, 2013})); W->connMsg = x.msg; return NULL; }
	x.connected = true; x.broken = false; if (db) x.db = db; W->dead = false; return m;
}
int STDCALL mysql_select_db(MYSQL *m, const char *db)
{
	Handle &x = W->at(m, "mysql_select_db"); W->g->note("  select database %s", quote(db ? db : "").c_str()); PBT_CHECK(*W->g, !x.fresh, "a command is sent while results of the last one are pending");
	if (x.broken) return W->fail(x, 2006);
	if (W->g->chance(W->pSel, 100)) return W->fail(x, W->g->b() ? 2006 : W->other());
	if (!db || !W->dbs.count(db)) return W->fail(x, db && *db ? 1049 : 1046);
	x.db = db; x.err = 0; x.msg.clear(); return 0;
}
int STDCALL mysql_real_query(MYSQL *m, const char *q, unsigned long n)
{
	Handle &x = W->at(m, "mysql_real_query"); PBT_CHECK(*W->g, !x.fresh, "a statement is sent while results of the last one are pending");
	Exec e; e.sql.assign(q, n); e.db = x.db; e.host = x.host; e.user = x.user; e.pass = x.pass; e.charset = x.charset; e.port = x.port; e.ct = x.ct; e.rt = x.rt; e.wt = x.wt; e.err = 0; W->g->note("  statement of %lu bytes in database %s", n, quote(x.db).c_str());
	if (x.broken || W->dead) W->fail(x, W->g->b() ? 2006 : 2013), e.err = x.err, e.msg = x.msg;
	else if (W->g->chance(W->pLost, 100)) W->fail(x, W->g->b() ? 2006 : 2013), e.err = x.err, e.msg = x.msg;
	else if (W->g->chance(W->pErr, 100)) W->fail(x, W->other()), e.err = x.err, e.msg = x.msg;
	W->log.push_back(e); if (e.err) return 1;
	x.err = 0; x.msg.clear(); x.pending = W->plan; x.fresh = true; x.unread = x.pending[0].kind == 1 || x.pending[0].kind == 2; return 0;
}
int STDCALL mysql_query(MYSQL *m, const char *q) { return mysql_real_query(m, q, strlen(q)); }
int STDCALL mysql_ping(MYSQL *m) { Handle &x = W->at(m, "mysql_ping"); if (x.broken) return W->fail(x, 2006); return 0; }
unsigned int STDCALL mysql_errno(MYSQL *m) { return W->at(m, "mysql_errno", false).err; }
const char *STDCALL mysql_error(MYSQL *m) { return W->at(m, "mysql_error", false).msg.c_str(); }
const char *STDCALL mysql_sqlstate(MYSQL *m) { return W->at(m, "mysql_sqlstate", false).err ? "HY000" : "00000"; }
unsigned int STDCALL mysql_field_count(MYSQL *m) { Handle &x = W->at(m, "mysql_field_count"); return x.fresh && (x.pending[0].kind == 1 || x.pending[0].kind == 2) ? x.pending[0].t.cols.size() : 0; }
static void advance(Handle &x) { if (x.pending.size() == 1) { x.fresh = false; x.pending.clear(); } }
my_ulonglong STDCALL mysql_affected_rows(MYSQL *m)
{
	Handle &x = W->at(m, "mysql_affected_rows"); if (!x.fresh) return 0; Answer a = x.pending[0]; if (a.kind == 3) { W->fail(x, W->other()); x.fresh = false; x.pending.clear(); return (my_ulonglong)-1; } if (a.kind == 0) advance(x); return a.affected;
}
my_ulonglong STDCALL mysql_insert_id(MYSQL *m) { W->at(m, "mysql_insert_id"); return 0; }
unsigned int STDCALL mysql_warning_count(MYSQL *m) { W->at(m, "mysql_warning_count"); return 0; }
static MYSQL_RES *result(MYSQL *m)
{
	Handle &x = W->at(m, "mysql_store_result"); if (!x.fresh || !x.unread) { x.err = 0; x.msg.clear(); if (x.fresh) advance(x); return NULL; }
	x.unread = false; Answer a = x.pending[0]; if (a.kind == 2) { W->fail(x, W->g->b() ? 2013 : 2008); x.fresh = false; x.pending.clear(); return NULL; /* an error ends the statement list */ }
	advance(x); MYSQL_RES *r = (MYSQL_RES *)calloc(1, sizeof(MYSQL_RES)); Res &s = W->res[r]; s.t = a.t; s.row = s.col = 0; s.f.resize(a.t.cols.size());
	for (size_t i = 0; i < s.f.size(); ++i) { memset(&s.f[i], 0, sizeof(MYSQL_FIELD)); s.f[i].name = (char *)s.t.cols[i].c_str(); s.f[i].name_length = s.t.cols[i].size(); }
	return r;
}
MYSQL_RES *STDCALL mysql_store_result(MYSQL *m) { return result(m); }
MYSQL_RES *STDCALL mysql_use_result(MYSQL *m) { return result(m); }
static Res &resAt(MYSQL_RES *r, const char *what) { auto it = W->res.find(r); PBT_CHECK(*W->g, it != W->res.end(), "%s is called on a result set that is freed", what); return it->second; }
MYSQL_FIELD *STDCALL mysql_fetch_field(MYSQL_RES *r) { Res &s = resAt(r, "mysql_fetch_field"); return s.col < s.f.size() ? &s.f[s.col++] : NULL; }
MYSQL_FIELD *STDCALL mysql_fetch_fields(MYSQL_RES *r) { return resAt(r, "mysql_fetch_fields").f.data(); }
MYSQL_FIELD *STDCALL mysql_fetch_field_direct(MYSQL_RES *r, unsigned int i) { Res &s = resAt(r, "mysql_fetch_field_direct"); PBT_CHECK(*W->g, i < s.f.size(), "field %u of %zu is asked for", i, s.f.size()); return &s.f[i]; }
unsigned int STDCALL mysql_num_fields(MYSQL_RES *r) { return resAt(r, "mysql_num_fields").f.size(); }
my_ulonglong STDCALL mysql_num_rows(MYSQL_RES *r) { return resAt(r, "mysql_num_rows").t.rows.size(); }
static void dropBlocks(Res &s) { for (char *p : s.blocks) free(p); s.blocks.clear(); }
MYSQL_ROW STDCALL mysql_fetch_row(MYSQL_RES *r)
{
	Res &s = resAt(r, "mysql_fetch_row"); dropBlocks(s); if (s.row >= s.t.rows.size()) return NULL; // the last row is gone: its bytes must have been copied
	s.ptr.clear(); s.len.clear();
	for (size_t i = 0; i < s.f.size(); ++i)
	{
		const S &v = s.t.rows[s.row][i]; if (s.t.nul[s.row][i]) { s.ptr.push_back(NULL); s.len.push_back(0); continue; }
		char *p = (char *)malloc(v.size() + 1); memcpy(p, v.data(), v.size()); p[v.size()] = 0; s.blocks.push_back(p); s.ptr.push_back(p); s.len.push_back(v.size());
	}
	++s.row; return s.ptr.data();
}
unsigned long *STDCALL mysql_fetch_lengths(MYSQL_RES *r) { Res &s = resAt(r, "mysql_fetch_lengths"); return s.row ? s.len.data() : NULL; }
void STDCALL mysql_data_seek(MYSQL_RES *r, unsigned long long n) { resAt(r, "mysql_data_seek").row = n; }
void STDCALL mysql_free_result(MYSQL_RES *r) { if (!r) return; Res &s = resAt(r, "mysql_free_result"); dropBlocks(s); W->res.erase(r); free(r); ++W->frees; }
my_bool STDCALL mysql_more_results(MYSQL *m) { Handle &x = W->at(m, "mysql_more_results"); return x.fresh && x.pending.size() > 1; }
int STDCALL mysql_next_result(MYSQL *m)
{
	Handle &x = W->at(m, "mysql_next_result"); x.err = 0; x.msg.clear(); if (!x.fresh || x.pending.size() <= 1) { if (x.fresh) advance(x); return -1; }
	PBT_CHECK(*W->g, !x.unread, "the next result is asked for while rows are not fetched"); x.pending.erase(x.pending.begin()); ++W->drained;
	if (W->nextFails) { x.fresh = false; x.pending.clear(); W->fail(x, W->g->chance(1, 4) ? 2013 : W->other()); return 1; }
	x.unread = x.pending[0].kind == 1 || x.pending[0].kind == 2; return 0;
}
unsigned long STDCALL mysql_real_escape_string(MYSQL *m, char *to, const char *from, unsigned long n)
{
	W->at(m, "mysql_real_escape_string"); char *p = to;
	for (unsigned long i = 0; i < n; ++i) { char c = from[i]; switch (c) { case 0: *p++ = '\\'; *p++ = '0'; break; case '\n': *p++ = '\\'; *p++ = 'n'; break; case '\r': *p++ = '\\'; *p++ = 'r'; break; case '\\': case '\'': case '"': *p++ = '\\'; *p++ = c; break; case '\032': *p++ = '\\'; *p++ = 'Z'; break; default: *p++ = c; } }
	*p = 0; return p - to;
}
int STDCALL mysql_set_character_set(MYSQL *m, const char *cs) { Handle &x = W->at(m, "mysql_set_character_set"); if (x.broken) return W->fail(x, 2006); x.charset = cs; return 0; }
void STDCALL mysql_close(MYSQL *m) { Handle &x = W->at(m, "mysql_close", false); W->g->note("  close"); bool own = m->free_me; x = Handle(); ++W->closes; W->h.erase(m); if (own) free(m); }
}

static S genBytes(G &g) { if (g.chance(1, 100)) return g.blob(g.edge(g.chance(1, 10) ? 1 << 21 : 70000)); switch (g.u(6)) { case 0: return ""; case 1: return g.blob(g.size(40)); case 2: return S("a\0b", 3) + g.text(g.u(4), "xyz"); case 3: return std::to_string((long long)g.num64()); case 4: return g.blob(g.size(3000)); default: return g.text(g.size(20), "abc 0'\"\\%"); } }
static Table genTable(G &g, bool &dup)
{
	Table t; size_t nc = 1 + g.size(7), nr = g.size(g.thorough() ? 40 : 12); bool wide = g.chance(1, 50); if (wide) { nc = 1 + (g.b() ? g.edge(300) : 240 + g.u(60)); nr = g.u(4); } else if (g.chance(1, 60)) { nc = 1 + g.u(2); nr = g.edge(1100); } dup = false; std::set<S> seen;
	for (size_t i = 0; i < nc; ++i)
	{
		S c; switch (g.u(5)) { case 0: c = ""; break; case 1: c = g.text(1 + g.u(3), "aAbB"); break; case 2: c = "count(*)"; break; case 3: c = g.text(1 + g.u(64), "xyz_ \xc3\xa9."); break; default: c = "col" + std::to_string(i); }
		if (seen.count(c)) { if (!wide && g.chance(1, 12)) dup = true; else c += "#" + std::to_string(i); } seen.insert(c); t.cols.push_back(c);
	}
	for (size_t r = 0; r < nr; ++r) { std::vector<S> row; std::vector<bool> nul; for (size_t i = 0; i < nc; ++i) { bool n = g.chance(1, 6); nul.push_back(n); row.push_back(n ? "" : genBytes(g)); } t.rows.push_back(row); t.nul.push_back(nul); }
	return t;
}
struct Copy { lce::MySqlData d; std::shared_ptr<Table> t; unsigned long long affected; };
static void compare(G &g, Copy &c)
{
	const lce::MySqlData &d = c.d; const Table &t = *c.t;
	PBT_CHECK(g, d.num_rows() == t.rows.size() && d.num_fields() == t.cols.size(), "%zu rows of %zu fields instead of %zu of %zu", d.num_rows(), d.num_fields(), t.rows.size(), t.cols.size());
	PBT_CHECK(g, d.affected_rows() == c.affected, "%llu affected rows instead of %llu", (unsigned long long)d.affected_rows(), c.affected); PBT_CHECK(g, d.Fields() == t.cols, "the field names differ");
	for (size_t r = 0; r < t.rows.size(); ++r)
	{
		lce::MySqlRowData row = d[r];
		for (size_t i = 0; i < t.cols.size(); ++i) { const S &v = g.b() ? row[t.cols[i]] : d[r][t.cols[i]]; PBT_CHECK(g, v == t.rows[r][i], "row %zu field %s is %s instead of %s", r, quote(t.cols[i]).c_str(), quote(v, 60).c_str(), quote(t.rows[r][i], 60).c_str()); }
		if (g.chance(1, 4)) { bool ex = false; try { row["no such column"]; } catch (const lce::mysql_exception &e) { ex = S(e.what()).find("no such column") != S::npos; } PBT_CHECK(g, ex, "an unknown column does not throw"); }
	}
	for (size_t k = 0; k < 2; ++k) { size_t r = t.rows.size() + (k ? g.num64() >> 1 : 0); bool ex = false; try { d[r]; } catch (const lce::mysql_exception &) { ex = true; } PBT_CHECK(g, ex, "row %zu of %zu does not throw", r, t.rows.size()); }
}
static Answer genAnswer(G &g, bool &dup)
{
	Answer a; a.affected = 0; dup = false; a.kind = g.chance(1, 25) ? 2 + g.u(2) : g.chance(2, 3);
	if (a.kind == 0 || a.kind == 3) a.affected = g.chance(1, 3) ? g.num64() >> 1 : g.u(50); else a.t = genTable(g, dup);
	return a;
}
struct Expect { bool inited; S db, host, user, pass, charset; unsigned port; int ct, rt, wt; bool connAtSet; };
struct Life // the options of the connection in use are those of the moment it was made
{
	int ct, rt, wt; S charset;
};
static void client(G &g)
{
	World w; w.g = &g; W = &w; w.dbs.insert("main"); w.dbs.insert("log"); w.dbs.insert("d'b");
	bool faults = g.chance(3, 4); if (faults) { w.pLost = g.pick({0, 10, 40}); w.pErr = g.pick({0, 10, 30}); w.pConn = g.pick({0, 0, 20, 60}); w.pSel = g.pick({0, 0, 20}); }
	Expect x; x.inited = false; x.port = 0; x.ct = x.rt = x.wt = 2; w.wt[0] = &x.ct; w.wt[1] = &x.rt; w.wt[2] = &x.wt; size_t good = 0, retried = 0;
	{
		std::unique_ptr<lce::CMySql> m(new lce::CMySql); std::vector<Copy> kept; size_t n = 1 + g.size(g.thorough() ? 60 : 25);
		#define TRY(code) S ex; bool threw = false; w.lastErr.clear(); w.connMsg.clear(); size_t before = w.log.size(); (void)before; try { code; } catch (const lce::mysql_exception &e) { threw = true; ex = e.what(); if (ex.empty()) ex = "(no text)"; }
		for (size_t i = 0; i < n; ++i)
		{
			unsigned k = g.u(20); if (!x.inited && g.chance(4, 5)) k = 0;
			if (k == 0)
			{
				x.host = g.pick({"h1", "h2", "10.0.0.1"}); x.user = g.text(g.u(4), "uvw"); x.pass = g.text(g.u(6), "p'w%"); x.port = g.pick({3306, 3307, 65535}); x.charset = g.pick({"", "", "utf8", "gbk", g.chance(1, 6) ? "bad" : "utf8mb4"}); g.note("Init %s:%u charset %s", x.host.c_str(), x.port, x.charset.c_str());
				size_t c = w.connects; TRY(m->Init(x.host, x.user, x.pass, x.port, x.charset)); x.inited = true; x.db = "";
				PBT_CHECK(g, threw == !w.lastErr.empty(), "Init %s but the server said %s", threw ? "throws" : "does not throw", w.lastErr.c_str()); PBT_CHECK(g, threw || w.connects == c + 1, "Init does not connect"); PBT_CHECK(g, !threw || ex.find(w.lastErr) != S::npos, "Init throws %s instead of %s", ex.c_str(), w.lastErr.c_str()); g.labelIf(threw, "failed Init");
			}
			else if (k == 1) { int v = 1 + g.u(30); switch (g.u(3)) { case 0: m->setConnectTime(x.ct = v); break; case 1: m->setReadTime(x.rt = v); break; default: m->setWriteTime(x.wt = v); } g.note("timeout %d", v); }
			else if (k == 2 || k == 3)
			{
				S db = g.pick({"main", "log", "d'b", "main", g.chance(1, 3) ? "missing" : "log"}); g.note("use %s", db.c_str()); TRY(m->use(db)); x.db = db;
				if (!x.inited) { PBT_CHECK(g, threw, "use works without Init"); continue; }
				if (!threw) { size_t ok = 0; for (auto &h : w.h) ok += h.second.connected && h.second.db == db; PBT_CHECK(g, ok == 1, "use %s returns but the connection is not in that database", db.c_str()); }
				else PBT_CHECK(g, !w.lastErr.empty() && ex.find(w.lastErr) != S::npos, "use throws %s, the server said %s", ex.c_str(), w.lastErr.c_str());
			}
			else if (k == 4)
			{
				S cs = g.pick({"utf8", "latin1", "gbk", g.chance(1, 4) ? "bad" : "utf8"}); g.note("setCharSet %s", cs.c_str()); TRY(m->setCharSet(cs)); x.charset = cs;
				PBT_CHECK(g, !threw || (!w.lastErr.empty() && ex.find(w.lastErr) != S::npos), "setCharSet throws %s, the server said %s", ex.c_str(), w.lastErr.c_str());
			}
			else if (k == 5)
			{
				S s = genBytes(g); g.note("escape %zu bytes", s.size()); S r; TRY(if (g.chance(1, 4)) { s = s.c_str(); r = m->escape_string(s.c_str()); } else r = m->escape_string(s));
				if (!x.inited) { PBT_CHECK(g, threw, "escape_string works without Init"); continue; }
				if (threw) PBT_CHECK(g, ex.find(w.lastErr) != S::npos && !w.lastErr.empty(), "escape_string throws %s", ex.c_str());
				else { MYSQL tmp; W->h[&tmp].inited = W->h[&tmp].connected = true; std::vector<char> b(s.size() * 2 + 1); S want(b.data(), mysql_real_escape_string(&tmp, b.data(), s.data(), s.size())); W->h.erase(&tmp); PBT_CHECK(g, r == want, "%s is escaped to %s", quote(s, 60).c_str(), quote(r, 60).c_str()); }
			}
			else if (k == 6) { w.dead = g.b(); g.note("the server drops the connection: %d", w.dead); }
			else if (k < 15)
			{
				w.plan.clear(); bool dup = false, d2; size_t nres = g.chance(1, 6) ? 2 + g.u(3) : 1; for (size_t j = 0; j < nres; ++j) w.plan.push_back(genAnswer(g, j ? d2 : dup)); w.nextFails = nres > 1 && faults && g.chance(1, 4);
				S sql = g.chance(1, 5) ? genBytes(g) : g.text(g.size(40), "SELECT *;\n?"); g.note("query of %zu bytes, %zu results, %s", sql.size(), nres, w.plan[0].kind == 1 ? "rows" : w.plan[0].kind == 0 ? "no rows" : "fails");
				lce::MySqlData *got = NULL; TRY(got = new lce::MySqlData(m->query(sql))); std::unique_ptr<lce::MySqlData> own(got);
				if (!x.inited) { PBT_CHECK(g, threw, "query works without Init"); continue; }
				size_t ran = w.log.size() - before; PBT_CHECK(g, ran <= 2, "the statement is sent %zu times", ran);
				for (size_t j = before; j < w.log.size(); ++j)
				{
					Exec &e = w.log[j]; PBT_CHECK(g, e.sql == sql, "statement %s is sent as %s", quote(sql, 60).c_str(), quote(e.sql, 60).c_str()); PBT_CHECK(g, e.db == x.db, "the statement runs in database %s instead of %s", quote(e.db).c_str(), quote(x.db).c_str());
					PBT_CHECK(g, e.host == x.host && e.user == x.user && e.pass == x.pass && e.port == x.port, "the statement runs on %s@%s:%u instead of %s@%s:%u", e.user.c_str(), e.host.c_str(), e.port, x.user.c_str(), x.host.c_str(), x.port); PBT_CHECK(g, e.charset == x.charset, "the statement runs with character set %s instead of %s", e.charset.c_str(), x.charset.c_str());
				}
				bool lost = ran > 0 && (w.log[before].err == 2006 || w.log[before].err == 2013);
				if (ran == 2) { PBT_CHECK(g, lost, "the statement is sent again though the connection was not lost"); ++retried; }
				if (ran == 1 && lost) PBT_CHECK(g, threw && w.lastErr != w.log[before].msg, "a lost connection does not lead to a retry");
				if (ran == 0) PBT_CHECK(g, threw && !w.lastErr.empty(), "the statement is not sent%s%s", threw ? ": " : "", ex.c_str());
				bool ok = ran > 0 && w.log.back().err == 0, dupFail = ok && w.plan[0].kind == 1 && dup, bad = !ok || w.plan[0].kind > 1 || (w.nextFails && nres > 1);
				for (size_t j = 1; j < nres; ++j) if (w.plan[j].kind > 1 && !threw) { /* a later result that cannot be read may be skipped */ }
				if (threw && !bad && !dupFail && nres > 1) { bool later = false; for (size_t j = 1; j < nres; ++j) later |= w.plan[j].kind > 1; PBT_CHECK(g, later, "query throws %s", ex.c_str()); g.label("later result fails"); }
				else
				{
					PBT_CHECK(g, threw == (bad || dupFail), "query %s: %s, the server said %s", threw ? "throws" : "does not throw", ex.c_str(), w.lastErr.c_str());
					if (threw && bad && !dupFail) PBT_CHECK(g, !w.lastErr.empty() && ex.find(w.lastErr) != S::npos, "query throws %s instead of %s", ex.c_str(), w.lastErr.c_str());
				}
				g.labelIf(threw, "failed query"); g.labelIf(dupFail, "duplicate column names"); g.labelIf(nres > 1 && !threw, "several results");
				if (!threw) { Copy c = {*got, std::make_shared<Table>(w.plan[0].t), w.plan[0].kind == 0 ? w.plan[0].affected : 0}; compare(g, c); if (kept.size() < 6) kept.push_back(c); else kept[g.u(6)] = c; ++good; g.labelIf(w.plan[0].kind == 1, "rows"); }
			}
			else if (!kept.empty())
			{
				size_t a = g.u(kept.size()), b = g.u(kept.size());
				switch (k) { case 15: g.note("assign result %zu to %zu", a, b); { Copy &to = kept[b], &from = kept[a]; to.d = from.d; to.t = from.t; to.affected = from.affected; } break; case 16: g.note("drop result %zu", a); kept.erase(kept.begin() + a); break; case 17: g.note("copy result %zu", a); if (kept.size() < 8) { Copy c = kept[a]; kept.push_back(c); } break; case 18: g.note("assign result %zu to itself", a); { lce::MySqlData &self = kept[a].d; kept[a].d = self; } break; default: g.note("new client object"); m.reset(); m.reset(new lce::CMySql); x = Expect(); x.inited = false; x.port = 0; x.ct = x.rt = x.wt = 2; w.settle(); break; }
				for (auto &c : kept) compare(g, c);
				std::vector<std::pair<Copy *, size_t>> rows; for (auto &c : kept) if (!c.t->rows.empty()) rows.push_back({&c, g.u(c.t->rows.size())});
				if (!rows.empty()) // a row is assigned the rows of other results
				{
					auto p0 = g.pick(rows); lce::MySqlRowData row = p0.first->d[p0.second]; 
					for (size_t j = 0, nj = g.u(3); j < nj; ++j) { p0 = g.pick(rows); if (g.b()) row = p0.first->d[p0.second]; else { lce::MySqlRowData o(p0.first->d[p0.second]); row = o; } g.labelIf(p0.first->t->rows.size() > 0, "row assigned"); }
					for (size_t i2 = 0; i2 < p0.first->t->cols.size(); ++i2) { const S &v = row[p0.first->t->cols[i2]]; PBT_CHECK(g, v == p0.first->t->rows[p0.second][i2], "a row variable: field %s is %s instead of %s", quote(p0.first->t->cols[i2]).c_str(), quote(v, 60).c_str(), quote(p0.first->t->rows[p0.second][i2], 60).c_str()); }
				}
			}
			PBT_CHECK(g, w.res.empty(), "%zu result sets are not freed", w.res.size()); size_t open = 0; for (auto &h : w.h) open += h.second.inited; PBT_CHECK(g, open <= 1, "%zu database handles are open", open);
		}
		if (g.b()) { m.reset(); for (auto &c : kept) compare(g, c); }
	}
	w.settle(); if (good && w.connects) g.nontrivial(); g.labelIf(retried, "retried after a lost connection"); g.labelIf(w.drained, "further results skipped"); g.labelIf(w.connects > 1, "several connections");
}
// nothing is kept per statement
static void release(G &g)
{
	World w; w.g = &g; W = &w; w.dbs.insert("main"); unsigned mode = g.u(4); if (mode == 1) w.pErr = 100; if (mode == 2) w.pLost = 50; if (mode == 3) w.pConn = 0;
	lce::CMySql m; m.Init("h", "u", "p"); m.use("main"); bool dup; w.plan.push_back(genAnswer(g, dup)); if (g.b()) w.plan.push_back(genAnswer(g, dup)); S sql = genBytes(g); size_t base = 0;
	for (size_t i = 0; i < 320; ++i)
	{
		try { lce::MySqlData d = m.query(sql), e = d; e = d; } catch (const lce::mysql_exception &) {}
		w.log.clear(); w.lastErr.clear(); std::vector<Exec>().swap(w.log); if (i == 20) base = __sanitizer_get_current_allocated_bytes();
	}
	size_t now = __sanitizer_get_current_allocated_bytes(); g.note("mode %u: %zu then %zu bytes", mode, base, now); PBT_CHECK(g, now <= base + 2400, "300 more statements leave %zu more bytes allocated", now - base); g.nontrivial();
}
int main(int argc, char **argv)
{
	std::vector<Suite> s;
	Suite a = {"client", client, 15000, 300000, "1-25 client operations (Init, use, character set, timeouts, escape, query, copies of results) with planned server outcomes; non-trivial: at least one successful statement", 10000, 0};
	Suite b = {"release", release, 300, 4000, "320 times the same statement; memory does not grow; non-trivial: all", 10000, 0};
	s.push_back(a); s.push_back(b);
	return pbtMain(argc, argv, "C31", s);
}
