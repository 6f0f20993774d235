#include "common.h"
// C12 capacity and resource conservation
#define NOFD(v) ((int)(0x80000000u | (v)))
enum { NF = 6 };
struct GC { Mon mon; SeqG seq; int32_t fd[4][NF]; int8_t fuse; struct { int8_t used, agent, fi, rng, wr; } acq[10]; int8_t filen[NF], offn[NF][8]; int8_t nm[8], owner[8], cnt[8]; int8_t flag[8]; };
static GC& gc(){ return ghost<GC>(); }
static int F(int i){ return gc().fd[self_proc()][i]; }
static void setupc(int np, bool (*fu)(void), bool high = false)
{
	if(high) warm_high(np); else warm(np);
	vmkdir("/data"); char b[16]; for(int i = 0; i < NF; i++){ sprintf(b, "/data/%c", 'a' + i); vmkfile(b); }
	for(int p = 0; p < np; p++) in_proc(p, [p, fu]{ char c[16]; for(int i = 0; i < NF; i++){ sprintf(c, "/data/%c", 'a' + i); gc().fd[p][i] = vopen(c); } if(fu) b_call(fu, "freeunit"); });
}
// the configured number of each resource is available (again): lockers, ranges, files
static void probe(int files, int ranges, int lockers, int first_file_used, int fresh_ranges_ok = 1)
{
	for(int i = 0; i < lockers; i++){ int r = r_rd(F(0), 0, 10); REQUIRE(r == 0, "only %d of %d lock entries are available", i, lockers); }
	EXPECT(r_rd(F(0), 0, 10), ENOLCK);
	for(int i = 0; i < lockers; i++) EXPECT(r_un(F(0), 0, 10), 0);
	if(fresh_ranges_ok){
		for(int i = 0; i < ranges; i++){ int r = r_wr(F(0), i * 10, 10); REQUIRE(r == 0, "only %d of %d range entries are available", i, ranges); }
		EXPECT(r_trywr(F(0), 990, 10), ENOLCK);
		for(int i = 0; i < ranges; i++) EXPECT(r_un(F(0), i * 10, 10), 0);
	}
	if(files){ for(int i = first_file_used; i < files; i++){ int r = r_wr(F(i), 0, 10); REQUIRE(r == 0, "only %d of %d file entries are available", i, files); } EXPECT(r_trywr(F(files), 0, 10), ENOLCK); for(int i = first_file_used; i < files; i++) EXPECT(r_un(F(i), 0, 10), 0); }
	for(int i = 0; i < files; i++) EXPECT(r_is(F(i), 0, 10), 0);
}
// histories with tiny capacities; fu: 0 FD, 1 OFFSET, 2 NO
static void cap_seq(const char* name, int depth, int tdepth, int fu, int nfile, int noff, int nlk, int nrng, std::vector<int> procs)
{
	for(int th = 0; th < 2; th++){
	std::string nm = std::string(name) + (th ? "-deep" : ""); Scenario& s = mk("C12", nm.c_str(), 2, th ? -1 : 0, 0); s.seq_only = true; if(!th) s.thorough.max_sec = 1;
	s.env["FLCKFILECNT"] = std::to_string(nfile); s.env["FLCKOFFETCNT"] = std::to_string(noff); s.env["FLCKLOCKERCNT"] = std::to_string(nlk);
	s.setup = [fu]{ setupc(2, fu == 0 ? A.free_fd : fu == 1 ? A.free_off : A.free_no); };
	SeqDef d{(int)procs.size(), th ? tdepth : depth}; int nf = nfile + 1;
	auto step = [=](int me){
		GC& g = gc(); int fi = choose(nf, "file"), k = choose(nrng, "range"), op = nrng > 2 ? (choose(2, "op") ? 3 : 1) : choose(4, "op"); long of = k * 10;
		if(op == 3){
			int m = -1; for(int i = 0; i < 10; i++) if(g.acq[i].used && g.acq[i].agent == me && g.acq[i].fi == fi && g.acq[i].rng == k){ m = i; if(g.acq[i].wr) break; }
			int r = r_un(F(fi), of, 10); REQUIRE(r == (m >= 0 ? 0 : EINVAL), "unlock returned %d, %s", r, m >= 0 ? "but the lock is held" : "expected EINVAL"); if(m >= 0) memset(&g.acq[m], 0, sizeof g.acq[m]);
		}else{
			int used = 0, files = 0, offs = 0; bool hasf = false, haso = false, busy = false; bool wr = op > 0;
			bool fn[NF] = {}, on[NF][8] = {};
			for(auto& a : g.acq) if(a.used){ used++; fn[(int)a.fi] = on[(int)a.fi][(int)a.rng] = true; if(a.fi == fi && a.rng == k && (wr || a.wr)) busy = true; }
			for(int i = 0; i < NF; i++){ if(fu >= 1 && g.filen[i]) fn[i] = true; files += fn[i]; for(int j = 0; j < 8; j++){ if(fu == 2 && g.offn[i][j]) on[i][j] = true; offs += on[i][j]; } }
			hasf = fn[fi]; haso = on[fi][k]; bool full = used >= nlk || (!hasf && files >= nfile) || (!haso && offs >= noff);
			int r = op == 0 ? r_tryrd(F(fi), of, 10) : op == 1 ? r_trywr(F(fi), of, 10) : r_twr(F(fi), of, 10, 2000);
			if(full) REQUIRE(r == ENOLCK || (busy && r == EBUSY), "with all entries in use the lock call returned %d, expected ENOLCK", r);
			else REQUIRE(r == (busy ? (op == 2 ? ETIMEDOUT : EBUSY) : 0), "lock call returned %d, expected %d (%d locks, %d files, %d ranges in use)", r, busy ? (op == 2 ? ETIMEDOUT : EBUSY) : 0, used, files, offs);
			if(!r) for(auto& a : g.acq) if(!a.used){ a.used = 1; a.agent = (int8_t)me; a.fi = (int8_t)fi; a.rng = (int8_t)k; a.wr = wr; break; }
			if(r == 0 || files < nfile || hasf) g.filen[fi] = 1;
			if(r == 0 || ((files < nfile || hasf) && (offs < noff || haso))) g.offn[fi][k] = 1;
		}
		for(int i = 0; i < 10; i++) for(int j = i + 1; j < 10; j++) if(memcmp(&g.acq[i], &g.acq[j], sizeof g.acq[0]) < 0) std::swap(g.acq[i], g.acq[j]);
		for(int f2 = 0; f2 < nf; f2++) for(int k2 = 0; k2 < nrng; k2++){ bool b = false; for(auto& a : g.acq) if(a.used && a.fi == f2 && a.rng == k2) b = true; int got = r_is(F(f2), k2 * 10, 10); REQUIRE(got == b, "after a call that returned an error or was undone, islocked(file %d, range %d) is %d, expected %d", f2, k2, got, b); }
	};
	for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [i, d, step]{ seq_agent<GC>((int)i, d, step); for(auto& a : gc().acq) if(a.used && a.agent == (int)i){ EXPECT(r_un(F(a.fi), a.rng * 10, 10), 0); a.used = 0; } }});
	s.final_check = [=]{ if(fu == 0) probe(nfile, noff, nlk, 0); else if(fu == 1 && gc().filen[0]) probe(0, noff, nlk, 0); };
	}
}
static void conc(const char* name, int qp, int tp, int fu, std::vector<int> procs, std::function<void(int)> body, bool high = false)
{
	Scenario& s = mk("C12", name, 3, qp, tp);
	s.env["FLCKFILECNT"] = "3"; s.env["FLCKOFFETCNT"] = "4"; s.env["FLCKLOCKERCNT"] = "5";
	s.setup = [fu, high]{ setupc(3, fu == 0 ? A.free_fd : fu == 1 ? A.free_off : A.free_no, high); if(fu) in_proc(0, []{ for(int i = 0; i < 3; i++){ EXPECT(r_wr(F(i), 0, 10), 0); EXPECT(r_un(F(i), 0, 10), 0); } }); };
	for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [body, i]{ body((int)i); }});
	s.final_check = [fu]{ if(fu == 0) probe(3, 4, 5, 0); else if(fu == 1) probe(0, 4, 5, 0); else probe(0, 0, 5, 0, 0); };
}
// all n waiter entries are available: n threads can wait at once (the n+1st is refused)
static void waiters_free(int n)
{
	int p = self_proc(); (void)p;
	for(int i = 0; i < n + 1; i++){ EXPECT(m_lock("m"), 0); int r = c_twait("c", "m", 1000); REQUIRE(r == ETIMEDOUT, "a later wait on the condition variable returned %d, expected ETIMEDOUT", r); EXPECT(m_unlock("m"), 0); }
}
void reg_cap()
{
	cap_seq("cap-seq-fd", 5, 7, 0, 1, 4, 4, 2, {0,1});
	cap_seq("cap-seq-fd-files", 5, 6, 0, 2, 4, 4, 1, {0,1});
	cap_seq("cap-seq-fd-ranges", 6, 8, 0, 1, 4, 6, 5, {0});
	cap_seq("cap-seq-offset", 5, 7, 1, 1, 4, 4, 2, {0,1});
	cap_seq("cap-seq-offset-files", 5, 7, 1, 2, 4, 4, 1, {0,1});
	cap_seq("cap-seq-offset-ranges", 6, 8, 1, 1, 4, 6, 5, {0});
	cap_seq("cap-seq-no", 5, 7, 2, 1, 4, 4, 2, {0,1});
	cap_seq("cap-seq-no-ranges", 6, 8, 2, 1, 4, 6, 5, {0});
	cap_seq("cap-seq-no-files", 5, 7, 2, 2, 4, 5, 2, {0});
	// the unit of freeing changes between the calls, or differs between the processes: what was kept is given back by later calls of a process in the FD mode
	for(int v = 0; v < 4; v++) for(int th = 0; th < 2; th++){
		static const char* vn[] = {"", "-2", "-mixed", "-death"};
		Scenario& s = mk("C12", strdup((std::string("cap-switch") + vn[v] + (th ? "-deep" : "")).c_str()), 3, th ? -1 : 0, 0); s.seq_only = v != 3; s.env["FLCKFILECNT"] = "2"; s.env["FLCKOFFETCNT"] = "4"; s.env["FLCKLOCKERCNT"] = "5";
		s.setup = [v]{ setupc(3, A.free_fd, v == 3); if(v == 2) in_proc(1, []{ b_call(A.free_no, "freeunit"); }); };
		SeqDef d{v ? 2 : 1, th ? (v == 3 ? 6 : v ? 5 : 7) : v ? 4 : 5};
		auto step = [v](int me){
			GC& g = gc(); int8_t (*held)[8] = &g.offn[me * 2]; int n = 0; for(int f = 0; f < 2; f++) for(int k = 0; k < 3; k++) n += held[f][k];
			static const long of[] = {0, 20, 40}; int op = choose(v == 2 && me ? 6 : 9, "op");
			if(op < 6){ int f = op & 1, k = op >> 1; if(held[f][k]){ EXPECT(r_un(F(f), of[k], 10), 0); held[f][k] = 0; } else { int r = r_tryrd(F(f), of[k], 10); if(n == 0 && !v) REQUIRE(r == 0 || r == ENOLCK, "lock answers %d", r); if(!r) held[f][k] = 1; } }
			else { g.flag[me] = (int8_t)(op - 6); b_call(op == 6 ? A.free_fd : op == 7 ? A.free_off : A.free_no, "freeunit"); }
		};
		int na = v ? 2 : 1; for(int a = 0; a < na; a++) s.threads.push_back({a, [a, d, step, v]{ seq_agent<GC>(a, d, step); if(v == 3 && a == 1) die(); for(int f = 0; f < 2; f++) for(int k = 0; k < 3; k++) if(gc().offn[a * 2 + f][k]) EXPECT(r_un(F(f), k * 20, 10), 0); gc().flag[4 + a] = 1; }});
		s.final_proc = 2; s.final_check = [v]{ for(int f = 0; f < 2; f++){ for(int k = 0; k < (v == 3 ? 3 : 1); k++){ int r = r_wr(F(f), k * 20, 10); if(r == ENOLCK) continue; REQUIRE(r == 0, "lock answers %d", r); EXPECT(r_un(F(f), k * 20, 10), 0); } } probe(2, 4, 5, 0); };
	}
	for(int fu = 0; fu < 3; fu++){
		static const char* fn[] = {"fd", "offset", "no"};
		auto nm = [fu](const char* a){ return std::string(a) + "-" + fn[fu]; };
		conc(nm("cap-fail").c_str(), 2, 3, fu, {0,1,2}, [](int t){ if(t == 0){ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); } else if(t == 1){ int r = r_trywr(F(0), 0, 10); if(!r) EXPECT(r_un(F(0), 0, 10), 0); } else { int r = r_tryrd(F(0), 0, 10); if(!r) EXPECT(r_un(F(0), 0, 10), 0); } });
		conc(nm("cap-timed").c_str(), 1, 2, fu, {0,1,2}, [](int t){ if(t == 0){ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); } else { int r = t == 1 ? r_trd(F(0), 0, 10, 1000) : r_twr(F(0), 0, 10, 1000); if(!r) EXPECT(r_un(F(0), 0, 10), 0); } });
		conc(nm("cap-2files").c_str(), 2, 3, fu, {0,1}, [](int t){ EXPECT(r_wr(F(t), 0, 10), 0); int r = r_trywr(F(1 - t), 0, 10); if(!r) EXPECT(r_un(F(1 - t), 0, 10), 0); EXPECT(r_un(F(t), 0, 10), 0); });
		conc(nm("cap-fail-reuse").c_str(), 3, 4, fu, {0,1}, [](int t){ if(t == 0){ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(1), 0, 10), 0); EXPECT(r_un(F(1), 0, 10), 0); } else { int r = r_trywr(F(0), 0, 10); if(!r) EXPECT(r_un(F(0), 0, 10), 0); } });
		conc(nm("cap-ranges").c_str(), 2, 3, fu, {0,1}, [](int t){ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(0), t * 10, 10), 0); EXPECT(r_un(F(0), t * 10, 10), 0); });
		conc(nm("cap-fail-two").c_str(), 3, 4, fu, {0,1}, [](int t){ if(t == 0){ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_wr(F(0), 10, 10), 0); EXPECT(r_un(F(0), 10, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(1), 0, 10), 0); EXPECT(r_un(F(1), 0, 10), 0); } else { int r = r_trywr(F(0), 10, 10); if(!r) EXPECT(r_un(F(0), 10, 10), 0); } });
		conc(nm("cap-unl").c_str(), 2, 4, fu, {0,1}, [](int t){ if(t) { EXPECT(r_un(F(0), 0, 10), EINVAL); EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), EINVAL); } else { EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); } });
		conc(nm("cap-exhaust").c_str(), 2, 3, fu, {0,1}, [](int){ int got = 0; for(int i = 0; i < 3; i++){ int r = r_rd(F(0), 0, 10); REQUIRE(r == 0 || r == ENOLCK, "rdlock returned %d", r); got += !r; } point(); for(int i = 0; i < got; i++) EXPECT(r_un(F(0), 0, 10), 0); });
		conc(nm("cap-exhaust-ranges").c_str(), 2, 3, fu, {0,1}, [](int t){ int got[3]; for(int i = 0; i < 3; i++){ int r = r_wr(F(0), (t * 3 + i) * 10, 10); REQUIRE(r == 0 || r == ENOLCK, "wrlock returned %d", r); got[i] = !r; } for(int i = 0; i < 3; i++) if(got[i]) EXPECT(r_un(F(0), (t * 3 + i) * 10, 10), 0); });
	}
	// named mutexes: the configured number of names, created in any order by anybody, no duplicates, failing creation has no effect
	auto names = [](const char* name, int qp, int tp, int np, std::vector<int> procs, std::function<void(int)> body, int distinct){
		Scenario& s = mk("C12", name, np, qp, tp); s.env["FLCKNMTXCNT"] = "3"; s.setup = [np]{ warm(np); };
		for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [body, i]{ body((int)i); }});
		s.final_check = [distinct]{ static const char* nn[] = {"n0","n1","n2"}; for(int i = distinct; i < 3; i++){ int r = m_lock(nn[i]); REQUIRE(r == 0, "only %d of 3 mutex names are available", i); } EXPECT(m_try("too-many"), ENOLCK); for(int i = distinct; i < 3; i++) EXPECT(m_unlock(nn[i]), 0); EXPECT(m_try("too-many"), ENOLCK); for(int i = 0; i < 3; i++){ EXPECT(m_try(nn[i]), 0); EXPECT(m_unlock(nn[i]), 0); } };
	};
	static const char* nn[] = {"n0","n1","n2"};
	names("cap-names-same", 3, 4, 2, {0,1}, [](int t){ int r = t ? m_try("n0") : m_lock("n0"); if(!r) EXPECT(m_unlock("n0"), 0); }, 1);
	names("cap-names-same-3", 2, 3, 3, {0,1,2}, [](int){ EXPECT(m_lock("n0"), 0); EXPECT(m_unlock("n0"), 0); }, 1);
	names("cap-names-cross", 2, 3, 2, {0,1}, [](int t){ for(int i = 0; i < 2; i++){ const char* n = nn[(t + i) % 2]; EXPECT(m_lock(n), 0); EXPECT(m_unlock(n), 0); } }, 2);
	names("cap-names-timeout", 2, 3, 2, {0,1}, [](int t){ int r = t ? m_timed("n0", 1000) : m_lock("n0"); if(!r) EXPECT(m_unlock("n0"), 0); }, 1);
	{	// more names than entries: exactly the configured number is created, the rest is refused without harm
		Scenario& s = mk("C12", "cap-names-exhaust", 2, 2, 3); s.env["FLCKNMTXCNT"] = "2"; s.setup = []{ warm(2); };
		for(int t = 0; t < 2; t++) s.threads.push_back({t, [t]{ for(int i = 0; i < 2; i++){ const char* n = i ? nn[2] : nn[t]; int r = m_lock(n); REQUIRE(r == 0 || r == ENOLCK, "mutex lock returned %d", r); gc().nm[t * 4 + i] = r ? 2 : 1; if(!r) EXPECT(m_unlock(n), 0); } }});
		s.final_check = []{ int ok = 0; for(int i = 0; i < 3; i++){ int r = m_try(nn[i]); REQUIRE(r == 0 || r == ENOLCK, "trylock returned %d", r); if(!r){ ok++; EXPECT(m_unlock(nn[i]), 0); } } REQUIRE(ok == 2, "%d mutex names exist, 2 configured", ok); EXPECT(m_try("other"), ENOLCK); };
	}
	{	// mutex histories over more names than capacity
		for(int th = 0; th < 2; th++){
		Scenario& s = mk("C12", th ? "cap-names-seq-deep" : "cap-names-seq", 2, th ? -1 : 0, 0); s.seq_only = true; s.env["FLCKNMTXCNT"] = "2"; s.setup = []{ warm(2); };
		SeqDef d{2, th ? 9 : 6};
		auto step = [](int me){ GC& g = gc(); int k = choose(3, "name"), op = choose(2, "op"); int n = g.nm[0] + g.nm[1] + g.nm[2];
			if(op == 0){ int r = m_try(nn[k]); if(!g.nm[k] && n >= 2) EXPECT(r, ENOLCK); else { g.nm[k] = 1; bool ok = !g.owner[k] || g.owner[k] == me + 1; EXPECT(r, ok ? 0 : EBUSY); if(ok){ g.owner[k] = (int8_t)(me + 1); g.cnt[k]++; } } }
			else { int r = m_unlock(nn[k]); if(!g.nm[k]) EXPECT(r, EINVAL); else if(g.owner[k] == me + 1){ EXPECT(r, 0); if(!--g.cnt[k]) g.owner[k] = 0; } else EXPECT(r, g.owner[k] ? EPERM : 0); } };
		for(int i = 0; i < 2; i++) s.threads.push_back({i, [i, d, step]{ seq_agent<GC>(i, d, step); }});
		}
	}
	// condition variable waiters: every way a wait can end returns the waiter entry (3 of 4 entries are occupied by threads that never wake up)
	for(int v = 0; v < 4; v++){
		static const char* vn[] = {"timeout", "signal", "broadcast", "race"};
		Scenario& s = mk("C12", (std::string("cap-waiter-") + vn[v]).c_str(), 3, 2, 3); s.calm = true; s.env["FLCKWAITERCNT"] = "4"; s.env["FLCKNCONDCNT"] = "2"; s.setup = []{ warm(3); };
		s.threads.push_back({0, [v]{ settle(); EXPECT(m_lock("m"), 0); int r = c_twait("c", "m", v == 0 || v == 3 ? 1000 : 3000000); REQUIRE(r == 0 || r == ETIMEDOUT || r == EBUSY, "timedwait returned %d", r); int u = m_unlock("m"); (void)u; gc().flag[0] = 1; }});
		s.threads.push_back({1, [v]{ settle(); if(v == 0){ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); } else { EXPECT(m_lock("m"), 0); int r = v == 2 ? c_bcast("c") : c_signal("c"); REQUIRE(r == 0 || r == EINVAL, "signal returned %d", r); EXPECT(m_unlock("m"), 0); } }});
		for(int t = 0; t < 3; t++){ s.threads.push_back({2, []{ EXPECT(m_lock("dm"), 0); c_wait("d", "dm"); fail("a wait on a condition variable that nobody signals returned"); }}); s.threads.back().daemon = true; }
		s.final_check = []{ waiters_free(2); };
	}
	// refused waits (mutex of another thread, unknown mutex, no name) use up no entry
	for(int v = 0; v < 6; v++){
		static const char* vn[] = {"owner", "unknown", "null"}; bool tm = v >= 3; int k = v % 3;
		Scenario& s = mk("C12", (std::string("cap-waiter-refused-") + vn[k] + (tm ? "-timed" : "")).c_str(), 3, 2, 4); s.calm = true; s.env["FLCKWAITERCNT"] = "4"; s.env["FLCKNCONDCNT"] = "3"; s.setup = []{ warm(3); };
		s.threads.push_back({0, []{ EXPECT(m_lock("m"), 0); gc().flag[0] = 1; gate([]{ return gc().flag[1]; }); EXPECT(m_unlock("m"), 0); }});
		s.threads.push_back({1, [k, tm]{ gate([]{ return gc().flag[0]; }); settle(); const char* mn = k == 0 ? "m" : k == 1 ? "?" : nullptr; for(int i = 0; i < 2; i++) for(const char* cn : {"c", "e", "c"}){ int r = tm ? c_twait(cn, mn, 1000) : c_wait(cn, mn); REQUIRE(r == (k == 0 ? EPERM : EINVAL), "a wait with %s returned %d", k == 0 ? "a mutex of another thread" : k == 1 ? "an unknown mutex" : "no mutex name", r); } gc().flag[1] = 1; }});
		for(int t = 0; t < 3; t++){ s.threads.push_back({2, []{ EXPECT(m_lock("dm"), 0); c_wait("d", "dm"); fail("a wait on a condition variable that nobody signals returned"); }}); s.threads.back().daemon = true; }
		s.final_check = []{ waiters_free(2); EXPECT(m_lock("m"), 0); EXPECT(c_twait("e2", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); };
	}
	// refused wait: nothing allocated, mutex still held, other waiters unharmed
	for(int v = 0; v < 2; v++){
		Scenario& s = mk("C12", v ? "cap-waiter-full-timed" : "cap-waiter-full", 3, 1, 2); s.calm = true; s.env["FLCKWAITERCNT"] = "4"; s.env["FLCKNCONDCNT"] = "2"; s.setup = []{ warm(3); };
		for(int t = 0; t < 4; t++) s.threads.push_back({t / 2, []{ EXPECT(m_lock("m"), 0); gc().flag[0]++; EXPECT(c_wait("c", "m"), 0); EXPECT(m_unlock("m"), 0); }});
		s.threads.push_back({2, [v]{ settle(); EXPECT(m_lock("m"), 0); int r = v ? c_twait("c", "m", 1000) : c_wait("c", "m"); REQUIRE(r == ENOLCK, "wait with all waiter entries in use returned %d", r); r = m_unlock("m"); REQUIRE(r == 0, "after a refused wait the caller does not hold the mutex any more (unlock %d)", r); for(int i = 0; i < 4; i++) EXPECT(c_signal("c"), 0); }});
		s.final_check = []{ waiters_free(4); };
	}
}
