#include "common.h"
// C22: a system call that is refused once (no memory, no descriptor, no space, no thread ...) does no lasting harm; every fallible call of every history below is refused in turn
struct GF { Mon mon; int32_t fd[5][3]; int8_t flag[8]; int16_t r[8]; Res res[5]; int8_t k; };
static GF& gf(){ return ghost<GF>(); }
static int F(int i){ return gf().fd[self_proc()][i]; }
static Scenario& sc(const std::string& n, int np, int qp, int tp){ Scenario& s = mk("C22", strdup(n.c_str()), np, qp, tp); s.rest_ms = 30; s.allow_stuck = false; return s; }
static int pick(int n){ int h = choose((n + 23) / 24, "refused call"); int l = choose(n - h * 24 < 24 ? n - h * 24 : 24, "refused call"); return h * 24 + l + 1; }
static void sound(int p, const char* when)   // what an attached process may have at most
{
	Res r = vres(p), q = gf().res[0];
	REQUIRE(r.umask == 022, "%s: umask is %o", when, r.umask); REQUIRE(r.fds <= q.fds, "%s: %d descriptors, %d without the refusal", when, r.fds, q.fds); REQUIRE(r.maps <= q.maps, "%s: %d mappings, %d without the refusal", when, r.maps, q.maps);
	REQUIRE(r.threads <= q.threads && r.unjoined <= q.unjoined, "%s: %d threads, %d not joined; %d and %d without the refusal", when, r.threads, r.unjoined, q.threads, q.unjoined); REQUIRE(r.watches <= q.watches, "%s: %d watches, %d without the refusal", when, r.watches, q.watches);
}
// the peer finds mutex "m" and the range locked / free
static void ask(int want, const char* when){ GF& g = gf(); g.flag[1] = (int8_t)(want ? 1 : 2); gate([&g]{ return g.flag[1] == 0; }); if(want) REQUIRE(g.r[1] == EBUSY && g.r[2] == EBUSY, "%s: another process got the locks of the caller (%d, %d)", when, g.r[1], g.r[2]); else REQUIRE(g.r[1] == 0 && g.r[2] == 0, "%s: another process did not get the free locks (%d, %d)", when, g.r[1], g.r[2]); }
static void peer(){ GF& g = gf(); for(;;){ gate([&g]{ return g.flag[1] || g.flag[0] == 99; }); if(g.flag[0] == 99) return; g.r[1] = (int16_t)m_try("m"); if(!g.r[1]) m_unlock("m"); g.r[2] = (int16_t)r_trywr(F(0), 0, 10); if(!g.r[2]) r_un(F(0), 0, 10); g.flag[1] = 0; } }
static void works(const char* when){ EXPECT(m_lock("m"), 0); EXPECT(r_wr(F(0), 0, 10), 0); ask(1, when); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(m_unlock("m"), 0); ask(0, when); }
static void files(Scenario& s, int np){ s.setup = [np]{ vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); }; }
void reg_fault()
{
	static const char* rob[] = {"NO", "LOW", "HIGH"}; static const char* nm[] = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY"}; static const char* nmn[] = {"allow-once", "deny-once", "allow", "deny"};
	// the first call of a process; the file is missing, made by another process that still runs, or left behind
	for(int st = 0; st < 3; st++) for(int ro = 0; ro < 3; ro++) for(int m = 0; m < 4; m++){
		static const char* sn[] = {"new", "used", "left"}; if(ro == 2 && m < 2) continue;
		Scenario& s = sc(std::string("first-") + sn[st] + "-" + rob[ro] + "-" + nmn[m], 3, ro ? 0 : 0, 1); s.env["FLCKROBUSTMODE"] = rob[ro]; s.env["p1:FLCKROBUSTMODE"] = "NO"; s.env["FLCKNOMAPMODE"] = nm[m]; s.env["p1:FLCKNOMAPMODE"] = "DENY";
		s.setup = [st]{ vmkdir("/tmp/fl"); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < 3; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); if(st == 1) in_proc(1, []{ EXPECT(m_lock("other"), 0); }); if(st == 2) in_proc(1, []{ EXPECT(m_lock("other"), 0); EXPECT(r_rd(F(0), 50, 10), 0); }); if(st == 2) kill_proc(1); };
		int peerp = st == 2 ? 2 : 1; s.env["p2:FLCKROBUSTMODE"] = st == 2 ? "NO" : rob[ro]; s.env["p2:FLCKNOMAPMODE"] = st == 2 ? "DENY" : nm[m];
		s.threads = {{0, [m, st]{
			int k = pick(34); vfault(k); int r = m_try("n"); bool hit = vfaulted(0) > 0; vfault(0);
			bool att = vres(0).maps > 0; if(m & 1) REQUIRE(r == (att ? 0 : ENOLCK) || r == ENOLCK, "the first call answers %d", r); else REQUIRE(r == 0, "the first call answers %d", r);
			if(!hit) REQUIRE(r == 0 && att, "the first call answers %d although no system call was refused", r);
			if(m >= 2 || att){ if(m >= 2) EXPECT(m_lock("x"), 0); } else { REQUIRE(m_try("x") == (m & 1 ? ENOLCK : 0), "a call without the shared file answers differently now"); EXPECT(reinit(nullptr, nullptr), true); }
			if(m >= 2) EXPECT(m_unlock("x"), 0);
			works("after a refused system call"); quiesce(1); gf().res[1] = vres(0); gf().flag[0] = 98; (void)st; }},
			{peerp, []{ peer(); }}, {peerp == 1 ? 2 : 0, [peerp]{ GF& g = gf(); gate([&g]{ return g.flag[0] == 98; }); if(peerp == 1){ m_try("n"); m_lock("x"); m_unlock("x"); quiesce(1); g.res[0] = vres(2); } g.flag[0] = 99; }}};
		s.final_proc = 0; s.final_check = [peerp]{ if(peerp == 1) sound(0, "after the first calls"); else { Res r = vres(0); REQUIRE(r.umask == 022, "umask is %o", r.umask); REQUIRE(r.maps == 1 && r.unjoined <= 1 && r.threads <= 3, "%d mappings, %d threads, %d not joined", r.maps, r.threads, r.unjoined); } };
	}
	// a reinitialisation: to the same file, to another (new or used), with the locks free
	for(int to = 0; to < 3; to++) for(int ro = 0; ro < 3; ro++) for(int m = 1; m < 4; m++){
		static const char* tn[] = {"same", "new", "used"}; if(ro == 2 && m == 1) continue; const char* f = to ? "B" : nullptr;
		Scenario& s = sc(std::string("reinit-") + tn[to] + "-" + rob[ro] + "-" + nmn[m], 3, 0, 1); s.env["FLCKROBUSTMODE"] = rob[ro]; s.env["p1:FLCKROBUSTMODE"] = "NO"; s.env["FLCKNOMAPMODE"] = nm[m]; s.env["p1:FLCKNOMAPMODE"] = "DENY";
		s.setup = [to]{ vmkdir("/tmp/fl"); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < 3; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); in_proc(0, []{ m_unlock("warm"); }); in_proc(2, []{ m_unlock("warm"); }); if(to == 2) in_proc(1, []{ EXPECT(reinit(nullptr, "B"), true); EXPECT(m_lock("other"), 0); }); if(to == 0) in_proc(1, []{ EXPECT(m_lock("other"), 0); }); };
		s.threads = {{0, [m, f]{
			int k = pick(34); vfault(k); bool ok = reinit(nullptr, f); bool hit = vfaulted(0) > 0; vfault(0); if(!hit) REQUIRE(ok, "the reinitialization fails although no system call was refused");
			if(!ok){ bool att = vres(0).maps > 0; int r = m_try("x"); if(m >= 2) REQUIRE(r == 0, "the next call answers %d", r); else REQUIRE(r == (att ? 0 : ENOLCK), "the next call answers %d", r); if(m == 1) EXPECT(reinit(nullptr, f), true); else EXPECT(m_unlock("x"), 0); }
			gf().flag[2] = 1; works("after a reinitialization with a refused system call"); quiesce(1); gf().flag[0] = 98; }},
			{1, [f]{ gate([]{ return gf().flag[2] != 0; }); if(f) EXPECT(reinit(nullptr, f), true); peer(); }}, {2, [f]{ GF& g = gf(); gate([&g]{ return g.flag[0] == 98; }); EXPECT(reinit(nullptr, f), true); m_try("n"); m_lock("x"); m_unlock("x"); quiesce(1); g.res[0] = vres(2); g.flag[0] = 99; }}};
		s.final_proc = 0; s.final_check = []{ sound(0, "after the reinitialization"); };
	}
	// processes (and threads of one process) that start at the same moment, one of them meets a refusal
	for(int k = 0; k < 4; k++){
		static const char* sn[] = {"procs", "procs-watch", "threads", "threads-watch"}; bool thr = k >= 2, w = k & 1;
		Scenario& s = sc(std::string("race-") + sn[k], 3, w ? 0 : 1, w ? 1 : 2); s.env["FLCKROBUSTMODE"] = w ? "HIGH" : "NO"; s.env["FLCKNOMAPMODE"] = "DENY_RETRY"; s.env["p2:FLCKROBUSTMODE"] = "NO";
		s.setup = []{ vmkdir("/tmp/fl"); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < 3; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); };
		auto body = []{ GF& g = gf(); for(int n = 0; ; n++){ int r = m_lock("m"); if(!r) break; REQUIRE(r == ENOLCK && n < 2 && vfaulted(0), "m_lock answers %d", r); } enter_w(0, "mutex"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); g.flag[3]++; };
		s.threads = {{0, [body]{ vfault(pick(24)); body(); vfault(0); }}, {thr ? 0 : 1, body}, {2, [body]{ gate([]{ return gf().flag[3] == 2; }); EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); }}};
		s.final_proc = 0; s.final_check = []{ for(int p = 0; p < 2; p++){ Res r = vres(p); REQUIRE(r.umask == 022 && r.maps <= 1 && r.unjoined <= 1, "process %d: umask %o, %d mappings, %d threads not joined", p, r.umask, r.maps, r.unjoined); } };
	}
	// looking for dead holders: a refusal never makes a living holder look dead, and a dead one is found all the same
	for(int kind = 0; kind < 3; kind++) for(int dead = 0; dead < 2; dead++) for(int ro = 1; ro < 3; ro++){
		static const char* kn[] = {"mutex", "write", "read"}; if(dead && ro == 1) continue;
		Scenario& s = sc(std::string("look-") + kn[kind] + (dead ? "-dead" : "-alive") + (ro == 1 ? "-watch" : ""), 3, ro == 1 ? 0 : 1, 2); s.rest_ms = 30; if(ro == 1) s.env["p0:FLCKROBUSTMODE"] = "LOW";
		s.setup = [kind, ro]{ vmkdir("/data"); vmkfile("/data/f"); if(ro == 2) warm_high(3, 50); else warm(3); for(int p = 0; p < 3; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); in_proc(1, [kind]{ if(kind == 0) EXPECT(m_lock("m"), 0); else if(kind == 1) EXPECT(r_wr(F(0), 0, 10), 0); else EXPECT(r_rd(F(0), 0, 10), 0); }); };
		s.threads = {{0, [kind, ro, dead]{ GF& g = gf(); vfault(choose(12, "refused call") + 1); if(ro == 1){ quiesce(2); gate([&g]{ return g.flag[4] != 0; }); EXPECT(kind ? r_trywr(F(0), 0, 10) : m_try("m"), EBUSY); g.flag[5] = 1; }
				EXPECT(kind ? r_wr(F(0), 0, 10) : m_lock("m"), 0); REQUIRE(dead || g.flag[6], "the lock of a living holder was taken"); EXPECT(kind ? r_un(F(0), 0, 10) : m_unlock("m"), 0); vfault(0); }},
			{1, [kind, ro, dead]{ GF& g = gf(); if(dead) die(); if(ro == 1) gate([&g]{ return g.flag[5] != 0; }); g.flag[6] = 1; EXPECT(kind ? r_un(F(0), 0, 10) : m_unlock("m"), 0); }}, {2, [ro]{ if(ro == 1) exit_process(); }}};
		if(ro == 1) s.threads.push_back({0, []{ gate([]{ return !proc_alive(2); }); quiesce(2); gf().flag[4] = 1; }});
	}
	// the watching thread meets a refusal while it looks after a death: the lock is given back all the same
	for(int kind = 0; kind < 3; kind++) for(int z = 0; z < 2; z++){
		static const char* kn[] = {"mutex", "write", "read"};
		Scenario& s = sc(std::string("watch-") + kn[kind] + (z ? "-end" : "-death"), 2, 1, 2); s.env["p0:FLCKROBUSTMODE"] = "LOW"; s.env["p1:FLCKROBUSTMODE"] = "NO";
		s.setup = [kind]{ vmkdir("/data"); vmkfile("/data/f"); warm(2); for(int p = 0; p < 2; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); in_proc(1, [kind]{ if(kind == 0) EXPECT(m_lock("m"), 0); else if(kind == 1) EXPECT(r_wr(F(0), 0, 10), 0); else EXPECT(r_rd(F(0), 0, 10), 0); }); };
		s.rest_ms = 1000; s.threads = {{0, [kind]{ vfault(choose(12, "refused call") + 1); }}, {1, [z]{ if(z) exit_process(); die(); }}};
		s.final_check = [kind]{ vfault(0); int r = kind ? r_trywr(F(0), 0, 10) : m_try("m"); REQUIRE(r == 0, "a second after the death the watching thread has not given the lock back (try returned %d)", r); EXPECT(kind ? r_un(F(0), 0, 10) : m_unlock("m"), 0); };
	}
	// fork: the child works also when one of its first steps is refused
	for(int ro = 0; ro < 3; ro++){
		Scenario& s = sc(std::string("fork-") + rob[ro], 3, 0, 1); s.env["FLCKROBUSTMODE"] = rob[ro]; s.env["p1:FLCKROBUSTMODE"] = "NO";
		s.setup = []{ vmkdir("/data"); vmkfile("/data/f"); warm(2); for(int p = 0; p < 2; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); in_proc(0, []{ EXPECT(m_lock("mine"), 0); }); };
		s.threads = {{0, []{ int k = choose(14, "refused call") + 1; vfault(k); fork_proc([]{ vfault(0); gf().fd[self_proc()][0] = gf().fd[0][0]; EXPECT(m_try("mine"), EBUSY); EXPECT(m_unlock("mine"), EPERM); works("in the child"); Res r = vres(self_proc()); REQUIRE(r.maps == 1 && r.unjoined <= 1 && r.umask == 022, "the child has %d mappings, %d threads not joined, umask %o", r.maps, r.unjoined, r.umask); gf().flag[0] = 97; gate([]{ return gf().flag[0] == 98; }); exit_process(); }); vfault(0); gate([]{ return gf().flag[0] == 97; }); EXPECT(m_unlock("mine"), 0); works("in the parent"); gf().flag[0] = 98; }}, {1, []{ GF& g = gf(); for(;;){ gate([&g]{ return g.flag[1] || g.flag[0] == 98; }); if(!g.flag[1]) return; g.r[1] = (int16_t)m_try("m"); if(!g.r[1]) m_unlock("m"); g.r[2] = (int16_t)r_trywr(F(0), 0, 10); if(!g.r[2]) r_un(F(0), 0, 10); g.flag[1] = 0; } }}};
	}
	// the working directory cannot be made or found: the answer is that of the configuration, and nothing breaks
	for(int k = 0; k < 4; k++){
		static const char* dn[] = {"made", "relative", "reinit-made", "reinit-relative"}; const char* d = k & 1 ? "rel/x" : "/tmp/a/b"; bool re = k >= 2;
		Scenario& s = sc(std::string("dir-") + dn[k], 1, 0, 0); s.env["FLCKROBUSTMODE"] = "NO"; if(!re) s.env["FLCKDIRPATH"] = d; s.env["FLCKNOMAPMODE"] = "DENY_RETRY";
		s.setup = []{ vmkdir("/cwd"); vmkdir("/tmp/fl"); };
		s.threads = {{0, [re, d]{ if(re){ m_unlock("w"); EXPECT(m_lock("k"), 0); } vfault(choose(20, "refused call") + 1); if(re){ bool ok = reinit(d, nullptr); bool hit = vfaulted(0) > 0; vfault(0); REQUIRE(ok || hit, "refused"); if(ok) REQUIRE(vexists(((d[0] == 0x2f ? "" : "/cwd/") + std::string(d) + "/shm").c_str()) || vexists(((d[0] == 0x2f ? "" : "/cwd/") + std::string(d) + "/.fullock/shm").c_str()), "the reinitialization succeeds, the shared file is elsewhere"); } else m_try("m"); bool hit = vfaulted(0) > 0; vfault(0); (void)hit; EXPECT(m_lock("z"), 0); EXPECT(m_unlock("z"), 0); EXPECT(reinit(d, nullptr), true); EXPECT(m_lock("z"), 0); EXPECT(m_unlock("z"), 0); Res r = vres(0); REQUIRE(r.umask == 022 && r.maps == 1, "umask %o, %d mappings", r.umask, r.maps); std::string f = std::string(d[0] == '/' ? "" : "/cwd/") + d; REQUIRE(vexists((f + "/shm").c_str()) || vexists((f + "/.fullock/shm").c_str()), "the shared file is not where it was configured"); }}};
	}
	// interrupted (EINTR) calls and transfers of half of the data are not failures: nothing shows
	for(int st = 0; st < 3; st++) for(int ro = 0; ro < 2; ro++){
		static const char* sn[] = {"new", "used", "left"};
		Scenario& s = sc(std::string("part-first-") + sn[st] + "-" + rob[ro], 3, 0, 1); s.env["FLCKROBUSTMODE"] = rob[ro]; s.env["p1:FLCKROBUSTMODE"] = "NO"; s.env["FLCKNOMAPMODE"] = "DENY"; s.env["p2:FLCKROBUSTMODE"] = st == 2 ? "NO" : rob[ro];
		s.setup = [st]{ vmkdir("/tmp/fl"); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < 3; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); if(st) in_proc(1, []{ EXPECT(m_lock("other"), 0); }); if(st == 2) kill_proc(1); };
		int peerp = st == 2 ? 2 : 1;
		s.threads = {{0, []{ vfault(pick(40), true); EXPECT(m_lock("n"), 0); EXPECT(m_try("x"), 0); EXPECT(m_unlock("x"), 0); works("after an interrupted call"); EXPECT(m_unlock("n"), 0); EXPECT(m_timed("n", 100000), 0); EXPECT(m_unlock("n"), 0); vfault(0); quiesce(1); gf().res[1] = vres(0); gf().flag[0] = 98; }},
			{peerp, []{ peer(); }}, {peerp == 1 ? 2 : 0, [peerp]{ GF& g = gf(); gate([&g]{ return g.flag[0] == 98; }); if(peerp == 1){ EXPECT(m_try("n"), 0); EXPECT(m_unlock("n"), 0); m_lock("x"); m_unlock("x"); quiesce(1); g.res[0] = vres(2); } g.flag[0] = 99; }}};
		s.final_proc = 0; s.final_check = [peerp]{ if(peerp == 1) sound(0, "after an interrupted call"); };
	}
	for(int k = 0; k < 2; k++) for(int w = 0; w < 2; w++){
		Scenario& s = sc(std::string("part-race-") + (k ? "threads" : "procs") + (w ? "-watch" : ""), 3, w ? 0 : 1, w ? 1 : 2); s.env["FLCKROBUSTMODE"] = w ? "HIGH" : "NO"; s.env["FLCKNOMAPMODE"] = "DENY"; s.env["p2:FLCKROBUSTMODE"] = "NO";
		s.setup = []{ vmkdir("/tmp/fl"); };
		auto body = []{ GF& g = gf(); EXPECT(m_lock("m"), 0); enter_w(0, "mutex"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); g.flag[3]++; };
		s.threads = {{0, [body]{ vfault(pick(24), true); body(); vfault(0); }}, {k ? 0 : 1, body}, {2, []{ gate([]{ return gf().flag[3] == 2; }); EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); }}};
	}
	for(int kind = 0; kind < 4; kind++) for(int to = 0; to < 2; to++){   // waiting calls: an interruption neither ends nor shortens the wait
		static const char* kn[] = {"mutex", "write", "read", "cond"};
		Scenario& s = sc(std::string("part-wait-") + kn[kind] + (to ? "-timed" : ""), 2, 1, 2); s.calm = true;
		s.setup = [kind]{ vmkdir("/data"); vmkfile("/data/f"); warm(2); for(int p = 0; p < 2; p++) in_proc(p, []{ gf().fd[self_proc()][0] = vopen("/data/f"); }); if(kind != 3) in_proc(1, [kind]{ if(kind == 0) EXPECT(m_lock("m"), 0); else EXPECT(r_wr(F(0), 0, 10), 0); }); };
		s.threads = {{0, [kind, to]{ GF& g = gf(); vfault(choose(8, "interrupted call") + 1, true); int64_t t0 = now(); const long us = 50000; int r;
				if(kind == 0) r = to ? m_timed("m", us) : m_lock("m"); else if(kind == 1) r = to ? r_twr(F(0), 0, 10, us) : r_wr(F(0), 0, 10); else if(kind == 2) r = to ? r_trd(F(0), 0, 10, us) : r_rd(F(0), 0, 10); else { EXPECT(m_lock("m"), 0); g.flag[2] = 1; r = to ? c_twait("c", "m", us) : c_wait("c", "m"); }
				vfault(0); if(to && r == ETIMEDOUT) REQUIRE(now() >= t0 + us * 1000, "the call ends before its timeout"); else REQUIRE(r == 0 && g.flag[1], "the call answers %d%s", r, g.flag[1] ? "" : " too early"); if(r == 0 || kind == 3){ EXPECT(kind == 0 || kind == 3 ? m_unlock("m") : r_un(F(0), 0, 10), 0); } }},
			{1, [kind]{ GF& g = gf(); settle(); if(kind == 3){ gate([&g]{ return g.flag[2]; }); EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); } g.flag[1] = 1; if(kind == 3) c_signal("c"); else EXPECT(kind == 0 ? m_unlock("m") : r_un(F(0), 0, 10), 0); }}};
	}
	(void)files;
}
