#include "common.h"
// C14: fork of a process that uses the library
struct GF { Mon mon; int32_t fd[5][2]; int8_t flag[8]; };
static GF& gf(){ return ghost<GF>(); }
static int F(int i){ return gf().fd[self_proc()][i]; }
static int acq(int o, int wr){ return o ? (wr ? r_wr(F(0), 0, 10) : r_rd(F(0), 0, 10)) : m_lock("m"); }
static int tryacq(int o, int wr){ return o ? (wr ? r_trywr(F(0), 0, 10) : r_tryrd(F(0), 0, 10)) : m_try("m"); }
static int timedacq(int o, int wr, long us){ return o ? (wr ? r_twr(F(0), 0, 10, us) : r_trd(F(0), 0, 10, us)) : m_timed("m", us); }
static int rel(int o){ return o ? r_un(F(0), 0, 10) : m_unlock("m"); }
static void in(int o, int wr, const char* w){ if(wr || !o) enter_w(o, w); else enter_r(o, w); }
static void out(int o, int wr){ if(wr || !o) leave_w(o); else leave_r(o); }
static void use(int o, int wr, const char* w){ EXPECT(acq(o, wr), 0); in(o, wr, w); point(); out(o, wr); EXPECT(rel(o), 0); }
static void openf(){ gf().fd[self_proc()][0] = vopen("/data/f"); }
// the child has copies of the parent's descriptors
static int fork_(const std::function<void()>& body){ int par = self_proc(); return fork_proc([par, body]{ GF& g = gf(); memcpy(g.fd[self_proc()], g.fd[par], sizeof g.fd[0]); body(); }); }
static Scenario& sc(const char* n, int np, int qp, int tp, int high, int attached = 9)
{
	Scenario& s = mk("C14", n, np, qp + 1, tp);
	s.setup = [np, high, attached]{ if(high) warm_high(np < attached ? np : attached); else warm(np < attached ? np : attached); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, []{ openf(); }); };
	return s;
}
static void all_free(){ for(int o = 0; o < 2; o++){  EXPECT(acq(o, 1), 0); EXPECT(rel(o), 0); EXPECT(tryacq(o, 1), 0); EXPECT(rel(o), 0); } }
void reg_fork()
{
	for(int o = 0; o < 2; o++){
		auto nm = [o](const char* n){ return std::string(n) + (o ? "-range" : "-mutex"); };
		// the child's own locks are as good as anybody's: a waiter that looks for dead holders does not take them
		{	Scenario& s = sc(nm("child-holds").c_str(), 2, 2, 4, 1);
			s.threads = {{0, [o]{ fork_([o]{ use(o, 1, "child"); use(o, 0, "child"); }); }}, {1, [o]{ use(o, 1, "other"); use(o, 1, "other"); }}};
			s.final_check = all_free; }
		{	Scenario& s = sc(nm("child-vs-parent").c_str(), 1, 2, 4, 1);
			s.threads = {{0, [o]{ fork_([o]{ use(o, 1, "child"); }); use(o, 1, "parent"); }}}; s.final_check = all_free; }
		{	Scenario& s = sc(nm("siblings").c_str(), 1, 1, 2, 1);
			s.threads = {{0, [o]{ fork_([o]{ use(o, 1, "child 1"); }); fork_([o]{ use(o, 1, "child 2"); }); }}}; s.final_check = all_free; }
		{	Scenario& s = sc(nm("grandchild").c_str(), 1, 1, 2, 1);
			s.threads = {{0, [o]{ fork_([o]{ fork_([o]{ use(o, 1, "grandchild"); }); use(o, 1, "child"); }); }}}; s.final_check = all_free; }
		{	Scenario& s = sc(nm("child-thread").c_str(), 2, 1, 3, 1);
			s.threads = {{0, [o]{ fork_([o]{ spawn([o]{ use(o, 1, "thread of child"); }); use(o, 1, "child"); }); }}, {1, [o]{ use(o, 1, "other"); }}}; s.final_check = all_free; }
		// the child does not own what its parent holds, cannot release it and its end does not release it
		for(int wr = o ? 0 : 1; wr < 2; wr++) for(int end = 0; end < 2; end++) for(int hi = 0; hi < 2; hi++){
			Scenario& s = sc((nm("parent-holds") + (wr ? "-w" : "-r") + (end ? "-exit" : "") + (hi ? "-hi" : "")).c_str(), 2, 1, 3, hi);
			s.threads = {{0, [o, wr, end]{
				EXPECT(acq(o, wr), 0); in(o, wr, "parent");
				fork_([o, wr, end]{ GF& g = gf();
					if(o == 0){ EXPECT(m_try("m"), EBUSY); EXPECT(m_unlock("m"), EPERM); EXPECT(m_try("m"), EBUSY); }
					else { EXPECT(r_trywr(F(0), 0, 10), EBUSY); int r = r_un(F(0), 0, 10); REQUIRE(r == EINVAL, "unlock by a forked child of a lock its parent holds returned %d", r); EXPECT(r_trywr(F(0), 0, 10), EBUSY); if(!wr){ EXPECT(r_tryrd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); } }
					g.flag[0] = 1; if(end) exit_process(); });
				gate([end]{ return gf().flag[0] && (!end || !proc_alive(2)); }); point(); out(o, wr); EXPECT(rel(o), 0); }},
				{1, [o]{ use(o, 1, "other"); }}};
			s.final_check = all_free; }
		// the parent's end does not release what the child holds, its death gives back only its own
		for(int k = 0; k < 2; k++){
			Scenario& s = sc((nm(k ? "parent-dies" : "parent-exits")).c_str(), 2, 2, 3, 1);
			s.threads = {{0, [o, k]{ if(k) EXPECT(acq(1 - o, 1), 0); fork_([o]{ use(o, 1, "child"); }); if(k) die(); exit_process(); }}, {1, [o, k]{ use(o, 1, "other"); if(k) use(1 - o, 1, "other"); }}};
			s.final_proc = 1; s.final_check = all_free; }
		// the shared file is not formatted again under a child that outlives its parent
		for(int k = 0; k < 2; k++){
			Scenario& s = sc((nm(k ? "newcomer-after-child" : "newcomer")).c_str(), 2, 1, 3, 0, 1);
			s.threads = {{0, [o]{ fork_([o]{ GF& g = gf(); EXPECT(acq(o, 1), 0); in(o, 1, "child"); g.flag[0] = 1; gate([&g]{ return g.flag[1]; }); point(); out(o, 1); EXPECT(rel(o), 0); }); exit_process(); }},
				{1, [o, k]{ GF& g = gf(); if(k) gate([&g]{ return g.flag[0] && !proc_alive(0); }); int r = tryacq(o, 1); REQUIRE(r == 0 || r == EBUSY, "trylock of a process started later returned %d", r); if(!r){ in(o, 1, "newcomer"); point(); out(o, 1); EXPECT(rel(o), 0); } g.flag[1] = 1; use(o, 1, "newcomer"); }}};
			s.final_proc = 1; s.final_check = all_free; }
		// the watching thread is started in the child as well
		for(int mode = 0; mode < 2; mode++){
			Scenario& s = mk("C14", (nm("child-watches") + (mode ? "-high" : "-low")).c_str(), 2, 1, 2);
			s.env["FLCKROBUSTMODE"] = mode ? "HIGH" : "LOW"; s.env["p1:FLCKROBUSTMODE"] = "NO"; s.calm = true;
			s.setup = []{ warm(2); vmkdir("/data"); vmkfile("/data/f"); in_proc(0, []{ openf(); }); in_proc(1, []{ openf(); }); };
			s.threads = {{0, [o]{ fork_([o]{ GF& g = gf(); settle(); g.flag[2] = 1; gate([&g]{ return g.flag[0]; }); int r = timedacq(o, 1, 900000); REQUIRE(r == 0, "a timed lock call in a forked child returned %d although the holder is dead and the child has its own watching thread", r); EXPECT(rel(o), 0); g.flag[1] = 1; }); die(); }},
				{1, [o]{ GF& g = gf(); gate([&g]{ return g.flag[2] && !proc_alive(0); }); EXPECT(acq(o, 1), 0); g.flag[0] = 1; die(); }}};
			s.final_proc = 2; s.rest_ms = 30; s.final_check = []{}; }
	}
	// a forked process that dies is noticed by the watching threads of its parent, its children and its siblings
	for(int o = 0; o < 2; o++) for(int mode = 0; mode < 2; mode++) for(int who = 0; who < 4; who++){
		static const char* wn[] = {"child", "parent", "sibling", "grandparent"};
		Scenario& s = mk("C14", (std::string("family-death-") + wn[who] + (o ? "-range" : "-mutex") + (mode ? "-high" : "-low")).c_str(), 1, 1, 2);
		s.env["FLCKROBUSTMODE"] = mode ? "HIGH" : "LOW"; s.calm = true; s.rest_ms = 30;
		s.setup = []{ warm(1); vmkdir("/data"); vmkfile("/data/f"); in_proc(0, []{ openf(); }); };
		auto hold = [o]{ EXPECT(acq(o, 1), 0); gf().flag[0] = 1; gate([]{ return gf().flag[2]; }); die(); };
		auto want = [o](int w){ GF& g = gf(); gate([&g]{ return g.flag[0]; }); settle(); EXPECT(tryacq(o, 1), EBUSY); g.flag[2] = 1; gate([w]{ return !proc_alive(w); }); int r = timedacq(o, 1, 900000); REQUIRE(r == 0, "a timed lock call of a process with a watching thread returned %d although the holder is dead", r); EXPECT(rel(o), 0); g.flag[1] = 1; };
		if(who == 0) s.threads = {{0, [hold, want]{ fork_(hold); want(1); }}};
		if(who == 1) s.threads = {{0, [hold, want]{ fork_([want]{ want(0); }); hold(); }}};
		if(who == 2) s.threads = {{0, [hold, want]{ fork_(hold); fork_([want]{ want(1); }); }}};
		if(who == 3) s.threads = {{0, [hold, want]{ fork_([want, hold]{ fork_([want]{ want(0); }); }); hold(); }}};
		s.final_proc = who == 1 ? 1 : who == 3 ? 2 : 0; s.final_check = []{ REQUIRE(gf().flag[1], "nobody got the lock"); }; }
	for(int k = 0; k < 3; k++){ // exactly one watching thread per process, however often the library was set up again; an orderly end stops it
		Scenario& s = mk("C14", ("one-watcher-" + std::to_string(k)).c_str(), 1, 0, 1); s.env["FLCKROBUSTMODE"] = "HIGH"; s.calm = true;
		s.setup = []{ warm(1); vmkdir("/data"); vmkfile("/data/f"); in_proc(0, []{ openf(); }); };
		s.threads = {{0, [k]{ for(int i = 0; i < k; i++) REQUIRE(reinit(nullptr, nullptr), "re-initialisation failed"); int n = nthreads(0); REQUIRE(n == 2, "after %d re-initialisations the process has %d watching threads", k, n - 1);
			fork_([]{ settle(); int n = nthreads(1); REQUIRE(n == 2, "a forked child has %d watching threads instead of one", n - 1); use(0, 1, "child"); use(1, 1, "child"); exit_process(); }); gate([]{ return !proc_alive(1); }); }}};
		s.final_check = all_free; }
}
