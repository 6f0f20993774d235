#include "common.h"
// C13: attaching to / formatting the shared file
struct GI { Mon mon; int32_t fd[5][2]; int8_t flag[8]; };
static GI& gi(){ return ghost<GI>(); }
static int F(){ return gi().fd[self_proc()][0]; }
static int acq(int o, int wr){ return o ? (wr ? r_wr(F(), 0, 10) : r_rd(F(), 0, 10)) : m_lock("m"); }
static int tryacq(int o, int wr){ return o ? (wr ? r_trywr(F(), 0, 10) : r_tryrd(F(), 0, 10)) : m_try("m"); }
static int rel(int o){ return o ? r_un(F(), 0, 10) : m_unlock("m"); }
static void use(int o, const char* w){ int r = acq(o, 1); REQUIRE(r == 0, "a lock call of %s without time limit returned %d", w, r); enter_w(o, w); point(); leave_w(o); EXPECT(rel(o), 0); }
static void tryuse(int o, const char* w){ int r = tryacq(o, 1); REQUIRE(r == 0 || r == EBUSY, "a try call of %s returned %d", w, r); if(r) return; enter_w(o, w); point(); leave_w(o); EXPECT(rel(o), 0); }
static void all_free(){ for(int o = 0; o < 2; o++){ EXPECT(tryacq(o, 1), 0); EXPECT(rel(o), 0); } }
static void capacity() // the whole area is in order: exactly the configured number of entries
{
	for(int i = 0; i < 8; i++) EXPECT(r_rd(F(), 0, 10), 0);
	EXPECT(r_rd(F(), 0, 10), ENOLCK); for(int i = 0; i < 8; i++) EXPECT(r_un(F(), 0, 10), 0);
	for(int i = 0; i < 6; i++) EXPECT(r_wr(F(), i * 10, 10), 0);
	EXPECT(r_wr(F(), 900, 10), ENOLCK); for(int i = 0; i < 6; i++) EXPECT(r_un(F(), i * 10, 10), 0);
}
static Scenario& sc(const char* n, int np, int qp, int tp, bool allow, std::function<void()> before = nullptr)
{
	Scenario& s = mk("C13", n, np, qp, tp); s.env["FLCKNOMAPMODE"] = allow ? "ALLOW_NORETRY" : "DENY_NORETRY"; s.env["FLCKFILECNT"] = "1"; s.env["FLCKNMTXCNT"] = "1"; s.env["FLCKNCONDCNT"] = "1"; s.env["FLCKWAITERCNT"] = "4";
	s.setup = [before, np]{ vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, []{ gi().fd[self_proc()][0] = vopen("/data/f"); }); if(before) before(); };
	s.final_check = []{ all_free(); capacity(); };
	return s;
}
// a file left behind by an earlier process that died holding everything
static void stale(){ in_proc(4, []{ EXPECT(acq(0, 1), 0); EXPECT(acq(1, 1), 0); }); kill_proc(4); }
void reg_init()
{
	for(int al = 0; al < 2; al++) for(int o = 0; o < 2; o++) for(int st = 0; st < 3; st++){
		std::string x = std::string(o ? "range" : "mutex") + (al ? "-allow" : "-deny") + (st == 1 ? "-dir" : st == 2 ? "-stale" : "");
		std::function<void()> b; if(st == 1) b = []{ vmkdir("/tmp/fl"); }; if(st == 2) b = stale;
		{ Scenario& s = sc(("start2-" + x).c_str(), st == 2 ? 5 : 2, 2, 4, al, b); s.threads = {{0, [o]{ use(o, "process 0"); }}, {1, [o]{ use(o, "process 1"); }}}; }
		{ Scenario& s = sc(("start3-" + x).c_str(), st == 2 ? 5 : 3, 1, 2, al, b); s.threads = {{0, [o]{ use(o, "process 0"); }}, {1, [o]{ use(o, "process 1"); }}, {2, [o]{ use(o, "process 2"); }}}; }
		{ Scenario& s = sc(("leave-" + x).c_str(), st == 2 ? 5 : 2, 2, 3, al, b); s.threads = {{0, [o]{ use(o, "process 0"); exit_process(); }}, {1, [o]{ use(o, "process 1"); use(o, "process 1"); }}}; s.final_proc = 1; }
		{ Scenario& s = sc(("die-" + x).c_str(), st == 2 ? 5 : 2, 2, 3, al, b); s.quick.crash = s.thorough.crash = 1; s.crashable = 1; s.crash_any = true;
		  s.threads = {{0, [o]{ m_unlock("warm"); gate([]{ return false; }); (void)o; }}, {1, [o]{ use(o, "process 1"); }}}; s.allow_stuck = true; s.final_proc = 1; }
		{ Scenario& s = sc(("die3-" + x).c_str(), st == 2 ? 5 : 3, 1, 2, al, b); s.quick.crash = s.thorough.crash = 1; s.crashable = 1; s.crash_any = true;
		  s.threads = {{0, [o]{ m_unlock("warm"); gate([]{ return false; }); (void)o; }}, {1, [o]{ use(o, "process 1"); }}, {2, [o]{ use(o, "process 2"); }}}; s.allow_stuck = true; s.final_proc = 1; }
	}
	for(int o = 0; o < 2; o++) for(int hi = 0; hi < 2; hi++){
		std::string x = std::string(o ? "range" : "mutex") + (hi ? "-watch" : "");
		auto rob = [hi](Scenario& s){ if(hi){ s.env["FLCKROBUSTMODE"] = "LOW"; s.rest_ms = 30; s.quick.preempt = 1; s.thorough.preempt = 2; } };
		// several threads of one process make the first call at the same time
		{ Scenario& s = sc(("threads-" + x).c_str(), 2, 1, 2, false); rob(s); s.threads = {{0, [o]{ use(o, "thread 0"); }}, {0, [o]{ use(o, "thread 1"); }}, {1, [o]{ use(o, "process 1"); }}}; }
		// a process that starts later finds the locks of those that run
		{ Scenario& s = sc(("joins-" + x).c_str(), 2, 2, 4, false, []{ in_proc(0, []{ m_unlock("warm"); }); }); rob(s);
		  s.threads = {{0, [o]{ use(o, "process 0"); use(o, "process 0"); }}, {1, [o]{ tryuse(o, "process 1"); use(o, "process 1"); }}}; }
		// the last one ends (killed, not holding anything) while the next one starts
		{ Scenario& s = sc(("killed-" + x).c_str(), 2, 2, 3, false); rob(s); s.threads = {{0, [o]{ use(o, "process 0"); die(); }}, {1, [o]{ use(o, "process 1"); tryuse(o, "process 1"); use(o, "process 1"); }}}; s.final_proc = 1; }
		// ... having died with a lock: the next one starts from a clean area once nobody is left
		if(!hi){ Scenario& s = sc(("clean-" + x).c_str(), 3, 1, 3, false); s.threads = {{0, [o]{ EXPECT(acq(o, 1), 0); die(); }}, {1, [o]{ gate([]{ return !proc_alive(0); }); use(o, "process 1"); }}, {2, [o]{ gate([]{ return !proc_alive(0); }); use(o, "process 2"); }}}; s.final_proc = 1; }
		// different sizes configured: whoever comes second uses the area as it is
		for(int k = 0; k < 2; k++){ Scenario& s = sc(("sizes-" + x + (k ? "-big" : "-small")).c_str(), 2, 1, 3, false, []{ in_proc(0, []{ m_unlock("warm"); }); }); rob(s); s.env["p1:FLCKOFFETCNT"] = k ? "200" : "4"; s.env["p1:FLCKLOCKERCNT"] = k ? "300" : "4"; s.env["p1:FLCKFILECNT"] = k ? "60" : "1";
		  s.threads = {{0, [o]{ use(o, "process 0"); }}, {1, [o]{ use(o, "process 1"); }}}; s.final_proc = 1; }
		{ Scenario& s = sc(("sizes-" + x + "-race").c_str(), 2, 2, 3, false); rob(s); s.env["p1:FLCKOFFETCNT"] = "200"; s.env["p1:FLCKLOCKERCNT"] = "300";
		  s.threads = {{0, [o]{ use(o, "process 0"); }}, {1, [o]{ use(o, "process 1"); }}}; s.final_check = all_free; }
	}
}
