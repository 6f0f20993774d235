#include "common.h"
// C09 death of a process in the middle of a library call
struct GM { Mon mon; int32_t fd[4]; int8_t done, ph, flag[8], ins[4][4]; }; // ph: what process 1 is doing: 1 in a lock call, 2 holding, 3 in an unlock call, 4 done
static GM& gm(){ return ghost<GM>(); }
static int F(){ return gm().fd[self_proc()]; }
// objects: 0 mutex a, 1 mutex b, 2 range [0,10), 3 range [20,30)
static int acq(int o, int wr){ return o < 2 ? m_lock(o ? "b" : "a") : wr ? r_wr(F(), o == 3 ? 20 : 0, 10) : r_rd(F(), o == 3 ? 20 : 0, 10); }
static int tryacq(int o, int wr){ return o < 2 ? m_try(o ? "b" : "a") : wr ? r_trywr(F(), o == 3 ? 20 : 0, 10) : r_tryrd(F(), o == 3 ? 20 : 0, 10); }
static int tmacq(int o, int wr, long us){ return o < 2 ? m_timed(o ? "b" : "a", us) : wr ? r_twr(F(), o == 3 ? 20 : 0, 10, us) : r_trd(F(), o == 3 ? 20 : 0, 10, us); }
static int rel(int o){ return o < 2 ? m_unlock(o ? "b" : "a") : r_un(F(), o == 3 ? 20 : 0, 10); }
static void must(int o, int wr){ int r = acq(o, wr); REQUIRE(r == 0, "a lock call without time limit returned %d", r); }
static bool gone(){ return !proc_alive(1) || gm().ph == 4; }
static const char* when(){ int p = gm().ph; return proc_alive(1) ? "" : p == 1 ? " (process 1 was killed inside a lock call)" : p == 3 ? " (process 1 was killed inside an unlock call)" : p == 2 ? " (process 1 was killed between its calls)" : ""; }
// who is inside which object; the dead do not count
static void in(int o, int wr){ int w = wr || o < 2, me = self_proc(); for(int p = 0; p < 4; p++) if(p != me && gm().ins[p][o] && (w || gm().ins[p][o] == 2) && proc_alive(p)) fail("mutual exclusion broken%s: process %d got object %d (%s) while live process %d holds it (%s)", when(), me, o, w ? "write" : "read", p, gm().ins[p][o] == 2 ? "write" : "read"); gm().ins[me][o] = (int8_t)(1 + w); }
static void out(int o, int wr){ (void)wr; gm().ins[self_proc()][o] = 0; }
static void use(int o, int wr){ must(o, wr); in(o, wr); point(); out(o, wr); int r = rel(o); REQUIRE(r == 0, "unlock of a held lock returned %d", r); }
static Scenario& sc(const std::string& n, int np, int qp, int tp, bool (*Api::*fu)(void) = nullptr)
{
	Scenario& s = mk("C09", n.c_str(), np, qp, tp); s.quick.crash = s.thorough.crash = 1; s.crashable = 2;
	s.setup = [np, fu]{ warm_high(np); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, [fu]{ gm().fd[self_proc()] = vopen("/data/f"); if(fu) b_call(A.*fu, "freeunit"); }); };
	s.stuck_msg = []{ return std::string("deadlock: a lock call waits forever although nobody alive holds the lock") + when(); };
	s.final_check = []{ for(int o = 0; o < 4; o++){ must(o, 1); EXPECT(rel(o), 0); } for(int o = 0; o < 4; o++){ int r = tryacq(o, 1); REQUIRE(r == 0, "after everybody is gone, object %d is still locked (%d)", o, r); EXPECT(rel(o), 0); } };
	return s;
}
static const char* on[] = {"mutex", "mutex2", "range", "range2"};
static void vict(int o, int wr, int how){ gm().ph = 1; int r = how == 0 ? acq(o, wr) : how == 1 ? tryacq(o, wr) : tmacq(o, wr, 2000); REQUIRE(r == 0 || (how == 1 && r == EBUSY) || (how == 2 && r == ETIMEDOUT), "lock call returned %d", r); if(!r){ in(o, wr); gm().ph = 2; point(); out(o, wr); gm().ph = 3; EXPECT(rel(o), 0); } gm().ph = 4; }
void reg_midcall()
{
	for(int o = 0; o < 3; o += 2) for(int wr = 0; wr < 2; wr++) for(int fu = 0; fu < 3; fu++){
		if(o == 0 && (wr || fu)) continue;
		bool (*Api::*fp)(void) = fu == 0 ? &Api::free_fd : fu == 1 ? &Api::free_off : &Api::free_no;
		std::string x = std::string(on[o]) + (o ? wr ? "-w" : "-r" : "") + (o ? fu == 0 ? "" : fu == 1 ? "-keepfile" : "-keep" : "");
		auto after = [o]{ gate(gone); for(int k = 0; k < 2; k++) use(o, k ^ 1); };
		// alone, then somebody else comes
		{ Scenario& s = sc("alone-" + x, 2, 0, 0, fp); s.threads = {{0, after}, {1, [=]{ vict(o, wr, 0); }}}; }
		// other objects in the lists around
		{ Scenario& s = sc("among-" + x, 2, 0, 0, fp); s.threads = {{0, [=]{ must(1, 1); must(3, wr); gm().flag[0] = 1; after(); EXPECT(rel(1), 0); EXPECT(rel(3), 0); use(3, 1); }}, {1, [=]{ gate([]{ return gm().flag[0] != 0; }); vict(o, wr, 0); }}}; }
		// killed while another process holds the object: in the lists, waiting, giving up
		for(int how = 0; how < 3; how++){ Scenario& s = sc((how == 0 ? "waits-" : how == 1 ? "try-fails-" : "timed-fails-") + x, 3, how ? 0 : 2, how ? 1 : 3, fp); if(how == 0) s.quick.crash = s.thorough.crash = 0; s.crash_any = true;
			s.threads = {{0, [=]{ must(o, 1); in(o, 1); gm().flag[0] = 1; gate(gone); point(); out(o, 1); EXPECT(rel(o), 0); use(o, 1); use(o, 0); }}, {1, [=]{ gate([]{ return gm().flag[0] != 0; }); vict(o, wr, how); }}};
			if(how == 0) s.threads.push_back({2, []{ gate([]{ return gm().ph != 0; }); point(); kill_proc(1); }}); }
		if(o && !wr) for(int how = 0; how < 3; how++){ Scenario& s = sc((how == 0 ? "waits-shared-" : how == 1 ? "try-fails-shared-" : "timed-fails-shared-") + x, 3, how ? 0 : 2, how ? 1 : 3, fp); if(how == 0) s.quick.crash = s.thorough.crash = 0; s.crash_any = true;
			s.threads = {{0, [=]{ must(o, 0); in(o, 0); gm().flag[0] = 1; gate(gone); use(1, 0); point(); out(o, 0); EXPECT(rel(o), 0); use(o, 1); }}, {1, [=]{ gate([]{ return gm().flag[0] != 0; }); vict(o, 1, how); }}};
			if(how == 0) s.threads.push_back({2, []{ gate([]{ return gm().ph != 0; }); point(); kill_proc(1); }}); }
		// killed while it waits for a live holder, then somebody else waits and looks for dead holders
		for(int hw = 0; hw < 2; hw++) for(int w2 = 0; w2 < 2; w2++){ if((o == 0 && !(hw && w2)) || !(hw || wr) || !(hw || w2)) continue;
			Scenario& s = sc("waiter-" + x + (o ? hw ? "-of-w" : "-of-r" : "") + (o ? w2 ? "-then-w" : "-then-r" : ""), 3, 1, 2, fp); s.quick.crash = s.thorough.crash = 0;
			s.threads = {{0, [=]{ must(o, hw); in(o, hw); gm().flag[0] = 1; gate([]{ return gone() && gm().flag[3]; }); gm().flag[2] = 1; EXPECT(m_timed("b", 3000), ETIMEDOUT); out(o, hw); EXPECT(rel(o), 0); use(o, 1); }},
				{1, [=]{ gate([]{ return gm().flag[0] != 0; }); vict(o, wr, 0); }},
				{2, [=]{ must(1, 1); gm().flag[3] = 1; gate([]{ return gm().ph != 0; }); point(); kill_proc(1); gate([]{ return gm().flag[2] != 0; }); use(o, w2); EXPECT(rel(1), 0); }}}; }
		// while another process uses the same object
		{ Scenario& s = sc("beside-" + x, 2, 1, 2, fp); s.crash_any = true; s.threads = {{0, [=]{ use(o, 1); use(o, 0); after(); }}, {1, [=]{ vict(o, wr, 0); }}}; }
		for(int t = 1; t < 3; t++){ Scenario& s = sc((t == 2 ? "timed-" : "try-") + x, 2, 0, 1, fp); s.crash_any = true; s.threads = {{0, [=]{ use(o, 1); after(); }}, {1, [=]{ vict(o, wr, t); }}}; }
		{ Scenario& s = sc("three-" + x, 3, 0, 1, fp); s.crash_any = true; s.threads = {{0, [=]{ use(o, 1); after(); }}, {1, [=]{ vict(o, wr, 0); }}, {2, [o]{ use(o, 0); }}}; }
		if(o && !wr){ Scenario& s = sc("shared-" + x, 2, 0, 1, fp); s.threads = {{0, [=]{ must(o, 0); in(o, 0); gm().flag[0] = 1; gate(gone); point(); out(o, 0); EXPECT(rel(o), 0); use(o, 1); }}, {1, [=]{ gate([]{ return gm().flag[0] != 0; }); vict(o, wr, 0); }}}; }
		// another live process holds the lock (too) when somebody looks for dead holders
		if(o) for(int w2 = 0; w2 < 2; w2++){ if(wr && w2) continue; Scenario& s = sc((w2 ? "unlocks-r-" : "unlocks-w-") + x, 3, 0, 2, fp);
			auto su = s.setup; s.setup = [=]{ su(); for(int p = 1; p >= wr; p--) in_proc(p, [=]{ must(o, wr); in(o, wr); }); gm().ph = 2; };
			s.threads = {{0, [=]{ if(wr){ use(o, 1); after(); return; } gate([]{ return gone() && gm().flag[3]; }); gm().flag[2] = 1; EXPECT(m_timed("b", 3000), ETIMEDOUT); out(o, wr); EXPECT(rel(o), 0); use(o, 1); }}, {1, [=]{ out(o, wr); gm().ph = 3; EXPECT(rel(o), 0); gm().ph = 4; }}, {2, [=]{ if(wr){ use(o, 0); after(); return; } must(1, 1); gm().flag[3] = 1; gate([]{ return gm().flag[2] != 0; }); if(w2) use(o, 0); use(o, 1); EXPECT(rel(1), 0); }}};
			if(wr) s.crash_any = true; }
		}
	// condition variables: killed while it creates, waits, times out, signals, broadcasts
	for(int w = 0; w < 4; w++) for(int ex = 0; ex < 2; ex++) for(int live = 0; live < 2; live++){
		static const char* wn[] = {"wait", "timedwait", "signal", "broadcast"};
		if(w >= 2 && !(ex || live)) continue;
		Scenario& s = sc(std::string("cond-") + wn[w] + (ex ? "" : "-create") + (live ? "-waiter" : ""), 3, live ? 0 : 1, live ? 1 : 2); s.crash_any = true;
		auto su = s.setup; s.setup = [=]{ su(); in_proc(0, [=]{ must(0, 1); if(ex) EXPECT(c_twait("c", "a", 1000), ETIMEDOUT); EXPECT(rel(0), 0); }); };
		s.threads = {{0, [=]{ // the one who goes on
				gate(gone); if(live) gate([]{ return gm().flag[1] != 0; });
				use(0, 1); int r = c_signal("c"); REQUIRE(r == 0 || (r == EINVAL && !ex && !live), "signal returned %d", r);
				must(0, 1); r = c_bcast("c"); REQUIRE(r == 0 || (r == EINVAL && !ex && !live), "broadcast returned %d", r); if(live){ gm().flag[2] = 1; } EXPECT(rel(0), 0);
				must(0, 1); in(0, 1); out(0, 1); r = c_twait("c", "a", 1000); in(0, 1); REQUIRE(r == ETIMEDOUT, "a later timed wait that nobody signals returned %d", r); out(0, 1); EXPECT(rel(0), 0); use(1, 1); }},
			{1, [=]{ if(w < 2){ must(0, 1); in(0, 1); } gm().ph = 1; out(0, 1); int r = w == 0 ? c_wait("c", "a") : w == 1 ? c_twait("c", "a", 2000) : w == 2 ? c_signal("c") : c_bcast("c"); gm().ph = 2;
				REQUIRE(r == 0 || (w == 1 && r == ETIMEDOUT) || (w >= 2 && r == EINVAL && !ex), "condition call returned %d", r); if(w < 2){ in(0, 1); out(0, 1); EXPECT(rel(0), 0); } gm().ph = 4; }}};
		if(w == 0){ s.quick.crash = s.thorough.crash = 0; s.quick.preempt = live ? 1 : 2; s.thorough.preempt = live ? 2 : 4; s.threads.push_back({2, []{ gate([]{ return gm().ph != 0; }); point(); kill_proc(1); }}); }
		if(live) s.threads.push_back({2, []{ must(0, 1); in(0, 1); gm().flag[1] = 1; out(0, 1); int r = c_wait("c", "a"); in(0, 1); REQUIRE(r == 0, "a wait returned %d", r); point(); out(0, 1); EXPECT(rel(0), 0); }});
	}
}
