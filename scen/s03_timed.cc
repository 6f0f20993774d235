#include "common.h"
// C06 try and timed semantics
struct G6 { Mon mon; int32_t fd[4][2]; int8_t flag[8]; int8_t actw, actr, intry[8], saw[8], got; int64_t t0[8], due[8]; };
static G6& g6(){ return ghost<G6>(); }
static int F(){ return g6().fd[self_proc()][0]; }
static void setup6(int np, bool high)
{
	if(high) warm_high(np); else warm(np);
	vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, [p]{ g6().fd[p][0] = vopen("/data/f"); });
}
enum { K_MTX = 0, K_WR_WR, K_RD_WR, K_WR_RD, NK };      // <wanted>_<held>
static const char* kn[NK] = {"mutex", "wr-by-wr", "rd-by-wr", "wr-by-rd"};
static void hold(int k){ if(k == K_MTX) EXPECT(m_lock("m"), 0); else if(k == K_WR_RD) EXPECT(r_rd(F(), 0, 10), 0); else EXPECT(r_wr(F(), 0, 10), 0); }
static void unhold(int k){ if(k == K_MTX) EXPECT(m_unlock("m"), 0); else EXPECT(r_un(F(), 0, 10), 0); }
static int wanttry(int k){ return k == K_MTX ? m_try("m") : k == K_RD_WR ? r_tryrd(F(), 0, 10) : r_trywr(F(), 0, 10); }
static int wanttimed(int k, long us){ return k == K_MTX ? m_timed("m", us) : k == K_RD_WR ? r_trd(F(), 0, 10, us) : r_twr(F(), 0, 10, us); }
static void nothing_left(int k){ int r = k == K_MTX ? m_unlock("m") : r_un(F(), 0, 10); REQUIRE(k == K_MTX ? (r == 0 || r == EPERM) : r == EINVAL, "unlock after a failed attempt returned %d: the failed attempt left something locked", r); }
static void all_free(){ for(int k = 0; k < 2; k++){ EXPECT(wanttry(k), 0); unhold(k); } }
void reg_timed()
{
	for(int high = 0; high < 2; high++) for(int k = 0; k < NK; k++){
		std::string sfx = std::string(kn[k]) + (high ? "-high" : "");
		{	// held for the whole call: try answers EBUSY without waiting
			Scenario& s = mk("C06", ("try-busy-" + sfx).c_str(), 2, 2, 4); s.setup = [high]{ setup6(2, high); };
			s.threads.push_back({0, [k]{ hold(k); g6().flag[0] = 1; gate([]{ return g6().flag[1]; }); unhold(k); }});
			s.threads.push_back({1, [k]{ gate([]{ return g6().flag[0]; }); EXPECT(wanttry(k), EBUSY); int r = wanttimed(k, 0); REQUIRE(r == EBUSY || r == ETIMEDOUT, "zero timeout returned %d", r); nothing_left(k); g6().flag[1] = 1; }});
			s.final_check = all_free;
		}
		{	// held for the whole call: the timed call fails at its deadline, never before, and promptly
			Scenario& s = mk("C06", ("timed-expire-" + sfx).c_str(), 2, 0, 1); s.setup = [high]{ setup6(2, high); };
			s.threads.push_back({0, [k]{ hold(k); g6().flag[0] = 1; gate([]{ return g6().flag[1]; }); unhold(k); }});
			s.threads.push_back({1, [k]{
				static const long tos[] = {1, 1500, 999999, 1000000, 1500000, 3200000}; static const long nss[] = {0, 1, 500000000, 999999000, 999999999};
				gate([]{ return g6().flag[0]; }); long to = tos[choose(6, "timeout")]; long ns = nss[choose(5, "start")];
				set_now(2000LL * 1000000000 + ns); int64_t t = now(), due = t + to * 1000;
				for(int64_t d : {due - 1000, due - 1, due + 1000, due + 1000000, due + 500000000, due + 1500000000L}) if(d > t) add_deadline(d);
				int r = wanttimed(k, to); int64_t e = now();
				REQUIRE(r == ETIMEDOUT, "timed lock on a held lock returned %d", r);
				REQUIRE(e >= due, "timed lock gave up %ld ns before its deadline (timeout %ld us, start .%09ld)", (long)(due - e), to, ns);
				if(!g6().flag[2]) REQUIRE(e <= due + 1000000, "timed lock returned %ld ns after its deadline although it was running (timeout %ld us, start .%09ld)", (long)(e - due), to, ns);
				nothing_left(k); g6().flag[1] = 1;
			}});
			s.thorough.preempt = 0; s.final_check = all_free;
		}
		{	// the waiting thread does not run for a while: it notices at once that its deadline has passed
			Scenario& s = mk("C06", ("timed-stopped-" + sfx).c_str(), 3, 0, 0); s.setup = [high]{ setup6(3, high); in_proc(0, []{ set_now(2000LL * 1000000000); }); };
			s.threads.push_back({0, [k]{ hold(k); g6().flag[0] = 1; gate([]{ return g6().flag[1]; }); unhold(k); }});
			s.threads.push_back({1, [k]{
				static const long tos[] = {1, 2000, 900000, 999999, 1000000, 1100000, 1999999, 3700000}; gate([]{ return g6().flag[0]; }); long to = tos[choose(8, "timeout")]; int64_t t = now(), due = t + to * 1000; g6().due[0] = due; g6().t0[0] = t; add_deadline(due); g6().flag[2] = 1;
				int r = wanttimed(k, to); int64_t e = now(), late = g6().t0[1] > due ? g6().t0[1] : due; // (without deviations the stop comes when the call already waits)
				REQUIRE(r == ETIMEDOUT, "timed lock on a held lock returned %d", r); REQUIRE(e >= due, "timed lock gave up %ld ns before its deadline (timeout %ld us)", (long)(due - e), to);
				REQUIRE(e <= late + 1000000, "timed lock returned %ld ns after its deadline although it was stopped only until %ld ns after it (timeout %ld us)", (long)(e - due), (long)(late - due), to);
				nothing_left(k); g6().flag[1] = 1; }});
			s.threads.push_back({2, []{ static const long lates[] = {0, 1, 50000000, 150000000, 600000000, 1000000000, 1100000000, 4900000000}; gate([]{ return g6().flag[2]; }); long l = lates[choose(8, "late")]; point(); if(now() < g6().due[0] + l){ set_now(g6().due[0] + l); g6().t0[1] = now(); } }});
			s.final_check = all_free;
		}
		{	// released before the deadline: the timed call succeeds
			Scenario& s = mk("C06", ("timed-in-time-" + sfx).c_str(), 2, 0, 0); s.setup = [high]{ setup6(2, high); };
			s.threads.push_back({0, [k]{ hold(k); g6().flag[0] = 1; gate([]{ return g6().flag[3] && now() >= g6().due[0]; }); unhold(k); }});
			s.threads.push_back({1, [k]{
				static const long tos[] = {2000, 999999, 1500000}; static const long nss[] = {0, 500000000, 999999000};
				gate([]{ return g6().flag[0]; }); long to = tos[choose(3, "timeout")]; long ns = nss[choose(3, "start")];
				set_now(2000LL * 1000000000 + ns); g6().due[0] = now() + to * 1000 - 1000000; add_deadline(g6().due[0]); if(to > 10000) add_deadline(now() + 5000000); g6().flag[3] = 1;
				int r = wanttimed(k, to); REQUIRE(r == 0, "the lock was released 1 ms before the deadline, but the timed call returned %d", r);
				REQUIRE(now() <= g6().due[0] + 1000000, "lock obtained late"); unhold(k);
			}});
			s.final_check = all_free;
		}
		{	// infinite timeout waits
			Scenario& s = mk("C06", ("timed-forever-" + sfx).c_str(), 2, 1, 2); s.setup = [high]{ setup6(2, high); };
			s.threads.push_back({0, [k]{ hold(k); g6().flag[0] = 1; gate([]{ return now() >= 2500LL * 1000000000; }); g6().flag[1] = 1; unhold(k); }});
			s.threads.push_back({1, [k]{ gate([]{ return g6().flag[0]; }); add_deadline(2500LL * 1000000000); EXPECT(wanttimed(k, -1), 0); REQUIRE(g6().flag[1], "acquired while held"); unhold(k); }});
			s.final_check = all_free;
		}
	}
	// a try may answer EBUSY only when a conflicting user was active at some moment of the call
	for(int high = 0; high < 2; high++) for(int v = 0; v < 5; v++){
		static const char* vn[] = {"rd-rd-rd", "rd-rd-wr", "wr-rd-rd", "mutex-3", "rd-timedrd-rd"};
		Scenario& s = mk("C06", (std::string("try-spurious-") + vn[v] + (high ? "-high" : "")).c_str(), 3, 2, 3); s.setup = [high]{ setup6(3, high); };
		auto run = [](int t, bool w, bool mtx, int how){
			G6& g = g6(); auto others = [t, w]{ G6& g = g6(); return w ? g.actw + g.actr : (int)g.actw; };
			g.intry[t] = w ? 2 : 1; g.saw[t] = others() > 0; (w ? g.actw : g.actr)++;
			for(int i = 0; i < 8; i++) if(i != t && g.intry[i] && (w || g.intry[i] == 2)) g.saw[i] = 1;
			int r = mtx ? m_try("m") : w ? r_trywr(F(), 0, 10) : how ? r_trd(F(), 0, 10, 10000000) : r_tryrd(F(), 0, 10); g.intry[t] = 0;
			if(r){ REQUIRE(r == EBUSY || (how && r == ETIMEDOUT), "try returned %d", r); if(how && r == ETIMEDOUT && !g.saw[t]) fail("a timed read lock timed out although only readers were active"); REQUIRE(g.saw[t], "%s answered EBUSY although no conflicting user was active at any moment of the call", mtx ? "mutex trylock" : w ? "trywrlock" : "tryrdlock"); }
			else { g.got++; if(w) enter_w(0, "w"); else enter_r(0, "r"); if(w) leave_w(0); else leave_r(0); EXPECT(mtx ? m_unlock("m") : r_un(F(), 0, 10), 0); }
			(w ? g.actw : g.actr)--;
		};
		for(int t = 0; t < 3; t++) s.threads.push_back({t, [t, v, run]{
			bool w = v == 3 || (v == 1 && t == 2) || (v == 2 && t == 0); run(t, w, v == 3, v == 4 && t == 1); if(t < 2 && v != 3) run(t, w, v == 3, v == 4 && t == 1); }});
		s.final_check = []{ REQUIRE(g6().got > 0, "several users tried a lock nobody held and none of them got it"); all_free(); };
	}
	// among simultaneous tries on a free lock at least one wins
	for(int v = 0; v < 3; v++){
		Scenario& s = mk("C06", v == 0 ? "try-race-mutex" : v == 1 ? "try-race-wr" : "try-race-wr-rd", 2, 3, 5); s.setup = []{ setup6(2, false); };
		for(int t = 0; t < 2; t++) s.threads.push_back({t, [v, t]{ int r = v == 0 ? m_try("m") : (v == 2 && t) ? r_tryrd(F(), 0, 10) : r_trywr(F(), 0, 10); if(!r) g6().got++; else { EXPECT(r, EBUSY); nothing_left(v == 0 ? K_MTX : K_WR_WR); } g6().flag[t] = 1; gate([]{ return g6().flag[0] && g6().flag[1]; }); if(!r) EXPECT(v == 0 ? m_unlock("m") : r_un(F(), 0, 10), 0); }});
		s.final_check = []{ REQUIRE(g6().got == 1, "%d of two simultaneous conflicting tries on a free lock won", g6().got); all_free(); };
	}
	// timed attempts racing with release and with each other leave nothing behind
	for(int k = 0; k < NK; k++){
		Scenario& s = mk("C06", (std::string("timed-race-") + kn[k]).c_str(), 2, 2, 3); s.setup = []{ setup6(2, false); };
		s.threads.push_back({0, [k]{ hold(k); if(k == K_WR_RD) enter_r(0, "h"); else enter_w(0, "h"); point(); if(k == K_WR_RD) leave_r(0); else leave_w(0); unhold(k); }});
		s.threads.push_back({1, [k]{ int64_t d = now() + 2000000; int r = wanttimed(k, 2000); if(r){ EXPECT(r, ETIMEDOUT); REQUIRE(now() >= d, "timed out early"); nothing_left(k); } else { if(k == K_RD_WR) enter_r(0, "w"); else enter_w(0, "w"); point(); if(k == K_RD_WR) leave_r(0); else leave_w(0); unhold(k); } }});
		s.final_check = all_free;
	}
}
