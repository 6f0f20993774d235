#include "common.h"
// C10 condition variables: no lost, duplicated or invented wakeup; C11 timed waits
struct GW { Mon mon; int8_t waiting, claimed, woke, tmo, flag[8], pred, done; int64_t due; };
static GW& gw(){ return ghost<GW>(); }
static void lockm(const char* m = "m"){ EXPECT(m_lock(m), 0); enter_w(0, "mutex owner"); }
static void unlockm(const char* m = "m"){ leave_w(0); EXPECT(m_unlock(m), 0); }
// waits once; ghost counters change while the mutex is held
static int wait1(const char* c = "c", long us = -2, const char* m = "m")
{
	GW& g = gw(); g.waiting++; leave_w(0);
	int r = us == -2 ? c_wait(c, m) : c_twait(c, m, us);
	if(r == 0) g.woke++; else if(r == ETIMEDOUT){ g.tmo++; } else fail("waiting on the condition variable returned %d", r);
	enter_w(0, "mutex owner after a wait"); g.waiting--; if(!r && g.claimed) g.claimed--;
	return r;
}
static void sig(bool bc, const char* c = "c"){ int r = bc ? c_bcast(c) : c_signal(c); REQUIRE(r == 0, "%s returned %d", bc ? "broadcast" : "signal", r); }
static Scenario& sc(const char* prop, std::string name, int np, int qp, int tp, bool high = false)
{
	Scenario& s = mk(prop, name.c_str(), np, qp, tp); s.setup = [np, high]{ if(high) warm_high(np); else warm(np); };
	s.env["FLCKNMTXCNT"] = "4"; return s;
}
static void free_again(int waiters)
{
	EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); (void)waiters;
	for(int i = 0; i < waiters + 1; i++){ EXPECT(m_lock("m"), 0); int r = c_twait("c", "m", 1000); REQUIRE(r == ETIMEDOUT, "a later timed wait that nobody signals returned %d", r); EXPECT(m_unlock("m"), 0); EXPECT(m_unlock("m"), 0); }
}
// every history of up to D actions of a driver (start a waiter with or without time limit, signal, broadcast, let the time limits pass, take or give back the mutex), each followed by a pause
// until all threads are blocked; the model keeps the set of all states the waiters may be in (which waiter a signal releases is not specified)
enum { H_IDLE, H_LOCK, H_TLOCK, H_WAIT, H_TWAIT, H_WOKEN, H_EXPIRED };
struct HM { int16_t n; int16_t s[120]; };
static HM& hm(){ return *(HM*)((char*)&gw() + 512); }
static int hget(int s, int i){ for(; i; i--) s /= 7; return s % 7; }
static int hset(int s, int i, int v){ int m = 1; for(int k = i; k; k--) m *= 7; return s + (v - hget(s, i)) * m; }
static void heach(const std::function<void(int, const std::function<void(int)>&)>& f)
{
	HM o = hm(), n; memset(&n, 0, sizeof n);
	for(int k = 0; k < o.n; k++) f(o.s[k], [&](int t){ for(int j = 0; j < n.n; j++) if(n.s[j] == t) return; if(n.n >= 120) fail("model: too many states"); n.s[n.n++] = (int16_t)t; });
	hm() = n;
}
static void cond_history(const char* prop, std::string name, int nw, int qd, int td, bool high, int kinds, int qp = 0, int tp = 0)
{
	for(int deep = 0; deep < 2; deep++){
	Scenario& s = sc(prop, name + (deep ? "-deep" : ""), nw + 1, deep ? -1 : qp, tp, high); s.in_quick = !deep; int depth = deep ? td : qd; s.allow_stuck = true;
	s.setup = [high, nw]{ if(high) warm_high(nw + 1); else warm(nw + 1); hm().n = 1; hm().s[0] = 0; };
	s.env["FLCKWAITERCNT"] = "4";
	// flag[i]: 1 start without limit, 2 with limit, 3 returned 0, 4 returned ETIMEDOUT
	for(int i = 0; i < nw; i++) s.threads.push_back({i + 1, [i]{ GW& g = gw(); gate([i]{ return gw().flag[i]; }); lockm(); bool t = g.flag[i] == 2; leave_w(0); int r = t ? c_twait("c", "m", 2000) : c_wait("c", "m"); enter_w(0, "mutex owner after a wait"); REQUIRE(r == 0 || (t && r == ETIMEDOUT), "a wait returned %d", r); g.flag[i] = r ? 4 : 3; unlockm(); }});
	s.threads.push_back({0, [=]{
		GW& g = gw(); bool held = false; int started = 0, timed = 0;
		static const char* an[] = {"a wait began", "a wait with time limit began", "signal", "broadcast", "the time limits passed", "the mutex was taken or given back"};
		auto pause = [&](int d, const char* what){
			quiesce();
			if(!held){ heach([=](int m, const std::function<void(int)>& out){ for(int i = 0; i < nw; i++){ if(hget(m, i) == H_LOCK) m = hset(m, i, H_WAIT); if(hget(m, i) == H_TLOCK) m = hset(m, i, H_TWAIT); } out(m); }); if(started) g.done = 1; }
			heach([=](int m, const std::function<void(int)>& out){ for(int i = 0; i < nw; i++){ int f = gw().flag[i], st = hget(m, i); if(f == 3 ? st != H_WOKEN : f == 4 ? st != H_EXPIRED : (!held && (st == H_WOKEN || st == H_EXPIRED))) return; } out(m); });
			static const char* fn[] = {"not started", "waiting", "waiting (timed)", "returned 0", "returned ETIMEDOUT"}; 
			if(!hm().n){ std::string m; for(int i = 0; i < nw; i++) m += std::string(i ? ", " : "") + fn[g.flag[i]]; fail("after step %d (%s; mutex %s) the waiters are: %s - no assignment of signals explains this", d + 1, what, held ? "held" : "free", m.c_str()); }
		};
		for(int d = 0; d <= depth; d++){
			enum { SI, ST, SIG, BC, TIME, MTX }; int opt[6], n = 0;
			if(started < nw){ if(kinds & 1) opt[n++] = SI; if(kinds & 2) opt[n++] = ST; }
			if(started){ opt[n++] = SIG; opt[n++] = BC; opt[n++] = MTX; } if(timed) opt[n++] = TIME;
			int a; if(d == depth){ if(held){ unlockm(); held = false; pause(d, an[MTX]); } a = BC; } else a = opt[choose(n, "action")];
			switch(a){
			case SI: case ST: { int i = started++; g.flag[i] = a == SI ? 1 : 2; timed += a == ST; heach([=](int m, const std::function<void(int)>& out){ out(hset(m, i, a == SI ? H_LOCK : H_TLOCK)); }); break; }
			case SIG: case BC: {
				int r = a == SIG ? c_signal("c") : c_bcast("c"); REQUIRE(r == 0 || (r == EINVAL && !g.done), "%s returned %d", a == SIG ? "signal" : "broadcast", r);
				heach([=](int m, const std::function<void(int)>& out){ bool any = false; if(a == BC){ for(int i = 0; i < nw; i++) if(hget(m, i) == H_WAIT || hget(m, i) == H_TWAIT) m = hset(m, i, H_WOKEN); } else for(int i = 0; i < nw; i++) if(hget(m, i) == H_WAIT || hget(m, i) == H_TWAIT){ any = true; out(hset(m, i, H_WOKEN)); } if(!any) out(m); }); break; }
			case TIME: set_now(now() + 10000000); heach([=](int m, const std::function<void(int)>& out){ for(int i = 0; i < nw; i++) if(hget(m, i) == H_TWAIT) m = hset(m, i, H_EXPIRED); out(m); }); break;
			case MTX: if(held) unlockm(); else lockm(); held = !held; break;
			}
			pause(d, an[a]);
		}
		for(int i = 0; i < started; i++) REQUIRE(g.flag[i] >= 3, "a waiter is still blocked after a broadcast");
		g.flag[7] = 1; }});
	s.on_stuck = []{ REQUIRE(gw().flag[7], "the thread that signals is blocked for ever"); };
	s.final_check = []{ free_again(3); };
	}
}
void reg_cond()
{
	cond_history("C10", "cond-history", 3, 6, 8, false, 3); cond_history("C10", "cond-history-high", 3, 5, 7, true, 3);
	cond_history("C11", "twait-history", 3, 6, 8, false, 2); cond_history("C11", "twait-history-mixed", 3, 5, 7, true, 3);
	// predicate protocol: whatever the schedule, every waiter gets through (a lost wakeup leaves threads blocked)
	for(int high = 0; high < 2; high++) for(int v = 0; v < 6; v++){
		static const char* vn[] = {"signal-inside", "signal-after", "bcast-inside", "bcast-after", "signal-2w", "bcast-2w"};
		bool bc = v == 2 || v == 3 || v == 5, after = v == 1 || v == 3, two = v >= 4;
		Scenario& s = sc("C10", std::string("cond-pred-") + vn[v] + (high ? "-high" : ""), two ? 3 : 2, two ? 1 : 2, two ? 2 : 4, high);
		s.setup = [high, two]{ if(high) warm_high(two ? 3 : 2); else warm(two ? 3 : 2); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, [bc, after, two]{ for(int i = 0; i < (two && !bc ? 2 : 1); i++){ lockm(); gw().pred = bc ? 2 : gw().pred + 1; if(after){ unlockm(); sig(bc); } else { sig(bc); unlockm(); } } }});
		for(int t = 0; t < (two ? 2 : 1); t++) s.threads.push_back({t + 1, []{ lockm(); while(!gw().pred) wait1(); gw().pred--; unlockm(); }});
		s.final_check = []{ free_again(6); };
	}
	// the condition variable and the mutex are created by the callers themselves
	for(int v = 0; v < 2; v++){
		Scenario& s = sc("C10", v ? "cond-create-bcast" : "cond-create", 2, 2, 4);
		s.threads.push_back({0, [v]{ lockm(); gw().pred = 1; int r = v ? c_bcast("c") : c_signal("c"); REQUIRE(r == 0 || (r == EINVAL && !gw().waiting), "%s returned %d", v ? "broadcast" : "signal", r); unlockm(); }});
		s.threads.push_back({1, []{ lockm(); while(!gw().pred) wait1(); unlockm(); }});
		s.final_check = []{ EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); };
	}
	// two waiters bring different mutexes and create the condition variable at the same time; whoever signals has both mutexes
	for(int v = 0; v < 3; v++){
		Scenario& s = sc("C10", v == 0 ? "cond-create-2mtx" : v == 1 ? "cond-create-2mtx-thr" : "cond-create-2mtx-signal", v == 1 ? 2 : 3, 1, v == 2 ? 3 : 2);
		for(int t = 0; t < 2; t++) s.threads.push_back({v == 1 ? 1 : t + 1, [t]{ const char* m = t ? "b" : "a"; EXPECT(m_lock(m), 0); enter_w(t, "mutex owner"); while(!gw().pred){ gw().flag[t] = 1; leave_w(t); int r = c_wait("c", m); REQUIRE(r == 0, "a wait returned %d", r); enter_w(t, "mutex owner after a wait"); } leave_w(t); EXPECT(m_unlock(m), 0); }});
		s.threads.push_back({0, [v]{ EXPECT(m_lock("a"), 0); enter_w(0, "mutex owner"); EXPECT(m_lock("b"), 0); enter_w(1, "mutex owner"); gw().pred = 1; int w = gw().flag[0] + gw().flag[1];
			if(v == 2) for(int i = 0; i < 2; i++){ int r = c_signal("c"); REQUIRE(r == 0 || (r == EINVAL && !w), "signal returned %d", r); } else { int r = c_bcast("c"); REQUIRE(r == 0 || (r == EINVAL && !w), "broadcast returned %d", r); }
			leave_w(1); EXPECT(m_unlock("b"), 0); leave_w(0); EXPECT(m_unlock("a"), 0); }});
		s.final_check = []{ for(const char* m : {"a", "b"}){ EXPECT(m_try(m), 0); EXPECT(m_unlock(m), 0); } };
	}
	// exact accounting: every signal sent while an unclaimed waiter is blocked releases exactly one, a broadcast releases all, nothing else releases any
	struct V { const char* n; int w, s1, s2; bool b1, b2; int q, t; };
	for(V v : std::vector<V>{{"1w-1s", 1, 1, 0, 0, 0, 2, 4}, {"2w-1s", 2, 1, 0, 0, 0, 2, 3}, {"2w-2s", 2, 1, 1, 0, 0, 1, 2}, {"2w-s-s", 2, 2, 0, 0, 0, 1, 3}, {"3w-1s", 3, 1, 0, 0, 0, 1, 2}, {"3w-2s", 3, 1, 1, 0, 0, 0, 1}, {"2w-b", 2, 1, 0, 1, 0, 2, 3}, {"3w-b", 3, 1, 0, 1, 0, 1, 2}, {"2w-s-b", 2, 1, 1, 0, 1, 1, 2}, {"1w-2s", 1, 1, 1, 0, 0, 2, 3}, {"3w-s-b", 3, 1, 1, 0, 1, 0, 1}}) for(int high = 0; high < 2; high++){
		int ns = (v.s1 ? 1 : 0) + (v.s2 ? 1 : 0);
		Scenario& s = sc("C10", std::string("cond-count-") + v.n + (high ? "-high" : ""), 3, v.q, v.t, high); s.allow_stuck = true;
		s.setup = [high]{ if(high) warm_high(3); else warm(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); }); };
		for(int i = 0; i < ns; i++) s.threads.push_back({0, [v, i]{ for(int k = 0; k < (i ? v.s2 : v.s1); k++){ lockm(); bool b = i ? v.b2 : v.b1; GW& g = gw(); if(b) g.claimed = g.waiting; else if(g.claimed < g.waiting) g.claimed++; sig(b); unlockm(); } gw().done++; }});
		for(int i = 0; i < v.w; i++) s.threads.push_back({1 + i % 2, []{ lockm(); wait1(); unlockm(); }});
		auto chk = [ns]{ GW& g = gw(); REQUIRE(g.done == ns, "a thread that signals is blocked for ever"); REQUIRE(g.claimed == 0, "%d signalled waiter(s) never woke up", g.claimed); };
		s.on_stuck = chk; s.final_check = chk;
	}
	// how many return: all waiters are blocked before the signals start
	for(V v : std::vector<V>{{"3w-1s", 3, 1, 0, 0, 0, 2, 3}, {"3w-2s", 3, 1, 1, 0, 0, 1, 3}, {"3w-s-s", 3, 2, 0, 0, 0, 2, 3}, {"3w-b", 3, 1, 0, 1, 0, 2, 3}, {"2w-3s", 2, 2, 1, 0, 0, 1, 2}, {"1w-2s", 1, 1, 1, 0, 0, 3, 4}}) for(int high = 0; high < 2; high++){
		int ns = (v.s1 ? 1 : 0) + (v.s2 ? 1 : 0), expect = v.b1 || v.b2 ? v.w : std::min(v.w, v.s1 + v.s2);
		Scenario& s = sc("C10", std::string("cond-blocked-") + v.n + (high ? "-high" : ""), 4, v.q, v.t, high); s.allow_stuck = true; s.calm = true;
		for(int i = 0; i < v.w; i++) s.threads.push_back({1 + i, []{ lockm(); wait1(); unlockm(); }});
		for(int i = 0; i < ns; i++) s.threads.push_back({0, [v, i]{ settle(); for(int k = 0; k < (i ? v.s2 : v.s1); k++) sig(i ? v.b2 : v.b1); gw().done++; }});      // without the mutex
		auto chk = [ns, expect]{ GW& g = gw(); REQUIRE(g.done == ns, "a thread that signals is blocked for ever"); REQUIRE(g.woke == expect, "%d waiter(s) returned, expected %d", g.woke, expect); };
		s.on_stuck = chk; s.final_check = chk;
	}
	// a signal or broadcast that finds no waiter is not remembered
	for(int v = 0; v < 3; v++){
		static const char* vn[] = {"signal", "bcast", "unknown"};
		Scenario& s = sc("C10", std::string("cond-unremembered-") + vn[v], 2, 2, 3); s.allow_stuck = true;
		s.setup = [v]{ warm(2); if(v < 2) in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, [v]{ for(int i = 0; i < 2; i++){ int r = v == 1 ? c_bcast("c") : c_signal("c"); EXPECT(r, v == 2 ? EINVAL : 0); } gw().flag[0] = 1; }});
		s.threads.push_back({1, []{ gate([]{ return gw().flag[0]; }); lockm(); wait1(); fail("a wait returned although nobody signalled since it began"); }});
		s.on_stuck = []{ REQUIRE(gw().flag[0], "signalling without waiters blocked"); };
		s.final_check = []{};
	}
	// the mutex is given up while waiting and held again on return, also with other contenders
	for(int v = 0; v < 3; v++) for(int high = 0; high < 2; high++){
		static const char* vn[] = {"signal", "bcast", "two"};
		Scenario& s = sc("C10", std::string("cond-mutex-") + vn[v] + (high ? "-high" : ""), 3, v == 2 ? 1 : 2, v == 2 ? 2 : 3, high);
		s.setup = [high]{ if(high) warm_high(3); else warm(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, [v]{ lockm(); gw().pred = 2; sig(v); unlockm(); }});
		s.threads.push_back({1, []{ lockm(); while(!gw().pred) wait1(); point(); gw().pred--; unlockm(); }});
		if(v == 2) s.threads.push_back({2, []{ lockm(); while(!gw().pred) wait1(); point(); gw().pred--; unlockm(); }});
		s.threads.push_back({2, []{ lockm(); point(); unlockm(); }});
		s.final_check = []{ free_again(6); };
	}
	// several condition variables: only waiters of the named one wake, with one mutex or with one each, also when names are prefixes or equal the mutex name
	for(int v = 0; v < 8; v++){
		static const std::string n62(62, 'n'), l1 = n62 + "a", l2 = n62 + "b", u1 = "a" + n62, u2 = "b" + n62;
		static const char* c1[] = {"c", "c", "m", "c", "cond", l1.c_str(), u1.c_str(), n62.c_str()}; static const char* c2[] = {"d", "d", "c", "cc", "con", l2.c_str(), u2.c_str(), l1.c_str()}; bool sep = v == 1;
		Scenario& s = sc("C10", "cond-other-" + std::to_string(v), 3, 1, 2); s.allow_stuck = true; s.calm = true;
		s.threads.push_back({1, [=]{ lockm(); wait1(c1[v]); gw().flag[1] = 1; unlockm(); }});
		s.threads.push_back({2, [=]{ if(sep){ EXPECT(m_lock("m2"), 0); EXPECT(c_wait(c2[v], "m2"), 0); gw().flag[2] = 1; EXPECT(m_unlock("m2"), 0); } else { lockm(); wait1(c2[v]); gw().flag[2] = 1; unlockm(); } }});
		s.threads.push_back({0, [=]{ settle(); int w = choose(4, "signal"); sig(w >= 2, w & 1 ? c2[v] : c1[v]); gw().flag[3] = (int8_t)(1 + (w & 1)); }});
		s.on_stuck = []{ GW& g = gw(); REQUIRE(g.flag[3], "signal blocked"); REQUIRE(g.flag[1] == (g.flag[3] == 1) && g.flag[2] == (g.flag[3] == 2), "signalling the %s condition variable woke %s", g.flag[3] == 1 ? "first" : "second", g.flag[1] ? (g.flag[2] ? "both waiters" : "the first one's waiter") : g.flag[2] ? "the second one's waiter" : "nobody"); };
	}
	for(int len : {63, 64, 300}){	// long names: waiter and signaller of one name meet
		static char nm[301]; memset(nm, 'n', 300); char* n = strdup(nm); n[len] = 0;
		Scenario& s = sc("C10", "cond-name-" + std::to_string(len), 2, len < 100 ? 1 : 0, 2);
		s.threads.push_back({0, [n]{ lockm(); gw().pred = 1; int r = choose(2, "how") ? c_bcast(n) : c_signal(n); REQUIRE(r == 0 || (r == EINVAL && !gw().waiting), "signalling returned %d", r); unlockm(); }});
		s.threads.push_back({1, [n]{ lockm(); while(!gw().pred) wait1(n); unlockm(); }});
		s.final_check = []{ EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); };
	}
	// waits that must be refused change nothing, and do not take signals from real waiters
	for(int v = 0; v < 4; v++) for(int timed = 0; timed < 2; timed++){
		static const char* vn[] = {"free", "foreign", "unknown", "foreign-signal"};
		Scenario& s = sc("C10", std::string("cond-refused-") + vn[v] + (timed ? "-timed" : ""), 3, v == 3 ? 2 : 2, 3); s.allow_stuck = v == 3; s.calm = v == 3;
		s.setup = []{ warm(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); EXPECT(m_unlock("m"), 0); }); };
		auto bad = [timed](const char* m){ return timed ? c_twait("c", m, 1000) : c_wait("c", m); };
		if(v == 0) s.threads.push_back({0, []{ lockm(); point(); unlockm(); }});
		else if(v < 3) s.threads.push_back({0, []{ lockm(); gw().flag[0] = 1; gate([]{ return gw().flag[1]; }); unlockm(); }});
		else { s.threads.push_back({0, []{ lockm(); wait1(); gw().flag[2] = 1; unlockm(); }}); s.threads.push_back({1, []{ settle(); EXPECT(m_lock("m"), 0); gw().flag[0] = 1; sig(false); gate([]{ return gw().flag[1]; }); EXPECT(m_unlock("m"), 0); }}); }
		s.threads.push_back({2, [v, bad]{
			if(v == 3) settle();
			if(v == 1 || v == 3) gate([]{ return gw().flag[0]; });
			if(v != 0){ int r = bad(v == 2 ? "nomutex" : "m"); REQUIRE(r == (v == 2 ? EINVAL : EPERM), "a wait %s returned %d", v == 2 ? "with an unknown mutex" : "without owning the mutex", r); }
			gw().flag[1] = 1; }});
		if(v == 3){ s.on_stuck = []{ fail("a signal was taken by a refused wait: the blocked waiter did not wake up"); }; }
		s.final_check = []{ free_again(6); };
	}
	for(int timed = 0; timed < 2; timed++){	// a refused wait that begins before the real one
		Scenario& s = sc("C10", std::string("cond-refused-first") + (timed ? "-timed" : ""), 3, 2, 3); s.allow_stuck = true;
		s.setup = []{ warm(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); }); };
		s.threads.push_back({0, []{ enter_w(0, "mutex owner"); gw().flag[0] = 1; wait1(); gw().flag[2] = 1; unlockm(); }});
		s.threads.push_back({1, []{ lockm(); if(gw().waiting){ gw().flag[3] = 1; sig(false); } unlockm(); }});
		s.threads.push_back({2, [timed]{ int r = timed ? c_twait("c", "m", 1000) : c_wait("c", "m"); if(r == EPERM) gw().flag[1] = 1; else { REQUIRE(r == 0 || (timed && r == ETIMEDOUT), "a wait returned %d", r); EXPECT(m_unlock("m"), 0); } }});
		s.on_stuck = []{ if(gw().flag[1] && gw().flag[3]) fail("a signal was taken by a wait that was refused (EPERM): the waiting thread was not released"); }; }
	{	// NULL names
		Scenario& s = sc("C10", "cond-refused-null", 2, 1, 2);
		s.threads.push_back({0, []{ lockm(); for(int i = 0; i < 2; i++){ EXPECT(c_wait("c", nullptr), EINVAL); EXPECT(c_twait("c", nullptr, 1000), EINVAL); EXPECT(c_wait(nullptr, "m"), EINVAL); EXPECT(c_twait(nullptr, "m", 1000), EINVAL); EXPECT(c_signal(nullptr), EINVAL); EXPECT(c_bcast(nullptr), EINVAL); if(!i){ leave_w(0); EXPECT(c_twait("c", "m", 1000), ETIMEDOUT); enter_w(0, "mutex owner after a wait"); } } unlockm(); }});
		s.threads.push_back({1, []{ lockm(); point(); unlockm(); for(const char* n : {(const char*)nullptr}){ EXPECT(m_lock(n), EINVAL); EXPECT(m_try(n), EINVAL); EXPECT(m_timed(n, 1000), EINVAL); EXPECT(m_unlock(n), EINVAL); } }});
		s.final_check = []{ free_again(6); };
	}
	// ---- C11
	for(int high = 0; high < 2; high++){
		std::string sfx = high ? "-high" : "";
		{	// nobody signals: ETIMEDOUT at the deadline, mutex held
			Scenario& s = sc("C11", "twait-expire" + sfx, 2, 0, 1, high);
			s.threads.push_back({0, []{ gate([]{ return gw().flag[1]; }); EXPECT(m_try("m"), EBUSY); gw().flag[2] = 1; }});
			s.threads.push_back({1, []{
				static const long tos[] = {1, 1500, 999999, 1000000, 1500000, 3200000}; static const long nss[] = {0, 1, 500000000, 999999000, 999999999};
				lockm(); long to = tos[choose(6, "timeout")], ns = nss[choose(5, "start")];
				set_now(2000LL * 1000000000 + ns); int64_t t = now(), due = t + to * 1000;
				for(int64_t d : {due - 1000, due - 1, due + 1000, due + 1000000, due + 500000000, due + 1500000000L}) if(d > t) add_deadline(d);
				int r = wait1("c", to); int64_t e = now();
				REQUIRE(r == ETIMEDOUT, "a timed wait that nobody signals returned %d", r);
				REQUIRE(e >= due, "timed wait gave up %ld ns before its deadline (timeout %ld us, start .%09ld)", (long)(due - e), to, ns);
				REQUIRE(e <= due + 1000000, "timed wait returned %ld ns after its deadline although it was running (timeout %ld us, start .%09ld)", (long)(e - due), to, ns);
				gw().flag[1] = 1; gate([]{ return gw().flag[2]; }); unlockm();
			}});
			s.thorough.preempt = 0; s.final_check = []{ free_again(6); };
		}
		{	// zero timeout
			Scenario& s = sc("C11", "twait-zero" + sfx, 2, 2, 3, high);
			s.threads.push_back({0, []{ lockm(); point(); unlockm(); }});
			s.threads.push_back({1, []{ lockm(); int r = wait1("c", 0); EXPECT(r, ETIMEDOUT); point(); unlockm(); }});
			s.final_check = []{ free_again(6); };
		}
		{	// the mutex is taken by somebody else when the time is up: the call returns only when it has the mutex
			Scenario& s = sc("C11", "twait-mutex-busy" + sfx, 2, 2, 3, high);
			s.threads.push_back({0, []{ gate([]{ return gw().waiting || gw().tmo; }); lockm(); int64_t d = now() + 6000000; add_deadline(d); gate([d]{ return now() >= d; }); unlockm(); }});
			s.threads.push_back({1, []{ lockm(); wait1("c", 2000); point(); unlockm(); }});
			s.final_check = []{ free_again(6); };
		}
		{	// ... and the same when it was signalled in time
			Scenario& s = sc("C11", "twait-signal-busy" + sfx, 2, 2, 3, high); s.calm = true;
			s.threads.push_back({0, []{ settle(); lockm(); sig(false); gw().flag[4] = now() < gw().due; int64_t d = now() + 600000000; add_deadline(d); gate([d]{ return now() >= d; }); unlockm(); }});
			s.threads.push_back({1, []{ lockm(); add_deadline(now() + 400000000); gw().due = now() + 400000000; int r = wait1("c", 400000); point(); REQUIRE(r == 0 || now() >= gw().due, "timed out early"); REQUIRE(r == 0 || !gw().flag[4], "a waiter signalled before its deadline timed out (the mutex was busy)"); unlockm(); }});
			s.final_check = []{ free_again(6); };
		}
		{	// signalled well before the deadline: success
			for(int bc = 0; bc < 2; bc++){
			Scenario& s = sc("C11", std::string(bc ? "twait-bcast-in-time" : "twait-in-time") + sfx, 2, 0, 1, high);
			s.threads.push_back({0, [bc]{ gate([]{ return gw().flag[3] && now() >= gw().due; }); lockm(); sig(bc); unlockm(); }});
			s.threads.push_back({1, []{
				static const long tos[] = {2000, 999999, 1500000}; static const long nss[] = {0, 500000000, 999999000};
				lockm(); long to = tos[choose(3, "timeout")], ns = nss[choose(3, "start")]; set_now(2000LL * 1000000000 + ns); int64_t end = now() + to * 1000; gw().due = end - 1000000; add_deadline(gw().due); if(to > 10000) add_deadline(now() + 5000000); gw().flag[3] = 1;
				int r = wait1("c", to); REQUIRE(r == 0 || now() >= end, "a waiter signalled 1 ms before its deadline returned %d", r); unlockm();
				REQUIRE(r == 0 || now() >= end, "timed out early"); }});
			s.thorough.preempt = 0; s.final_check = []{ REQUIRE(gw().woke == 1, "a waiter signalled 1 ms before its deadline timed out"); free_again(6); };
			}
		}
		// a waiter whose time is up does not take the signal away from another waiter
		for(int v = 0; v < 4; v++){
			static const char* vn[] = {"first", "last", "two-timed", "nomutex"};
			Scenario& s = sc("C11", std::string("twait-steal-") + vn[v] + sfx, 3, v == 2 ? 1 : 2, v == 2 ? 2 : 3, high); s.allow_stuck = true;
			auto timed = [](int me){ gate([me]{ return gw().waiting + gw().tmo >= me; }); lockm(); wait1("c", 2000); unlockm(); };
			auto forever = [](int me){ gate([me]{ return gw().waiting >= me || gw().tmo; }); lockm(); wait1(); unlockm(); };
			s.threads.push_back({1, [=]{ if(v == 1) timed(1); else timed(0); }});
			s.threads.push_back({2, [=]{ if(v == 1) forever(0); else forever(1); }});
			if(v == 2) s.threads.push_back({1, [=]{ timed(2); }});
			s.threads.push_back({0, [=]{ gate([v]{ return gw().waiting + gw().tmo >= (v == 2 ? 3 : 2); }); if(v == 3){ lockm(); unlockm(); sig(false); } else { lockm(); sig(false); unlockm(); } gw().done = 1; }});
			auto chk = []{ GW& g = gw(); REQUIRE(g.done, "a thread that signals is blocked for ever"); REQUIRE(g.woke == 1, "one signal was sent while a waiter without time limit was blocked, and %d waiter(s) returned as signalled", g.woke); };
			s.on_stuck = chk; s.final_check = chk;
		}
		{	// broadcast with a timed waiter
			Scenario& s = sc("C11", "twait-bcast" + sfx, 3, 2, 3, high);
			s.threads.push_back({1, []{ lockm(); wait1("c", 2000); gw().flag[1] = 1; unlockm(); }});
			s.threads.push_back({2, []{ lockm(); while(!gw().pred) wait1(); unlockm(); }});
			s.threads.push_back({0, []{ lockm(); gw().pred = 1; int r = c_bcast("c"); REQUIRE(r == 0 || (r == EINVAL && !gw().waiting), "broadcast returned %d", r); unlockm(); }});
			s.final_check = []{ free_again(6); };
		}
		{	// predicate protocol with timed waits: nobody hangs, the predicate is seen at the latest after the timeout
			Scenario& s = sc("C11", "twait-pred" + sfx, 2, 2, 4, high);
			s.threads.push_back({0, []{ lockm(); gw().pred = 1; int r = c_signal("c"); REQUIRE(r == 0 || (r == EINVAL && !gw().waiting), "signal returned %d", r); unlockm(); }});
			s.threads.push_back({1, []{ lockm(); if(!gw().pred){ int64_t d = now() + 2000000; int r = wait1("c", 2000); REQUIRE(r == 0 ? gw().pred : now() >= d, "timed wait returned %d too early", r); } unlockm(); }});
			s.final_check = []{ free_again(6); };
		}
	}
	// ---- C07: deaths around condition variables
	for(int v = 0; v < 2; v++){	// the owner of the mutex dies after signalling: the waiter returns with the mutex
		Scenario& s = sc("C07", v ? "die-cond-owner-timed" : "die-cond-owner", 2, 2, 3, true); s.calm = true;
		s.threads.push_back({0, [v]{ lockm(); gw().waiting++; leave_w(0); int r = v ? c_twait("c", "m", 2000) : c_wait("c", "m"); REQUIRE(r == 0 || (v && r == ETIMEDOUT), "wait returned %d", r); enter_w(0, "waiter"); gw().waiting--; unlockm(); }});
		s.threads.push_back({1, []{ settle(); EXPECT(m_lock("m"), 0); c_signal("c"); die(); }});
		s.final_check = []{ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); free_again(6); };
	}
	for(int v = 0; v < 2; v++){	// processes killed while they wait: the watching thread removes their entries, later signals go to live waiters
		Scenario& s = mk("C07", v ? "worker-cond-entries" : "worker-cond-signal", 3, 0, 1); s.env["FLCKROBUSTMODE"] = "LOW"; s.env["FLCKWAITERCNT"] = "4"; s.calm = true;
		s.setup = []{ for(int p = 0; p < 3; p++) in_proc(p, []{ m_unlock("warm"); }); };
		for(int i = 0; i < (v ? 4 : 2); i++) s.threads.push_back({1, []{ EXPECT(m_lock("dm"), 0); c_wait("c", "dm"); fail("the wait of a killed process returned"); }});
		s.threads.push_back({0, [v]{ settle(); kill_proc(1); gw().due = now() + 1000000000; add_deadline(gw().due); gw().flag[0] = 1; if(v) return; gate([]{ return gw().waiting; }); lockm(); gw().pred = 1; sig(false); unlockm(); }});
		s.threads.push_back({2, [v]{ gate([]{ return gw().flag[0] && now() >= gw().due; }); if(v){ for(int i = 0; i < 5; i++){ lockm(); wait1("c", 1000); unlockm(); } } else { lockm(); while(!gw().pred) wait1(); unlockm(); } }});
	}
}
