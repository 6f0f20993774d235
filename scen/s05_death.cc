#include "common.h"
// C07 death of a process that holds locks, C08 end of a thread / closing of a descriptor that holds locks, C09 death inside a call
#define NOFD(v) ((int)(0x80000000u | (v)))
struct GD { Mon mon; SeqG seq; int32_t fd[4][4]; int8_t flag[8]; int8_t dead; struct { int8_t used, agent, obj, wr; } acq[10]; };
static GD& gd(){ return ghost<GD>(); }
static int F(int i){ return gd().fd[self_proc()][i]; }
static void files(int np, bool high, bool (*fu)(void))
{
	if(high) warm_high(np); else warm(np);
	vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g");
	for(int p = 0; p < np; p++) in_proc(p, [p, fu]{ GD& g = gd(); g.fd[p][0] = vopen("/data/f"); g.fd[p][1] = vopen("/data/f"); g.fd[p][2] = vopen("/data/g"); g.fd[p][3] = NOFD(7); if(fu) b_call(fu, "freeunit"); });
}
// lockable objects: 0,1 mutexes; 2 [0,10) of f; 3 [10,20) of f; 4 [0,10) of g; 5 no-file range; 6 [5,15) of f
static const char* mname(int o){ return o ? "m1" : "m0"; }
static void rng(int o, int& f, long& of, size_t& len){ f = F(o == 4 ? 2 : o == 5 ? 3 : 0); of = o == 3 ? 10 : o == 6 ? 5 : 0; len = 10; }
static int acq(int o, int wr){ if(o < 2) return m_lock(mname(o)); int f; long a; size_t l; rng(o, f, a, l); return wr ? r_wr(f, a, l) : r_rd(f, a, l); }
static int tryacq(int o, int wr){ if(o < 2) return m_try(mname(o)); int f; long a; size_t l; rng(o, f, a, l); return wr ? r_trywr(f, a, l) : r_tryrd(f, a, l); }
[[maybe_unused]] static int timedacq(int o, int wr, long us){ if(o < 2) return m_timed(mname(o), us); int f; long a; size_t l; rng(o, f, a, l); return wr ? r_twr(f, a, l, us) : r_trd(f, a, l, us); }
static int rel(int o){ if(o < 2) return m_unlock(mname(o)); int f; long a; size_t l; rng(o, f, a, l); return r_un(f, a, l); }
static void in(int o, int wr){ if(wr || o < 2) enter_w(o, "holder"); else enter_r(o, "holder"); }
static void out(int o, int wr){ if(wr || o < 2) leave_w(o); else leave_r(o); }
static void use(int o, int wr){ int r = acq(o, wr); REQUIRE(r == 0, "a lock call without time limit returned %d", r); in(o, wr); point(); out(o, wr); EXPECT(rel(o), 0); }
static void hold(int o, int wr){ int r = acq(o, wr); REQUIRE(r == 0, "a lock call without time limit returned %d", r); in(o, wr); point(); out(o, wr); }
static Scenario& sc(const char* prop, std::string name, int np, int qp, int tp, bool (*Api::*fu)(void) = nullptr, bool high = true)
{
	Scenario& s = mk(prop, name.c_str(), np, qp, tp);
	s.setup = [np, high, fu]{ files(np, high, fu ? A.*fu : nullptr); };
	return s;
}
static void all_free(std::vector<int> objs){ for(int o : objs){ int r = acq(o, 1); REQUIRE(r == 0, "after everybody is done, a lock call without time limit on object %d returned %d", o, r); EXPECT(rel(o), 0); } for(int o : objs){ int r = tryacq(o, 1); REQUIRE(r == 0, "after everybody is done, object %d is still locked (%d)", o, r); EXPECT(rel(o), 0); } }
static void probe_entries(int lockers, int ranges)
{
	for(int i = 0; i < lockers; i++){ int r = r_rd(F(0), 0, 10); REQUIRE(r == 0, "only %d of %d lock entries are available after the dead holder was cleaned up", i, lockers); }
	EXPECT(r_rd(F(0), 0, 10), ENOLCK); for(int i = 0; i < lockers; i++) EXPECT(r_un(F(0), 0, 10), 0);
	for(int i = 0; i < ranges; i++){ int r = r_wr(F(0), i * 10, 10); REQUIRE(r == 0, "only %d of %d range entries are available after the dead holder was cleaned up", i, ranges); }
	for(int i = 0; i < ranges; i++) EXPECT(r_un(F(0), i * 10, 10), 0);
}
// every history of lock/unlock/end-of-agent; `end` kills a process (C07) or ends a thread (C08)
static void hist(const char* prop, const char* name, int qd, int td, std::vector<int> procs, std::vector<int> objs, bool thread_end)
{
	for(int th = 0; th < 2; th++){
		Scenario& s = sc(prop, std::string(name) + (th ? "-deep" : ""), 4, th ? -1 : 0, 0); s.seq_only = true; if(!th) s.thorough.max_sec = 1;
		s.env["FLCKLOCKERCNT"] = "6"; s.env["FLCKOFFETCNT"] = "4";
		int na = (int)procs.size(), depth = th ? td : qd; extern int seq_left;
		auto pickturn = [na](){ GD& g = gd(); int live[8], n = 0; for(int i = 0; i < na; i++) if(!(g.dead >> i & 1)) live[n++] = i; g.seq.turn = (int8_t)(1 + live[choose_state(n, "agent", seq_left)]); };
		auto step = [objs, thread_end, procs, pickturn](int me){
			GD& g = gd(); int o = objs[choose((int)objs.size(), "object")], op = choose(me ? 4 : 3, "op");
			if(op == 3){
				g.dead |= (int8_t)(1 << me); for(auto& a : g.acq) if(a.used && a.agent == me) memset(&a, 0, sizeof a);
				if(!thread_end) for(size_t i = 0; i < procs.size(); i++) if(procs[i] == procs[me]){ g.dead |= (int8_t)(1 << i); for(auto& a : g.acq) if(a.used && a.agent == (int)i) memset(&a, 0, sizeof a); }
				g.seq.turn = 0; if(--seq_left <= 0) g.seq.done = 1; else pickturn();
				if(thread_end) exit_thread(); else die();
			}
			auto clash = [](int a, int b){ if(a == b) return true; if(a == 6) return b == 2 || b == 3; if(b == 6) return a == 2 || a == 3; return false; };
			if(op == 2){ int m = -1; for(int i = 0; i < 10; i++) if(g.acq[i].used && g.acq[i].agent == me && g.acq[i].obj == o){ m = i; break; } if(m < 0) return; int r = rel(o); REQUIRE(r == 0, "unlock of a held lock returned %d", r); memset(&g.acq[m], 0, sizeof g.acq[m]); }
			else{
				int wr = op; bool busy = false, mine = false; int used = 0; for(auto& a : g.acq) if(a.used){ used++; if(clash(a.obj, o)){ if(o < 2){ if(a.agent == me) mine = true; else busy = true; } else if(wr || a.wr) busy = true; } } (void)mine;
				if(used >= 5 || (o < 2 && wr)) return;
				int r = busy ? tryacq(o, wr) : acq(o, wr);
				REQUIRE(r == (busy ? EBUSY : 0), "%s returned %d, but the lock is %s", busy ? "try call" : "lock call without time limit", r, busy ? "held by a live thread" : "not held by anybody alive");
				if(!r) for(auto& a : g.acq) if(!a.used){ a.used = 1; a.agent = (int8_t)me; a.obj = (int8_t)o; a.wr = (int8_t)wr; break; }
			}
			for(int i = 0; i < 10; i++) for(int j = i + 1; j < 10; j++) if(memcmp(&g.acq[i], &g.acq[j], sizeof g.acq[0]) < 0) std::swap(g.acq[i], g.acq[j]);
		};
		for(int i = 0; i < na; i++) s.threads.push_back({procs[i], [i, step, pickturn, depth]{
			GD& g = gd(); if(i == 0){ seq_left = depth; pickturn(); }
			for(;;){ gate([i, &g]{ return g.seq.done || g.seq.turn == i + 1; }); if(g.seq.done) break; step(i); g.seq.turn = 0; if(--seq_left <= 0){ g.seq.done = 1; break; } pickturn(); }
			for(auto& a : g.acq) if(a.used && a.agent == i){ EXPECT(rel(a.obj), 0); memset(&a, 0, sizeof a); }
		}});
		// afterwards nobody alive holds anything: an outsider's lock calls without limit all succeed, and no entry is lost
		s.final_proc = 3;
		s.final_check = [objs]{ for(int o : objs){ int r = acq(o, 1); REQUIRE(r == 0, "lock call without time limit returned %d", r); EXPECT(rel(o), 0); } bool fr = false; for(int o : objs) fr |= o >= 2; if(fr){ r_wr(F(0), 0, 100); r_un(F(0), 0, 100); r_wr(F(2), 0, 100); r_un(F(2), 0, 100); if(objs.size() == 1 && objs[0] == 2) probe_entries(6, 4); } };
	}
}
void reg_death()
{
	// ---- C07: process 1 dies while it holds something
	auto die1 = [](std::string n, int np, int qp, int tp, std::function<void()> victim, std::vector<std::pair<int,std::function<void()>>> others, std::vector<int> fin, bool (*Api::*fu)(void) = nullptr) -> Scenario& {
		Scenario& s = sc("C07", n, np, qp, tp, fu); s.threads.push_back({1, [victim]{ victim(); die(); }});
		for(auto& o : others) s.threads.push_back({o.first, o.second});
		s.final_check = [fin]{ all_free(fin); }; return s; };
	for(int lv = 1; lv <= 3; lv++) die1("die-mutex-" + std::to_string(lv), 3, 2, 3, [lv]{ for(int i = 0; i < lv; i++) hold(0, 1); }, {{0, []{ use(0, 1); }}, {2, []{ use(0, 1); }}}, {0});
	die1("die-mutex-one-waiter", 2, 3, 5, []{ hold(0, 1); }, {{0, []{ use(0, 1); }}}, {0});
	die1("zombie-mutex", 2, 2, 4, []{ hold(0, 1); }, {{0, []{ use(0, 1); }}}, {0}).zombies = true;
	die1("zombie-range", 2, 2, 4, []{ hold(2, 1); }, {{0, []{ use(2, 0); }}}, {2}).zombies = true;
	die1("zombie-nofd", 2, 2, 4, []{ hold(5, 0); }, {{0, []{ use(5, 1); }}}, {5}).zombies = true;
	die1("die-mutex-same-proc", 2, 2, 3, []{ hold(0, 1); }, {{0, []{ use(0, 1); }}, {0, []{ use(0, 1); }}}, {0});
	die1("die-mutex-again", 3, 1, 2, []{ hold(0, 1); }, {{0, []{ use(0, 1); use(0, 1); }}, {2, []{ hold(0, 1); die(); }}}, {0});
	static const struct { const char* n; int o; } ob[] = {{"range", 2}, {"nofd", 5}};
	for(auto& b : ob) for(int vw = 0; vw < 2; vw++) for(int w0 = 0; w0 < 2; w0++) if(vw || w0){
		int o = b.o; die1(std::string("die-") + b.n + (vw ? "-wr" : "-rd") + (w0 ? "-wr" : "-rd"), 3, 1, 3, [o, vw]{ hold(o, vw); }, {{0, [o, w0]{ use(o, w0); }}, {2, [o]{ use(o, 1); }}}, {});
		die1(std::string("die-") + b.n + (vw ? "-wr" : "-rd") + (w0 ? "-wr" : "-rd") + "-1", 2, 2, 4, [o, vw]{ hold(o, vw); }, {{0, [o, w0]{ use(o, w0); }}}, {o});
	}
	die1("die-rd-twice", 2, 2, 4, []{ hold(2, 0); hold(2, 0); }, {{0, []{ use(2, 1); }}}, {2});
	die1("die-rd-live-reader", 3, 2, 3, []{ hold(2, 0); }, {{0, []{ use(2, 1); }}, {2, []{ EXPECT(acq(2, 0), 0); in(2, 0); point(); out(2, 0); EXPECT(rel(2), 0); }}}, {});
	die1("die-overlap", 2, 2, 3, []{ hold(2, 1); }, {{0, []{ use(6, 1); }}}, {6});
	die1("die-2ranges", 2, 2, 3, []{ hold(2, 1); hold(3, 0); }, {{0, []{ use(3, 1); use(2, 1); }}}, {2, 3});
	die1("die-2files", 2, 2, 3, []{ hold(2, 1); hold(4, 1); }, {{0, []{ use(4, 0); use(2, 0); }}}, {2, 4});
	die1("die-everything", 3, 1, 2, []{ hold(0, 1); hold(1, 1); hold(2, 1); }, {{0, []{ use(1, 1); use(2, 0); }}, {2, []{ use(0, 1); use(2, 1); }}}, {});
	die1("die-range-fd", 2, 2, 3, []{ hold(2, 1); }, {{0, []{ use(2, 1); }}}, {2}, &Api::free_fd);
	die1("die-range-no", 2, 2, 3, []{ hold(2, 1); }, {{0, []{ use(2, 1); }}}, {2}, &Api::free_no);
	die1("die-range-fd-3", 3, 1, 2, []{ hold(2, 1); hold(4, 1); }, {{0, []{ use(2, 1); }}, {2, []{ use(4, 1); }}}, {}, &Api::free_fd);
	{	// two threads of one process hold, the process dies
		Scenario& s = sc("C07", "die-two-threads", 2, 1, 2); s.threads.push_back({1, []{ hold(2, 0); gate([]{ return gd().flag[0]; }); die(); }}); s.threads.push_back({1, []{ hold(2, 0); hold(0, 1); gd().flag[0] = 1; gate([]{ return false; }); }});
		s.threads.push_back({0, []{ use(2, 1); use(0, 1); }}); s.final_check = []{ all_free({0, 2}); };
	}
	{	// two processes die
		Scenario& s = sc("C07", "die-two-procs", 3, 1, 2); for(int p = 1; p < 3; p++) s.threads.push_back({p, [p]{ hold(2, 0); hold(p - 1, 1); die(); }});
		s.threads.push_back({0, []{ use(2, 1); use(0, 1); use(1, 1); }}); s.final_check = []{ all_free({0, 1, 2}); };
	}
	// the locks of living processes are never taken away, whatever recovery runs
	for(int v = 0; v < 5; v++){
		static const char* vn[] = {"mutex", "wr", "rd", "nofd", "overlap"};
		Scenario& s = sc("C07", std::string("alive-keeps-") + vn[v], 3, 2, 3); int o = v == 0 ? 0 : v == 3 ? 5 : 2, wr = v != 2, o0 = v == 4 ? 6 : o;
		s.threads.push_back({2, [o, wr]{ EXPECT(acq(o, wr), 0); in(o, wr); gd().flag[0] = 1; point(); settle(); out(o, wr); EXPECT(rel(o), 0); }});
		s.threads.push_back({0, [o, o0]{ gate([]{ return gd().flag[0]; }); int r = acq(o0, 1); REQUIRE(r == 0, "lock returned %d", r); in(o, 1); point(); out(o, 1); EXPECT(rel(o0), 0); }});
		s.threads.push_back({1, [o, v]{ hold(o == 0 ? 1 : o == 5 ? 5 : v == 4 ? 4 : 3, 0); die(); }});
	}
	// the dead process only waited: whoever holds the lock keeps it
	for(int v = 0; v < 6; v++) for(int t = 0; t < 2; t++){
		static const char* vn[] = {"mutex", "wr", "rd", "nofd", "overlap", "rd-rd"};
		Scenario& s = sc("C07", std::string("dead-waiter-") + vn[v] + (t ? "-thread" : ""), 3, 1, 2); int o = v == 0 ? 0 : v == 3 ? 5 : 2, wr = v != 2 && v != 5, o0 = v == 4 ? 6 : o;
		auto su = s.setup; s.setup = [su, o, wr, v]{ su(); in_proc(2, [=]{ EXPECT(acq(o, wr), 0); in(o, wr); if(v == 5){ EXPECT(acq(o, 0), 0); in(o, 0); } }); in_proc(0, []{ EXPECT(acq(1, 1), 0); }); };
		s.threads = {{2, [o, wr, v]{ gate([]{ return gd().flag[0]; }); gd().flag[1] = 1; EXPECT(m_timed("m1", 3000), ETIMEDOUT); out(o, wr); EXPECT(rel(o), 0); if(v == 5){ EXPECT(m_timed("m1", 3000), ETIMEDOUT); out(o, 0); EXPECT(rel(o), 0); } }},
			{1, [o, o0, v]{ (void)o; gd().flag[2] = 1; acq(v == 4 ? o0 : o, 1); fail("a thread got a lock that another one holds"); }},
			{t ? 1 : 0, [o, o0, t]{ gate([]{ return gd().flag[2]; }); point(); if(!t){ kill_proc(1); gd().flag[0] = 1; gate([]{ return gd().flag[1]; }); use(o0, 1); EXPECT(rel(1), 0); } else die(); }}};
		if(t) s.threads.push_back({0, [o0]{ gate([]{ return !proc_alive(1); }); gd().flag[0] = 1; gate([]{ return gd().flag[1]; }); use(o0, 1); EXPECT(rel(1), 0); }});
		s.final_check = [o]{ all_free({o}); }; }
	// processes of different users: their descriptors cannot be looked at, their threads can
	for(int v = 0; v < 5; v++){
		static const char* vn[] = {"mutex", "wr", "rd", "nofd", "overlap"}; int o = v == 0 ? 0 : v == 3 ? 5 : 2, wr = v != 2, o0 = v == 4 ? 6 : o;
		auto users = [](Scenario& s){ auto su = s.setup; s.setup = [su]{ su(); for(int p = 0; p < 3; p++) in_proc(p, [p]{ vsetuid(1000 + p); }); }; };
		for(int z = 0; z < 2; z++){ Scenario& s = die1(std::string(z ? "users-zombie-" : "users-die-") + vn[v], 3, 1, 2, [o, wr]{ hold(o, wr); }, {{0, [o0]{ use(o0, 1); }}, {2, [o0]{ use(o0, 0); }}}, {o0}); s.zombies = z; users(s); }
		Scenario& s = sc("C07", std::string("users-alive-") + vn[v], 3, 1, 2);
		s.threads.push_back({2, [o, wr]{ EXPECT(acq(o, wr), 0); in(o, wr); gd().flag[0] = 1; point(); settle(); out(o, wr); EXPECT(rel(o), 0); }});
		s.threads.push_back({0, [o, o0]{ gate([]{ return gd().flag[0]; }); int r = acq(o0, 1); REQUIRE(r == 0, "lock returned %d", r); in(o, 1); point(); out(o, 1); EXPECT(rel(o0), 0); }});
		s.threads.push_back({1, [o, v]{ hold(o == 0 ? 1 : o == 5 ? 5 : v == 4 ? 4 : 3, 0); die(); }}); users(s);
	}
	// the main thread of the holder's process has ended before: another thread holds a lock, then the process dies
	for(int v = 0; v < 4; v++) for(int z = 0; z < 2; z++){
		static const char* vn[] = {"mutex", "wr", "rd", "nofd"}; int o = v == 0 ? 0 : v == 3 ? 5 : 2, wr = v != 2;
		Scenario& s = sc("C07", std::string(z ? "main-gone-zombie-" : "main-gone-") + vn[v], 3, 1, 2); s.zombies = z;
		s.threads.push_back({1, []{ exit_thread(); }});
		s.threads.push_back({1, [o, wr]{ EXPECT(acq(o, wr), 0); in(o, wr); gd().flag[0] = 1; settle(); out(o, wr); die(); }});
		s.threads.push_back({0, [o]{ gate([]{ return gd().flag[0]; }); use(o, 1); }});
		s.threads.push_back({2, [o]{ use(o, 0); }});
		s.final_proc = 2; s.final_check = [o]{ all_free({o}); };
	}
	// entries of the dead are returned
	for(int v = 0; v < 3; v++){
		Scenario& s = sc("C07", v == 0 ? "die-entries" : v == 1 ? "die-entries-fd" : "die-entries-2", 2, 2, 3, v == 1 ? &Api::free_fd : nullptr); s.env["FLCKLOCKERCNT"] = "5"; s.env["FLCKOFFETCNT"] = "4"; s.env["FLCKFILECNT"] = "2";
		s.threads.push_back({1, [v]{ hold(2, 0); hold(2, 0); if(v == 2) hold(3, 1); die(); }}); s.threads.push_back({0, [v]{ use(2, 1); if(v == 2) use(3, 1); }});
		s.final_check = [v]{ use(2, 1); if(v == 2) use(3, 1); probe_entries(5, 4); };
	}
	// robust mode configured at start: worker threads watch for deaths; even processes that never wait in HIGH mode recover
	for(int hi = 0; hi < 2; hi++) for(int v = 0; v < 6; v++){
		static const char* vn[] = {"mutex", "wr", "rd", "fd", "late", "keep"};
		Scenario& s = mk("C07", (std::string(hi ? "worker-high-" : "worker-low-") + vn[v]).c_str(), v == 5 ? 3 : 2, v == 5 ? 1 : 2, 2); s.env["FLCKROBUSTMODE"] = hi ? "HIGH" : "LOW"; s.env["FLCKROBUSTCHKCNT"] = "50"; if(v == 3) s.env["FLCKFREEUNITMODE"] = "FD";
		int o = v == 0 ? 0 : 2, wr = v != 2; s.calm = true;
		s.setup = [v]{ vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); for(int p = 0; p < (v == 5 ? 3 : 2); p++) in_proc(p, [p]{ m_unlock("warm"); gd().fd[p][0] = vopen("/data/f"); gd().fd[p][2] = vopen("/data/g"); }); };
		s.threads.push_back({1, [o, wr, v]{ if(v == 5) gate([]{ return gd().flag[0]; }); EXPECT(acq(v == 5 ? 4 : o, wr), 0); gd().flag[1] = 1; gate([]{ return gd().flag[2]; }); die(); }});
		s.threads.push_back({0, [o, v]{ gate([]{ return gd().flag[1]; }); settle(); gd().flag[2] = 1; if(v == 4) gate([]{ return !proc_alive(1); }); use(v == 5 ? 4 : o, 1); gd().flag[3] = 1; if(v != 5) all_free({o}); }});
		if(v == 5) s.threads.push_back({2, []{ EXPECT(acq(2, 1), 0); EXPECT(acq(0, 1), 0); in(2, 1); gd().flag[0] = 1; gate([]{ return gd().flag[3]; }); point(); out(2, 1); EXPECT(rel(2), 0); EXPECT(rel(0), 0); }});
		if(v == 5) s.threads.push_back({0, []{ gate([]{ return gd().flag[3]; }); int r = acq(2, 1); REQUIRE(r == 0, "lock returned %d", r); in(2, 1); out(2, 1); EXPECT(rel(2), 0); use(0, 1); }});
	}
	for(int v = 0; v < 12; v++){	// the worker alone (nobody waits) gives the locks back: a later try succeeds
		static const char* vn[] = {"mutex", "range", "2", "mutexes"}; bool zo = v >= 4 && v < 8, sp = v >= 8; int w = v & 3; // sp: a program that the holder has started runs on
		Scenario& s = mk("C07", (std::string(sp ? "worker-spawned-" : zo ? "worker-zombie-" : "worker-try-") + vn[w]).c_str(), 3, 2, 3); s.env["FLCKROBUSTMODE"] = (zo || sp) && w == 1 ? "HIGH" : "LOW"; s.calm = true; s.zombies = zo; s.rest_ms = 1000;
		s.setup = []{ vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); for(int p = 0; p < 3; p++) in_proc(p, [p]{ m_unlock("warm"); gd().fd[p][0] = vopen("/data/f"); gd().fd[p][2] = vopen("/data/g"); gd().fd[p][3] = NOFD(7); }); };
		s.threads.push_back({1, [w, sp]{ if(w != 1) hold(0, 1); if(sp) vspawn(); if(w == 3){ hold(1, 1); hold(1, 1); } if(w == 1 || w == 2) hold(2, 1); if(w == 2){ hold(1, 1); hold(1, 1); hold(4, 0); hold(3, 0); hold(3, 0); hold(5, 1); } gd().flag[0] = 1; gate([]{ return gd().flag[1]; }); die(); }});
		s.threads.push_back({0, [w]{ gate([]{ return gd().flag[0]; }); settle(); gd().flag[1] = 1; int o = w == 1 || w == 2 ? 2 : 0; int r = tryacq(o, 1); if(!r) EXPECT(rel(o), 0); }});
		s.final_check = []{ for(int o : {0, 1, 2, 3, 4, 5}){ int r = tryacq(o, 1); REQUIRE(r == 0, "a second after the death the watching thread has not recovered object %d (try returned %d)", o, r); } for(int o : {0, 1, 2, 3, 4, 5}) EXPECT(rel(o), 0); };
	}
	hist("C07", "die-seq-mutex", 6, 8, {0, 1, 2}, {0}, false);
	hist("C07", "die-seq-range", 5, 7, {0, 1, 2}, {2}, false);
	hist("C07", "die-seq-overlap", 5, 6, {0, 1}, {2, 6}, false);
	hist("C07", "die-seq-mixed", 4, 6, {0, 1}, {0, 2, 4, 5}, false);
	hist("C07", "die-seq-threads", 5, 6, {0, 1, 1}, {0, 2}, false);
}
void reg_threads()
{
	auto end1 = [](std::string n, int vp, int np, int qp, int tp, std::function<void()> victim, std::vector<std::pair<int,std::function<void()>>> others, std::vector<int> fin, bool (*Api::*fu)(void) = nullptr) -> Scenario& {
		Scenario& s = sc("C08", n, 3, qp, tp, fu); (void)np; s.threads.push_back({vp, [victim]{ victim(); exit_thread(); }});
		for(auto& o : others) s.threads.push_back({o.first, o.second});
		s.final_proc = 2; s.final_check = [fin]{ all_free(fin); }; return s; };
	// a thread ends (its process lives on) while it holds something
	for(int vp = 0; vp < 2; vp++){
		std::string x = vp ? "-other" : "-same";
		for(int lv = 1; lv <= 2; lv++) end1("end-mutex-" + std::to_string(lv) + x, vp, 3, 2, 3, [lv]{ for(int i = 0; i < lv; i++) hold(0, 1); }, {{0, []{ use(0, 1); }}, {2, []{ use(0, 1); }}}, {0});
		for(int nofd = 0; nofd < 2; nofd++) for(int c = 1; c < 4; c++){
			int o = nofd ? 5 : 2, vw = c & 1, w0 = c >> 1 & 1;
			end1(std::string("end-") + (nofd ? "nofd" : "range") + (vw ? "-wr" : "-rd") + (w0 ? "-wr" : "-rd") + x, vp, 2, 2, 4, [o, vw]{ hold(o, vw); }, {{0, [o, w0]{ use(o, w0); }}}, {o});
		}
		end1("end-range-3" + x, vp, 3, 1, 3, []{ hold(2, 1); }, {{0, []{ use(2, 0); }}, {2, []{ use(2, 1); }}}, {});
		end1("end-range-fd" + x, vp, 2, 2, 3, []{ hold(2, 1); }, {{0, []{ use(2, 1); }}}, {2}, &Api::free_fd);
		end1("end-all" + x, vp, 2, 1, 2, []{ hold(0, 1); hold(1, 1); hold(2, 0); hold(3, 1); hold(4, 0); }, {{0, []{ use(4, 1); use(3, 0); use(2, 1); use(1, 1); use(0, 1); }}}, {0, 1, 2, 3, 4});
	}
	// the process's other thread keeps its own locks
	for(int v = 0; v < 2; v++){
		Scenario& s = sc("C08", v ? "end-keeps-rd" : "end-keeps-wr", 2, 2, 3); s.threads.push_back({1, [v]{ hold(v ? 2 : 3, v ? 0 : 1); exit_thread(); }});
		s.threads.push_back({1, [v]{ EXPECT(acq(2, !v), 0); EXPECT(acq(0, 1), 0); if(v) enter_r(2, "reader"); else enter_w(2, "writer"); gd().flag[0] = 1; point(); settle(); if(v) leave_r(2); else leave_w(2); EXPECT(rel(2), 0); EXPECT(rel(0), 0); }});
		s.threads.push_back({0, [v]{ gate([]{ return gd().flag[0]; }); int r = acq(2, 1); REQUIRE(r == 0, "lock returned %d", r); in(2, 1); out(2, 1); EXPECT(rel(2), 0); use(0, 1); if(!v) use(3, 1); }});
	}
	// the main thread of a process ends and its other threads live on: what these hold stays, and what the main thread held is recovered
	for(int v = 0; v < 6; v++){
		static const char* vn[] = {"wr", "rd", "nofd", "mutex", "users", "nested"}; int o = v == 2 ? 5 : v == 3 ? 0 : 2, wr = v != 1;
		Scenario& s = sc("C08", std::string("end-main-") + vn[v], 3, 1, 2);
		if(v == 4){ auto su = s.setup; s.setup = [su]{ su(); for(int p = 0; p < 3; p++) in_proc(p, [p]{ vsetuid(1000 + p); }); }; }
		s.threads.push_back({1, [v]{ if(v == 5) hold(4, 1); exit_thread(); }});
		s.threads.push_back({1, [o, wr, v]{ EXPECT(acq(o, wr), 0); in(o, wr); gd().flag[0] = 1; point(); settle(); out(o, wr); EXPECT(rel(o), 0); }});
		s.threads.push_back({0, [o]{ gate([]{ return gd().flag[0]; }); use(o, 1); }});
		s.threads.push_back({2, [o, v]{ use(v == 5 ? 4 : o, v == 5); }});
		s.final_proc = 2; s.final_check = [o]{ all_free({o, 4}); };
	}
	// the descriptor a range lock was taken through is closed, or used again for another file
	for(int v = 0; v < 7; v++) for(int wr = 0; wr < 2; wr++){
		static const char* vn[] = {"close", "reuse", "reuse-same", "close-other", "reuse-ino", "reuse-dev", "reuse-dev32"};
		Scenario& s = sc("C08", std::string("fd-") + vn[v] + (wr ? "-wr" : "-rd"), 2, 2, 3);
		// 2: the number now names the same file again: the lock stays until unlocked through it; 3: closing another descriptor of the file changes nothing
		s.threads.push_back({1, [v, wr]{ EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); int r = wr ? r_wr(F(0), 0, 10) : r_rd(F(0), 0, 10); EXPECT(r, 0);
			if(v < 2 || v > 3){ if(v > 3){ static const char* nm[] = {"/data/h", "/mnt/f", "/mnt/g"}; vmkdir("/mnt"); vmkfile_like("/data/h", "/data/f", 0, 1LL << 32); vmkfile_like("/mnt/f", "/data/f", 1, 0); vmkfile_like("/mnt/g", "/data/f", 1LL << 32, 0); int n = vopen(nm[v - 4]); vdup2(n, F(0)); vclose(n); } else if(v == 1) vdup2(F(2), F(0)); else vclose(F(0)); gd().flag[0] = 1; gate([]{ return gd().flag[1]; }); return; }
			if(v == 2) vdup2(F(1), F(0)); else vclose(F(1));
			in(2, wr); gd().flag[0] = 1; point(); settle(); out(2, wr); EXPECT(r_un(F(0), 0, 10), 0); }});
		s.threads.push_back({0, []{ gate([]{ return gd().flag[0]; }); int r = acq(2, 1); REQUIRE(r == 0, "lock returned %d", r); in(2, 1); point(); out(2, 1); EXPECT(rel(2), 0); gd().flag[1] = 1; }});
		s.final_check = []{ all_free({2}); };
	}
	{	// one descriptor of two is closed: the lock taken through the other stays
		Scenario& s = sc("C08", "fd-close-one", 2, 2, 3);
		s.threads.push_back({1, []{ EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_rd(F(1), 0, 10), 0); vclose(F(0)); enter_r(2, "reader"); gd().flag[0] = 1; point(); settle(); leave_r(2); EXPECT(r_un(F(1), 0, 10), 0); }});
		s.threads.push_back({0, []{ gate([]{ return gd().flag[0]; }); int r = acq(2, 1); REQUIRE(r == 0, "lock returned %d", r); in(2, 1); point(); out(2, 1); EXPECT(rel(2), 0); }});
	}
	{	// worker thread (LOW): closing the descriptor of the shared file of a dead process wakes the worker, which also sees ended threads
		Scenario& s = mk("C08", "end-worker", 2, 0, 0); s.env["FLCKROBUSTMODE"] = "LOW"; s.calm = true;
		s.setup = []{ vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); for(int p = 0; p < 2; p++) in_proc(p, [p]{ m_unlock("warm"); gd().fd[p][0] = vopen("/data/f"); gd().fd[p][2] = vopen("/data/g"); }); };
		s.threads.push_back({0, []{ hold(0, 1); hold(2, 1); hold(1, 1); hold(4, 0); gd().flag[0] = 1; exit_thread(); }}); s.threads.push_back({1, []{ gate([]{ return gd().flag[0]; }); point(); die(); }});
		s.threads.push_back({0, []{ gate([]{ return !proc_alive(1); }); settle(); for(int o : {0, 1, 2, 4}){ int r = tryacq(o, 1); REQUIRE(r == 0, "the worker thread has not recovered object %d (try returned %d)", o, r); } for(int o : {0, 1, 2, 4}) EXPECT(rel(o), 0); }});
	}
	hist("C08", "end-seq-mutex", 6, 8, {0, 0, 1}, {0}, true);
	hist("C08", "end-seq-range", 5, 7, {0, 0, 1}, {2}, true);
	hist("C08", "end-seq-mixed", 4, 6, {0, 0}, {0, 2, 4, 5}, true);
}
