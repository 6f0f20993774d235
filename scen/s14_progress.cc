#include "common.h"
// C20: blocking calls get through - histories in which calls block: a driver hands out calls to agents (threads), every one may block; after each step all threads run until nothing moves any more.
enum { NO = 6 };
struct Ag { int8_t cmd, obj, busy, res, timed, expired, gone; int8_t hold[NO], wr[NO]; };
struct GP { Mon mon; int32_t fd[4]; Ag a[4]; int8_t done, stop, cur[4]; };
static GP& gp(){ return ghost<GP>(); }
enum { ONE_LOCK, ONE_RD, ONE_WR, ONE_TLOCK, ONE_TRD, ONE_TWR, ONE_UN, ONE_END };
static const char* on[] = {"m", "n", "f[0,10)", "f[10,20)", "nofd", "f[5,15)"};
static const char* cn[] = {"lock", "read lock", "write lock", "timed lock", "timed read lock", "timed write lock", "unlock", "end of thread"};
static bool mtx(int o){ return o < 2; }
static int fdof(int o){ return o == 4 ? (int)(0x80000000u | 5) : gp().fd[self_proc()]; }
static int docall(int c, int o)
{
	int f = fdof(o); long of = o == 3 ? 10 : o == 5 ? 5 : 0;
	switch(c){ case ONE_LOCK: return m_lock(on[o]); case ONE_TLOCK: return m_timed(on[o], 2000); case ONE_RD: return r_rd(f, of, 10); case ONE_WR: return r_wr(f, of, 10); case ONE_TRD: return r_trd(f, of, 10, 2000); case ONE_TWR: return r_twr(f, of, 10, 2000); default: return mtx(o) ? m_unlock(on[o]) : r_un(f, of, 10); }
}
static bool ovl(int a, int b){ return a == b || (a == 5 && (b == 2 || b == 3)) || (b == 5 && (a == 2 || a == 3)); }
static bool conflict(int i, int c, int o){ GP& g = gp(); for(int j = 0; j < 4; j++) if(j != i && !g.a[j].gone) for(int q = 0; q < NO; q++) if(ovl(o, q) && g.a[j].hold[q] && (mtx(o) || g.a[j].wr[q] || c == ONE_WR || c == ONE_TWR)) return true; return false; }
struct PD { const char* name; std::vector<int> objs; std::vector<int> procs; int qd, td; bool high, timed, kill; const char* freeu; };
static void history(const PD& d)
{
	for(int deep = 0; deep < 2; deep++){
	int na = (int)d.procs.size(), np = 1; for(int p : d.procs) if(p + 1 > np) np = p + 1;
	Scenario& s = mk("C20", strdup((std::string(d.name) + (deep ? "-deep" : "")).c_str()), np, deep ? -1 : 0, 0); s.in_quick = !deep; s.allow_stuck = true; int depth = deep ? d.td : d.qd; s.env["FLCKFREEUNITMODE"] = d.freeu; bool high = d.high;
	s.setup = [np, high]{ vmkdir("/data"); vmkfile("/data/f"); if(high) warm_high(np); else warm(np); for(int p = 0; p < np; p++) in_proc(p, []{ gp().fd[self_proc()] = vopen("/data/f"); }); };
	for(int i = 0; i < na; i++) s.threads.push_back({d.procs[(size_t)i], [i]{ Ag& a = gp().a[i]; for(;;){ gate([&a]{ return a.cmd || gp().stop; }); if(!a.cmd) return; int c = a.cmd - 1; a.cmd = 0; if(c == ONE_END){ a.busy = 0; return; } a.res = (int8_t)docall(c, a.obj); a.busy = 0; } }});
	PD dd = d;
	s.threads.push_back({0, [dd, na, depth, high]{
		GP& g = gp(); char last[80] = "";
		int8_t* cur = g.cur;
		auto settle_all = [&]{
			{ bool ex = false; for(int i = 0; i < na; i++) ex |= cur[i] && g.a[i].timed && g.a[i].expired; quiesce(high && dd.kill ? 2 : high || ex ? 1 : 0); }
			for(int i = 0; i < na; i++){ Ag& a = g.a[i]; if(a.gone || !cur[i] || a.busy) continue; int c = cur[i] - 1, o = a.obj; cur[i] = 0; if(c == ONE_END){ a.gone = 1; continue; }
				if(c == ONE_UN){ REQUIRE(a.res == 0, "unlock of %s by its holder returned %d", on[o], a.res); if(!--a.hold[o]) a.wr[o] = 0; continue; }
				if(a.timed && a.expired && a.res == ETIMEDOUT) continue;
				REQUIRE(a.res == 0, "%s of %s returned %d%s", cn[c], on[o], a.res, a.timed ? " before its time was over" : ""); a.hold[o]++; if(c == ONE_WR || c == ONE_TWR) a.wr[o] = 1; }
			for(int i = 0; i < na; i++) if(!g.a[i].gone) for(int o = 0; o < NO; o++) if(g.a[i].hold[o]) REQUIRE(!conflict(i, g.a[i].wr[o] ? ONE_WR : ONE_RD, o), "%s is held by several threads that exclude each other", on[o]);
			for(int i = 0; i < na; i++){ Ag& a = g.a[i]; if(a.gone || !cur[i]) continue; int c = cur[i] - 1, o = a.obj; REQUIRE(c < ONE_UN, "%s of %s does not return", cn[c], on[o]); REQUIRE(!(a.timed && a.expired), "%s of %s does not return after its time is over", cn[c], on[o]); REQUIRE(conflict(i, c, o), "after %s: the %s of %s by agent %d goes on waiting although no conflicting lock is held", last, cn[c], on[o], i); }
		};
		auto give = [&](int i, int c, int o){ Ag& a = g.a[i]; a.obj = (int8_t)o; a.timed = c >= ONE_TLOCK && c <= ONE_TWR; a.expired = 0; a.busy = 1; cur[i] = (int8_t)(c + 1); a.cmd = (int8_t)(c + 1); snprintf(last, sizeof last, "%s of %s by agent %d", cn[c], on[o], i); };
		settle_all();
		for(int k = 0; k < depth; k++){
			struct { int8_t i, c, o; } opt[60]; int n = 0; bool timed = false; int idles[4], ni = 0; uint32_t kp = 0; auto kopt = [&](int i){ int p = dd.procs[(size_t)i]; if(!(kp >> p & 1)){ kp |= 1u << p; opt[n++] = {(int8_t)i, 100, 0}; } };
			for(int i = 0; i < na; i++){ Ag& a = g.a[i]; if(a.gone) continue; if(cur[i]){ timed |= a.timed; if(dd.kill) kopt(i); continue; }
				bool fresh = true; for(int o = 0; o < NO; o++) fresh &= !a.hold[o];
				if(fresh){ int p = dd.procs[(size_t)i]; bool same = false, sole = true; for(int j = 0; j < na; j++) sole &= j == i || dd.procs[(size_t)j] != p; for(int x = 0; x < ni; x++){ int j = idles[x], q = dd.procs[(size_t)j]; bool sj = true; for(int l = 0; l < na; l++) sj &= l == j || dd.procs[(size_t)l] != q; same |= q == p || (sole && sj); } if(same) continue; idles[ni++] = i; }   // agents without locks are alike
				for(int o : dd.objs){ bool own = false; for(int q = 0; q < NO; q++) own |= q != o && ovl(o, q) && a.hold[q]; if(own) continue;
					if(mtx(o)){ if(a.hold[o] < 2){ opt[n++] = {(int8_t)i, ONE_LOCK, (int8_t)o}; if(dd.timed) opt[n++] = {(int8_t)i, ONE_TLOCK, (int8_t)o}; } }
					else { if(!a.wr[o] && a.hold[o] < 2){ opt[n++] = {(int8_t)i, ONE_RD, (int8_t)o}; if(dd.timed && !a.hold[o]) opt[n++] = {(int8_t)i, ONE_TRD, (int8_t)o}; } if(!a.hold[o]){ opt[n++] = {(int8_t)i, ONE_WR, (int8_t)o}; if(dd.timed) opt[n++] = {(int8_t)i, ONE_TWR, (int8_t)o}; } }
					if(a.hold[o]) opt[n++] = {(int8_t)i, ONE_UN, (int8_t)o};
				}
				if(dd.kill) kopt(i);
			}
			if(timed) opt[n++] = {0, 101, 0};
			if(!n) break; if(n > 24) mc::fail("too many options");
			auto q = opt[choose_state(n, "step", depth - k)];
			if(q.c == 100){ int p = dd.procs[(size_t)q.i]; snprintf(last, sizeof last, "death of process %d", p); kill_proc(p); for(int j = 0; j < na; j++) if(dd.procs[(size_t)j] == p){ g.a[j].gone = 1; cur[j] = 0; } }
			else if(q.c == 101){ set_now(now() + 10000000); for(int i = 0; i < na; i++) g.a[i].expired = 1; snprintf(last, sizeof last, "the end of the time limits"); }
			else give(q.i, q.c, q.o);
			settle_all();
		}
		// give everything back: every call that waits gets through
		for(int r = 0; r < 40; r++){
			int i, o = 0; for(i = 0; i < na; i++){ if(g.a[i].gone || cur[i]) continue; for(o = 0; o < NO; o++) if(g.a[i].hold[o]) break; if(o < NO) break; }
			if(i == na) break; give(i, ONE_UN, o); settle_all();
		}
		g.done = 1; for(int i = 0; i < na; i++) if(!g.a[i].gone && cur[i]) g.done = 2; g.stop = 1;   // who still waits does so for a lock of another waiting thread (checked above): the application made a cycle
	}});
	s.on_stuck = []{ REQUIRE(gp().done, "the driver is blocked"); };
	std::vector<int> objs = d.objs;
	s.final_check = [objs]{ if(gp().done == 2) return; for(int o : objs){ EXPECT(docall(mtx(o) ? ONE_LOCK : ONE_WR, o), 0); EXPECT(docall(ONE_UN, o), 0); } };
	}
}
void reg_progress()
{
	history({"block-mutex", {0}, {1, 2, 3}, 9, 14, false, true, false, "ALWAYS"});
	history({"block-mutex-thr", {0}, {1, 1, 1}, 9, 14, false, true, false, "ALWAYS"});
	history({"block-mutex2", {0, 1}, {1, 1, 2}, 5, 7, false, false, false, "ALWAYS"});
	history({"block-range", {2}, {1, 2, 3}, 5, 8, false, true, false, "ALWAYS"});
	history({"block-range-thr", {2}, {1, 1, 1}, 6, 8, false, true, false, "OFFSET"});
	history({"block-range-keep", {2}, {1, 2, 2}, 5, 7, false, true, false, "NO"});
	history({"block-range2", {2, 3}, {1, 2, 3}, 5, 6, false, false, false, "ALWAYS"});
	history({"block-overlap", {2, 5}, {1, 2, 2}, 5, 6, false, false, false, "ALWAYS"});
	history({"block-nofd", {4}, {1, 2, 3}, 6, 9, false, false, false, "ALWAYS"});
	history({"block-mixed", {0, 2}, {1, 1, 2}, 4, 6, false, false, false, "ALWAYS"});
	history({"block-mutex-high", {0}, {1, 2, 3}, 7, 10, true, true, false, "ALWAYS"});
	history({"block-range-high", {2}, {1, 2, 3}, 5, 7, true, true, false, "ALWAYS"});
	history({"block-mutex-death", {0}, {1, 2, 3}, 9, 14, true, false, true, "ALWAYS"});
	history({"block-mutex2-death", {0, 1}, {1, 2, 2}, 5, 7, true, false, true, "ALWAYS"});
	history({"block-range-death", {2}, {1, 2, 3}, 6, 9, true, false, true, "ALWAYS"});
	history({"block-range-death-keep", {2}, {1, 2, 2}, 6, 9, true, false, true, "NO"});
	history({"block-mixed-death", {0, 2}, {1, 2, 3}, 4, 7, true, false, true, "OFFSET"});
	// short call sequences under every schedule: nobody waits for ever and afterwards everything can be had again
	typedef std::vector<std::pair<int,int>> Seq;
	struct FD { const char* name; std::vector<int> procs; std::vector<Seq> prog; int q, t; const char* freeu; bool high; };
	auto one = [](int c, int o){ return Seq{{c, o}, {ONE_UN, o}}; };
	auto cat = [](Seq a, const Seq& b){ a.insert(a.end(), b.begin(), b.end()); return a; };
	Seq L = one(ONE_LOCK, 0), R = one(ONE_RD, 2), W = one(ONE_WR, 2), R5 = one(ONE_RD, 5), W5 = one(ONE_WR, 5), W3 = one(ONE_WR, 3), W4 = one(ONE_WR, 4), R4 = one(ONE_RD, 4), RR{{ONE_RD, 2}, {ONE_RD, 2}, {ONE_UN, 2}, {ONE_UN, 2}}, N{{ONE_LOCK, 0}, {ONE_WR, 2}, {ONE_UN, 2}, {ONE_UN, 0}}, M{{ONE_LOCK, 0}, {ONE_LOCK, 1}, {ONE_UN, 1}, {ONE_UN, 0}};
	for(const FD& d : std::vector<FD>{
		{"flow-mutex-2", {1, 2}, {cat(L, L), cat(L, L)}, 3, 5, "ALWAYS", false}, {"flow-mutex-3", {1, 2, 2}, {L, L, L}, 2, 3, "ALWAYS", false}, {"flow-mutex-nest", {1, 2}, {M, M}, 2, 4, "ALWAYS", false},
		{"flow-rd-wr", {1, 2}, {cat(R, R), W}, 2, 4, "ALWAYS", false}, {"flow-wr-wr", {1, 2}, {cat(W, W), W}, 2, 4, "OFFSET", false}, {"flow-rd-rd-wr", {1, 2, 3}, {R, R, W}, 2, 3, "NO", false}, {"flow-rd-wr-wr", {1, 2, 3}, {R, W, W}, 1, 3, "ALWAYS", false}, {"flow-rd2-wr", {1, 2}, {RR, W}, 2, 4, "OFFSET", false}, {"flow-rw-thr", {1, 1}, {cat(R, W), cat(R, W)}, 2, 3, "NO", false}, {"flow-rw-thr3", {1, 1, 1}, {W, W, R}, 1, 2, "ALWAYS", false},
		{"flow-overlap", {1, 2}, {cat(W, R), cat(W5, R5)}, 2, 3, "OFFSET", false}, {"flow-overlap-3", {1, 2, 3}, {W, W5, R5}, 1, 2, "NO", false}, {"flow-two-ranges", {1, 2}, {cat(W, W3), cat(W3, W)}, 2, 3, "ALWAYS", false}, {"flow-nofd", {1, 2}, {cat(W4, R4), cat(R4, W4)}, 2, 4, "ALWAYS", false},
		{"flow-mixed", {1, 2}, {N, N}, 2, 3, "ALWAYS", false}, {"flow-mixed-thr", {1, 1}, {N, cat(W, L)}, 2, 3, "OFFSET", false},
		{"flow-mutex-high", {1, 2, 3}, {L, L, L}, 1, 2, "ALWAYS", true}, {"flow-rw-high", {1, 2}, {cat(R, W), W}, 1, 3, "ALWAYS", true}, {"flow-mixed-high", {1, 2}, {N, N}, 1, 2, "NO", true}}){
		int np = 1; for(int p : d.procs) np = std::max(np, p + 1); bool high = d.high;
		Scenario& s = mk("C20", d.name, np, d.q, d.t); s.env["FLCKFREEUNITMODE"] = d.freeu;
		s.setup = [np, high]{ vmkdir("/data"); vmkfile("/data/f"); if(high) warm_high(np); else warm(np); for(int p = 0; p < np; p++) in_proc(p, []{ gp().fd[self_proc()] = vopen("/data/f"); }); };
		uint32_t used = 0;
		for(size_t i = 0; i < d.prog.size(); i++){ Seq q = d.prog[i]; for(auto& x : q) used |= 1u << x.second;
			s.threads.push_back({d.procs[i], [q]{ int st[8], n = 0; for(auto& x : q){ int k = x.second == 5 ? 2 : x.second; bool part = x.second == 5 || x.second == 3;   // [5,15) is watched as [0,10); [10,20) on its own
				if(x.first == ONE_UN){ int c = st[--n]; if(part && x.second == 3) ; else if(c == ONE_RD) leave_r(k); else leave_w(k); EXPECT(docall(ONE_UN, x.second), 0); }
				else { EXPECT(docall(x.first, x.second), 0); st[n++] = x.first; if(part && x.second == 3) ; else if(x.first == ONE_RD) enter_r(k, "the reader"); else enter_w(k, "the owner"); } } }}); }
		s.final_check = [used]{ for(int o = 0; o < NO; o++) if(used >> o & 1){ EXPECT(docall(mtx(o) ? ONE_LOCK : ONE_WR, o), 0); EXPECT(docall(ONE_UN, o), 0); } };
	}
}
