#include "common.h"
// C19: diagnostics (FLCKDBGMODE, FLCKDBGFILE, SetFlckDbg...) show what is asked for, in the asked place, and never change what a call does
struct GD { Mon mon; SeqG seq; int8_t op, go, done; int32_t res[5]; int32_t fd[5][3]; int8_t flag[8]; int16_t base[3]; int16_t n[5][4]; int16_t seen[4][4]; };
static GD& gd(){ return ghost<GD>(); }
static int F(int i){ return gd().fd[self_proc()][i]; }
static void own_dirs(Scenario& s, int np){ for(int p = 0; p < np; p++){ char k[32], v[32]; sprintf(k, "p%d:FLCKDIRPATH", p); sprintf(v, "/tmp/fl%d", p); s.env[k] = v; } }
static void files(int np){ vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); for(int p = 0; p < np; p++) in_proc(p, []{ gd().fd[self_proc()][0] = vopen("/data/f"); gd().fd[self_proc()][1] = vopen("/data/g"); gd().fd[self_proc()][2] = vopen("/data/f"); }); }
struct Op { const char* name; int (*f)(); };
static const Op opm[] = {
	{"lock a", []{ return m_lock("a"); }}, {"trylock b", []{ return m_try("b"); }}, {"timedlock c", []{ return m_timed("c", 1000); }}, {"unlock a", []{ return m_unlock("a"); }}, {"unlock b", []{ return m_unlock("b"); }},
	{"lock NULL", []{ return m_lock(nullptr); }}, {"unlock unknown", []{ return m_unlock("zz"); }}, {"timedwait c with a", []{ return c_twait("c", "a", 1000); }}, {"wait with unknown mutex", []{ return c_wait("c", "zz"); }}, {"timedwait c2 with b, no time", []{ return c_twait("c2", "b", 0); }},
	{"signal c", []{ return c_signal("c"); }}, {"broadcast unknown", []{ return c_bcast("zz"); }}};
static const Op opr[] = {
	{"wrlock f", []{ return r_tryrd(F(0), 0, 10) * 1000 + r_un(F(0), 0, 10) + 7 * r_trywr(F(0), 0, 10); }}, {"tryrd f", []{ return r_tryrd(F(0), 0, 10); }}, {"trywr overlapping", []{ return r_trywr(F(0), 5, 10); }}, {"timedrd other fd", []{ return r_trd(F(2), 0, 10, 1000); }}, {"timedwr g", []{ return r_twr(F(1), 0, 10, 1000); }},
	{"rd g far", []{ return r_tryrd(F(1), 100, 10); }}, {"unlock f", []{ return r_un(F(0), 0, 10); }}, {"unlock g", []{ return r_un(F(1), 0, 10); }}, {"unlock other fd", []{ return r_un(F(2), 0, 10); }}, {"bad fd", []{ return r_tryrd(77, 0, 10); }},
	{"islocked", []{ return 10 * r_is(F(0), 0, 10) + r_is(F(1), 0, 10); }}, {"no range", []{ return r_tryrd(F(0), 0, 0); }}};
static const Op opc[] = {
	{"lock a", []{ return m_lock("a"); }}, {"tryrd f", []{ return r_tryrd(F(0), 0, 10); }}, {"unlock a", []{ return m_unlock("a"); }}, {"unlock f", []{ return r_un(F(0), 0, 10); }},
	{"reinit", []{ return (int)reinit(nullptr, nullptr); }}, {"reinit other name", []{ return (int)reinit(nullptr, "other"); }}, {"reinit wrong size", []{ return (int)reinit_ex(nullptr, nullptr, 4, 6, 8, 4, 100000, 6); }}, {"reinit wrong name", []{ return (int)reinit(nullptr, "x/y"); }}, {"reinit wrong directory", []{ return (int)reinit("/nonexistent/../../..", nullptr); }}, {"reinit sizes", []{ return (int)reinit_ex(nullptr, nullptr, 1, 4, 4, 1, 1, 4); }},
	{"high robust", []{ return (int)b_call(A.high_robust, "set_high_robust"); }}, {"no robust", []{ return (int)b_call(A.no_robust, "set_no_robust"); }}, {"free no", []{ return (int)b_call(A.free_no, "set_no_freeunit"); }}, {"deny retry", []{ return (int)b_call(A.deny_r, "set_retry_deny_nomap"); }}};
static const Op opx[] = {
	{"new read", []{ void* p = x_newl(F(0), 0, 10, true); int r = x_wr(p) * 10 + x_rd(p); x_del(p); return r; }}, {"new write twice", []{ void* p = x_newl(F(0), 0, 10, false); void* q = x_newl(F(0), 0, 10, true); int r = x_wr(q); x_del(p); r = r * 10 + x_un(q); x_del(q); return r; }}, {"object on bad fd", []{ void* p = x_newl(77, 0, 10, false); int r = x_rd(p) * 10 + x_un(p); x_del(p); return r; }},
	{"object retargeted", []{ void* p = x_newl(F(0), 0, 10, true); int r = x_set(p, F(1), 0, 10, false) * 10 + x_set(p, F(0), 5, 20, true); x_del(p); return r; }}, {"islocked", []{ return 10 * r_is(F(0), 0, 10) + r_is(F(1), 0, 10); }}, {"unlock f", []{ return r_un(F(0), 0, 10); }}, {"try far", []{ return r_trywr(F(0), 100, 10); }}, {"unlock far", []{ return r_un(F(0), 100, 10); }}};
struct Set { const char* mode; const char* file; };      // file: nullptr not set
static const Set sets[4][5] = {{{nullptr, nullptr}, {"SILENT", "/log/1"}, {"err", "/log/2"}, {"Wan", nullptr}, {"INFO", "/none/4"}}, {{"bogus", nullptr}, {"INFO", "/log/1"}, {"ERR", nullptr}, {"INFO", nullptr}, {"WAN", "/log/4"}}, {{nullptr, nullptr}, {"INFO", "/log/1"}}, {{nullptr, nullptr}, {"Err", "/none/1"}}};
static int level(const char* m){ return !m ? 0 : !strcasecmp(m, "ERR") ? 1 : !strcasecmp(m, "WAN") ? 2 : !strcasecmp(m, "INFO") ? 3 : 0; }
static void same(const char* name, const Op* ops, int nop, int qd, int td, int np = 5)
{
	for(int v = np == 2 ? 2 : 0; v < (np == 2 ? 4 : 2); v++) for(int deep = 0; deep < 2; deep++){
		Scenario& s = mk("C19", strdup((std::string("same-") + name + ("-" + std::to_string(v + 1)) + (deep ? "-deep" : "")).c_str()), np, deep ? -1 : 0, 0); s.in_quick = !deep; s.count_msgs = true; s.seq_only = true; own_dirs(s, np); int depth = deep ? td : qd;
		s.env["FLCKNMTXCNT"] = "2"; s.env["FLCKNCONDCNT"] = "1"; s.env["FLCKFILECNT"] = "1"; s.env["FLCKOFFETCNT"] = "4"; s.env["FLCKLOCKERCNT"] = "4"; s.env["FLCKFREEUNITMODE"] = v ? "NO" : "FD";
		for(int p = 0; p < np; p++){ char k[32]; sprintf(k, "p%d:FLCKDBGMODE", p); s.env[k] = sets[v][p].mode ? sets[v][p].mode : "\x01"; sprintf(k, "p%d:FLCKDBGFILE", p); s.env[k] = sets[v][p].file ? sets[v][p].file : "\x01"; }
		s.setup = [np]{ vmkdir("/log"); vmkfile("/tmp/shadow"); files(np); };
		for(int p = 0; p < np; p++) s.threads.push_back({p, [=]{
			GD& g = gd();
			for(int d = 0; d < depth; d++){
				gate([=]{ return gd().go == p; }); if(p == 0) g.op = (int8_t)choose_state(nop, "call", depth - d); g.res[p] = ops[g.op].f(); g.go = (int8_t)((p + 1) % np);
				REQUIRE(g.res[p] == g.res[0], "call '%s' gives %d with FLCKDBGMODE=%s FLCKDBGFILE=%s, %d with FLCKDBGMODE=%s", ops[g.op].name, g.res[p], sets[v][p].mode ? sets[v][p].mode : "(unset)", sets[v][p].file ? sets[v][p].file : "(unset)", g.res[0], sets[v][0].mode ? sets[v][0].mode : "(unset)");
			}
			// messages: of the asked severities only, in the asked place only
			gate([=]{ return gd().go == p; }); const Set& me = sets[v][p]; int lv = level(me.mode); bool ok = me.file && vexists(me.file);
			REQUIRE(vfiles() >= 0 && vmsgs("/data/f", 0) + vmsgs("/data/f", 1) + vmsgs("/data/f", 2) + vmsgs("/data/f", 3) + vmsgs("/data/g", 0) == 0, "messages are in a file of the application");
			for(int k = 0; k < 4; k++){ int in = ok ? vmsgs(me.file, k) : 0, er = vmsgs(nullptr, k); REQUIRE(k < lv || in + er == 0, "%d message(s) of severity %d with FLCKDBGMODE=%s", in + er, k, me.mode ? me.mode : "(unset)"); }
			for(int k = 0; k < 4; k++) g.n[p][k] = (int16_t)((ok ? vmsgs(me.file, k) : 0) + vmsgs(nullptr, k)); if(lv && ok) REQUIRE(vmsgs(nullptr, 0) + vmsgs(nullptr, 1) == 0, "errors and warnings are on the standard error although FLCKDBGFILE=%s", me.file); g.go = (int8_t)(p + 1);
		}});
		s.final_check = [v, np]{
			// a higher level shows everything that a lower one shows
			auto& n = gd().n;
			for(int p = 0; p < np; p++) for(int q = 0; q < np; q++){ int a = level(sets[v][p].mode), b = level(sets[v][q].mode); if(a < b) for(int k = 0; k < a; k++) REQUIRE(n[q][k] >= n[p][k], "level %s shows %d messages of severity %d, level %s shows %d", sets[v][q].mode, n[q][k], k, sets[v][p].mode, n[p][k]); }
		};
	}
}
// ---- the calls that set level and file, against a model
struct Fn { int (*setmode)(int); int (*bump)(); int (*get)(); bool (*load)(); bool (*setfile)(const char*); bool (*unset)(); };
static Fn& fn(){ static Fn f; if(!f.get){ f.setmode = (int(*)(int))lib_sym("SetFlckDbgMode"); f.bump = (int(*)())lib_sym("BumpupFlckDbgMode"); f.get = (int(*)())lib_sym("GetFlckDbgMode"); f.load = (bool(*)())lib_sym("LoadFlckDbgEnv"); f.setfile = (bool(*)(const char*))lib_sym("SetFlckDbgFile"); f.unset = (bool(*)())lib_sym("UnsetFlckDbgFile"); } return f; }
static const int mval[4] = {0, 1, 3, 7};                // FLCKDBG_SILENT, _ERR, _WARN, _MSG
static int lv_of(int v){ for(int i = 0; i < 4; i++) if(mval[i] == v) return i; return -1; }
static void probe(){ OPB("probe"); A.reinit_ex(nullptr, nullptr, 1, 1, 1, 1, 100000, 1); A.r_tryrd(77, 0, 10); A.r_un(77, 0, 10); A.m_unlock("zz"); A.c_signal("zz"); OPE(0); }
void reg_diag()
{
	same("mutex", opm, 12, 5, 8); same("range", opr, 12, 5, 8); same("config", opc, 14, 4, 6, 2); same("objects", opx, 8, 5, 8);
	for(int deep = 0; deep < 2; deep++){
		Scenario& s = mk("C19", deep ? "control-deep" : "control", 1, deep ? -1 : 0, 0); s.in_quick = !deep; s.count_msgs = true; int depth = deep ? 6 : 4;
		s.env["FLCKDBGMODE"] = "\x01"; s.env["FLCKDBGFILE"] = "\x01"; s.setup = []{ vmkdir("/log"); files(1); warm(1); };
		s.threads.push_back({0, [depth]{
			static const char* names[4] = {nullptr, "/log/1", "/log/2", "/data/g"}; GD& g = gd();
			auto cnt = [](int16_t (*c)[4]){ for(int i = 0; i < 4; i++) for(int k = 0; k < 4; k++){ int n = vmsgs(names[i], k); c[i][k] = (int16_t)(n < 0 ? 0 : n); } };
			// what the probe calls say at the highest level
			int16_t a[4][4], b[4][4]; sim_enter(); fn().setmode(7); sim_leave(); cnt(a); probe(); cnt(b); for(int k = 0; k < 3; k++) g.base[k] = (int16_t)(b[0][k] - a[0][k]); sim_enter(); fn().setmode(0); sim_leave();
			int lv = 0, dest = 0; unsigned maybe = 1;           // dest: bit mask of the places where messages may go (after a failed SetFlckDbgFile: not specified)
			(void)dest;
			for(int d = 0; d < depth; d++){
				int op = choose(13, "control"), r; sim_enter();
				switch(op){
				case 0: case 1: case 2: case 3: r = fn().setmode(mval[op]); sim_leave(); REQUIRE(lv_of(r) == lv, "SetFlckDbgMode returned %d at level %d", r, lv); lv = op; break;
				case 4: r = fn().bump(); sim_leave(); REQUIRE(lv_of(r) == lv, "BumpupFlckDbgMode returned %d at level %d", r, lv); lv = (lv + 1) % 4; break;
				case 5: r = fn().setfile("/log/1"); sim_leave(); REQUIRE(r & 1, "SetFlckDbgFile failed"); maybe = 2; break;
				case 6: r = fn().setfile("/log/2"); sim_leave(); REQUIRE(r & 1, "SetFlckDbgFile failed"); maybe = 4; break;
				case 7: r = fn().setfile("/none/x"); sim_leave(); REQUIRE(!(r & 1), "SetFlckDbgFile on an impossible path succeeded"); maybe |= 1; break;
				case 8: r = fn().setfile(""); sim_leave(); REQUIRE(!(r & 1), "SetFlckDbgFile on an empty path succeeded"); break;
				case 9: r = fn().unset(); sim_leave(); REQUIRE(r & 1, "UnsetFlckDbgFile failed"); maybe = 1; break;
				default: { sim_leave(); static const char* ms[3] = {"wan", "INFO", "nothing"}; int k = op - 10; vsetenv("FLCKDBGMODE", ms[k]); vsetenv("FLCKDBGFILE", k == 1 ? "/log/2" : nullptr); sim_enter(); r = fn().load(); sim_leave(); REQUIRE((r & 1) == (k < 2), "LoadFlckDbgEnv returned %d with FLCKDBGMODE=%s", r & 1, ms[k]); if(k == 0) lv = 2; if(k == 1){ lv = 3; maybe = 4; } }
				}
				sim_enter(); r = fn().get(); sim_leave(); REQUIRE(lv_of(r) == lv, "GetFlckDbgMode says %d at level %d", r, lv);
				cnt(a); probe(); cnt(b); int where = -1;
				for(int i = 0; i < 4; i++) for(int k = 0; k < 4; k++){ int n = b[i][k] - a[i][k]; if(!n) continue; REQUIRE(maybe >> i & 1, "a message is in %s", names[i] ? names[i] : "the standard error"); REQUIRE(where < 0 || where == i, "the messages of one call are in two places"); where = i; REQUIRE(k < lv, "a message of severity %d at level %d", k, lv); REQUIRE(n == g.base[k], "%d message(s) of severity %d, expected %d", n, k, g.base[k]); }
				if(lv) REQUIRE(where >= 0 || !g.base[0], "no message at level %d", lv); if(where >= 0) maybe = 1u << where;
			}
		}});
	}
	// concurrent use with every message on: results as always
	for(int v = 0; v < 3; v++){
		static const char* vn[] = {"-err", "-info", "-info-file"};
		auto on = [v](Scenario& s){ s.env["FLCKDBGMODE"] = v ? "INFO" : "ERR"; if(v == 2) s.env["FLCKDBGFILE"] = "/log/x"; };
		auto nm = [&](const char* n){ return strdup((std::string(n) + vn[v]).c_str()); };
		{ Scenario& s = mk("C19", nm("contend"), 2, v == 2 ? 1 : 2, 3); on(s); s.setup = []{ vmkdir("/log"); files(2); warm(2); };
		  for(int p = 0; p < 2; p++) s.threads.push_back({p, []{ EXPECT(m_lock("m"), 0); enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); EXPECT(r_wr(F(0), 0, 10), 0); enter_w(1, "range"); leave_w(1); EXPECT(r_un(F(0), 0, 10), 0); }}); }
		{ Scenario& s = mk("C19", nm("start"), 2, 1, 2); on(s); s.setup = []{ vmkdir("/log"); };
		  for(int p = 0; p < 2; p++) s.threads.push_back({p, []{ EXPECT(m_lock("m"), 0); enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); }}); }
		{ Scenario& s = mk("C19", nm("start-threads"), 1, 1, 2); on(s); s.setup = []{ vmkdir("/log"); };
		  for(int p = 0; p < 2; p++) s.threads.push_back({0, []{ EXPECT(m_lock("m"), 0); enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); }}); }
		{ Scenario& s = mk("C19", nm("recover"), 3, 1, 2); on(s); s.setup = []{ vmkdir("/log"); files(3); warm_high(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(r_wr(F(0), 0, 10), 0); }); };
		  s.threads.push_back({0, []{ die(); }});
		  for(int p = 1; p < 3; p++) s.threads.push_back({p, []{ gate([]{ return !proc_alive(0); }); EXPECT(m_lock("m"), 0); enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); EXPECT(r_wr(F(0), 0, 10), 0); enter_w(1, "range"); leave_w(1); EXPECT(r_un(F(0), 0, 10), 0); }}); s.final_proc = 1; }
		{ Scenario& s = mk("C19", nm("wait"), 2, 1, 2); on(s); s.setup = []{ vmkdir("/log"); files(2); warm(2); };
		  s.threads.push_back({0, []{ EXPECT(m_lock("m"), 0); gd().flag[0] = 1; int r = c_wait("c", "m"); REQUIRE(r == 0, "signalled wait returned %d", r); EXPECT(m_unlock("m"), 0); }});
		  s.threads.push_back({1, []{ gate([]{ return gd().flag[0]; }); EXPECT(m_lock("m"), 0); EXPECT(c_signal("c"), 0); EXPECT(m_unlock("m"), 0); }}); }
		{ Scenario& s = mk("C19", nm("worker"), 2, 0, 1); on(s); s.env["FLCKROBUSTMODE"] = "HIGH"; s.rest_ms = 30; s.setup = []{ vmkdir("/log"); files(2); warm(2); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(r_wr(F(0), 0, 10), 0); }); };
		  s.threads.push_back({0, []{ die(); }}); s.final_proc = 1; s.final_check = []{ EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); EXPECT(r_trywr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); }; }
		{ Scenario& s = mk("C19", nm("fork"), 1, 1, 2); on(s); s.setup = []{ vmkdir("/log"); files(1); warm(1); };
		  s.threads.push_back({0, []{ EXPECT(m_lock("m"), 0); int fd = F(0); fork_proc([fd]{ EXPECT(m_try("m"), EBUSY); EXPECT(r_wr(fd, 0, 10), 0); enter_w(1, "range"); leave_w(1); EXPECT(r_un(fd, 0, 10), 0); }); EXPECT(r_wr(fd, 0, 10), 0); enter_w(1, "range"); leave_w(1); EXPECT(r_un(fd, 0, 10), 0); gate([]{ return nthreads(1) == 0; }); EXPECT(m_unlock("m"), 0); exit_process(); }}); }
	}
}
