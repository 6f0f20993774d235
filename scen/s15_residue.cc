#include "common.h"
// C21: calls leave nothing behind - every short history of calls is repeated; from the second time on the process must not gain a descriptor, a mapping, a thread, a watch, a handler, a file or memory
struct GR { Mon mon; int32_t fd[5][3]; int8_t flag[8]; int16_t ops[8]; Res r[5]; };
static GR& gr(){ return ghost<GR>(); }
static int F(int i){ return gr().fd[self_proc()][i]; }
static void same(const char* what, const Res& a, const Res& b, bool heap = true)
{
	if(heap) REQUIRE(a.heap == b.heap, "%s: allocated memory went from %ld to %ld bytes", what, a.heap * 8, b.heap * 8);
	REQUIRE(a.fds == b.fds, "%s: open descriptors went from %d to %d", what, a.fds, b.fds); REQUIRE(a.maps == b.maps, "%s: mappings went from %d to %d", what, a.maps, b.maps);
	REQUIRE(a.unjoined == b.unjoined, "%s: threads that were never joined went from %d to %d", what, a.unjoined, b.unjoined); REQUIRE(a.threads == b.threads, "%s: threads went from %d to %d", what, a.threads, b.threads); REQUIRE(a.watches == b.watches, "%s: inotify watches went from %d to %d", what, a.watches, b.watches);
	REQUIRE(a.handlers == b.handlers, "%s: registered handlers went from %d to %d", what, a.handlers, b.handlers); REQUIRE(a.files == b.files, "%s: files went from %d to %d", what, a.files, b.files); REQUIRE(a.umask == b.umask, "%s: umask went from %o to %o", what, a.umask, b.umask);
}
enum { O_MTX, O_BUSY, O_TIMED, O_RNG, O_RBUSY, O_NOFD, O_BADFD, O_CTIME, O_SIG, O_IS, O_RE, O_REB, O_REBAD, O_REDIR, O_LOW, O_HIGH, O_NO, O_OBJ, O_FULL, O_THR, O_FORK, O_DIE, O_EXIT, NOPS };
static const char* opn[] = {"mutex", "busy mutex", "timed mutex", "range", "busy range", "range without descriptor", "closed descriptor", "timed wait", "signal", "islocked", "reinitialize", "reinitialize to another file", "reinitialize with a bad name", "reinitialize with a bad directory", "set_low_robust", "set_high_robust", "set_no_robust", "FLRwlRcsv", "locks until ENOLCK", "thread that ends", "fork", "death of another process", "end of another process"};
static void act(int op, int rep)
{
	switch(op){
	case O_MTX: m_lock("m"); m_lock("m"); m_unlock("m"); m_unlock("m"); m_unlock("m"); break;
	case O_BUSY: m_try("x"); break;
	case O_TIMED: m_timed("x", 2000); break;
	case O_RNG: r_rd(F(0), 0, 10); r_rd(F(0), 0, 10); r_un(F(0), 0, 10); r_un(F(0), 0, 10); r_trywr(F(0), 5, 10); r_un(F(0), 5, 10); r_un(F(0), 5, 10); break;
	case O_RBUSY: r_trywr(F(0), 100, 10); r_twr(F(0), 105, 10, 2000); r_un(F(0), 100, 10); break;
	case O_NOFD: r_wr((int)(0x80000000u | 7), 0, 10); r_un((int)(0x80000000u | 7), 0, 10); break;
	case O_BADFD: r_wr(19, 0, 10); r_un(19, 0, 10); r_is(19, 0, 10); break;
	case O_CTIME: m_lock("m"); c_twait("c", "m", 2000); c_twait("c", "m", 0); m_unlock("m"); c_twait("c", "x", 0); break;
	case O_SIG: c_signal("c"); c_bcast("unknown"); break;
	case O_IS: r_is(F(0), 100, 10); break;
	case O_RE: reinit(nullptr, nullptr); break;
	case O_REB: reinit(nullptr, "B"); break;
	case O_REBAD: reinit(nullptr, "a/b"); break;
	case O_REDIR: reinit("/data/f/x", nullptr); break;
	case O_LOW: b_call(A.low_robust, "set_low_robust"); break;
	case O_HIGH: b_call(A.high_robust, "set_high_robust"); sim_enter(); A.chkcnt(50); sim_leave(); break;
	case O_NO: b_call(A.no_robust, "set_no_robust"); break;
	case O_OBJ: { void* a = x_newl(F(0), 0, 10, true); void* b = x_newl(F(0), 0, 10, false); void* c = x_new(F(1), 0, 10); x_rd(c); x_del(a); x_wr(c); x_un(c); x_del(b); x_del(c); break; }
	case O_FULL: { int n = 0; while(n < 10 && r_tryrd(F(1), 0, 10) == 0) n++; while(n--) r_un(F(1), 0, 10); m_try("1"); m_unlock("1"); m_try("2"); m_unlock("2"); m_try("3"); m_unlock("3"); m_try("4"); m_unlock("4"); break; }
	case O_THR: gr().flag[2] = 0; spawn([]{ m_lock("m"); m_unlock("m"); r_rd(F(0), 0, 10); r_un(F(0), 0, 10); gr().flag[2] = 1; }); gate([]{ return gr().flag[2] != 0; }); break;
	case O_FORK: { int par = self_proc(); gr().flag[3] = 0; fork_proc([par]{ memcpy(gr().fd[self_proc()], gr().fd[par], sizeof gr().fd[0]); m_lock("m"); m_unlock("m"); gr().flag[3] = 1; exit_process(); }); gate([]{ return gr().flag[3] != 0; }); break; }
	case O_DIE: case O_EXIT: { int v = 2 + rep; if(proc_alive(v)){ if(op == O_DIE) kill_proc(v); else { gr().flag[5] = (int8_t)v; gate([v]{ return !proc_alive(v); }); } } m_timed("d", 2000); m_unlock("d"); break; }
	}
}
static void history(const char* name, std::vector<int> ops, int qd, int td, bool victims, std::map<std::string, std::string> env, bool attached = true, std::function<void()> before = nullptr, bool seq = false)
{
	for(int deep = 0; deep < 2; deep++){
	int np = victims ? 5 : 2; int depth = deep ? td : qd;
	Scenario& s = mk("C21", strdup((std::string(name) + (deep ? "-deep" : "")).c_str()), np, deep ? -1 : 0, 0); s.in_quick = !deep; s.allow_stuck = true; s.zombies = false; s.rest_ms = 30; s.seq_only = seq;
	for(auto& e : env) s.env[e.first] = e.second; for(int p = 1; p < np; p++) s.env["p" + std::to_string(p) + ":FLCKROBUSTMODE"] = "NO";
	int keep = env.count("FLCKFREEFDS") ? atoi(env["FLCKFREEFDS"].c_str()) : -1; s.env.erase("FLCKFREEFDS"); const char* ref = env.count("REFUSE") ? strdup(env["REFUSE"].c_str()) : nullptr; s.env.erase("REFUSE");
	s.setup = [np, victims, attached, before, keep]{ vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); if(before) before();
		if(attached) warm(np); for(int p = 0; p < np; p++) in_proc(p, []{ gr().fd[self_proc()][0] = vopen("/data/f"); gr().fd[self_proc()][1] = vopen("/data/g"); });
		if(keep >= 0) in_proc(0, [keep]{ int n = 0, f[32]; while((f[n] = vopen("/data/g")) >= 0) n++; for(int k = 0; k < keep; k++) vclose(f[n - 1 - k]); });
		if(attached) in_proc(1, []{ EXPECT(m_lock("x"), 0); EXPECT(r_wr(gr().fd[1][0], 100, 10), 0); }); if(victims) for(int p = 2; p < 5; p++) in_proc(p, [p]{ if(p == 2) m_lock("d"); r_rd(gr().fd[p][1], 50, 5); }); };
	s.threads.push_back({0, [ops, depth, ref]{
		if(ref) vrefuse(ref); GR& g = gr(); int last = -1; std::string h;
		for(int k = 0; k < depth; k++){ std::vector<int> av; for(int o : ops){ bool dup = false; for(int j = 0; j < k; j++) dup |= g.ops[j] == o && (o == O_THR || o == O_FORK || o == O_DIE || o == O_EXIT); if(!dup) av.push_back(o); } int o = av[(size_t)choose((int)av.size(), "call")]; g.ops[k] = (int16_t)o; h += (k ? ", " : "") + std::string(opn[o]); last = o; } (void)last;
		for(int rep = 0; rep < 3; rep++){ for(int k = 0; k < depth; k++){ act(g.ops[k], rep); quiesce(1); } quiesce(2); g.r[rep] = vres(0); if(!rep) REQUIRE(g.r[0].umask == 022, "umask is %o after: %s", g.r[0].umask, h.c_str()); }
		note("fds %d %d %d, heap %ld %ld %ld, threads %d %d %d, unjoined %d %d %d", g.r[0].fds, g.r[1].fds, g.r[2].fds, g.r[0].heap, g.r[1].heap, g.r[2].heap, g.r[0].threads, g.r[1].threads, g.r[2].threads, g.r[0].unjoined, g.r[1].unjoined, g.r[2].unjoined);
		same(("from the second to the third time of: " + h).c_str(), g.r[1], g.r[2]); g.flag[0] = 1; g.flag[5] = 99; }});
	if(victims) for(int p = 2; p < 5; p++) s.threads.push_back({p, [p]{ gate([p]{ return gr().flag[5] >= p; }); exit_process(); }});
	s.on_stuck = []{ REQUIRE(gr().flag[0], "the history does not end"); };
	}
}
void reg_residue()
{
	std::vector<int> locks{O_MTX, O_BUSY, O_TIMED, O_RNG, O_RBUSY, O_NOFD, O_BADFD, O_CTIME, O_SIG, O_IS, O_OBJ, O_FULL, O_THR}, conf{O_MTX, O_RNG, O_RE, O_REB, O_REBAD, O_REDIR, O_LOW, O_HIGH, O_NO, O_THR}, all;
	for(int o = 0; o < O_FORK; o++) all.push_back(o);
	history("again-calls", locks, 4, 5, false, {}, true, nullptr, true); history("again-calls-keep", locks, 3, 4, false, {{"FLCKFREEUNITMODE", "NO"}}, true, nullptr, true); history("again-conf", conf, 3, 4, false, {});
	history("again-all", all, 2, 3, false, {}); history("again-all-first", all, 2, 3, false, {}, false);
	history("again-all-high", all, 2, 3, false, {{"FLCKROBUSTMODE", "HIGH"}}); history("again-all-low", all, 2, 3, false, {{"FLCKROBUSTMODE", "LOW"}}, false);
	// other processes are made, die and end
	std::vector<int> forks{O_MTX, O_RNG, O_RE, O_LOW, O_NO, O_OBJ, O_FORK}, deaths{O_MTX, O_RNG, O_RE, O_REB, O_LOW, O_HIGH, O_NO, O_DIE, O_EXIT, O_TIMED};
	history("again-fork", forks, 2, 3, false, {}); history("again-fork-low", forks, 2, 3, false, {{"FLCKROBUSTMODE", "LOW"}}); history("again-death", deaths, 2, 3, true, {}); history("again-death-low", deaths, 2, 3, true, {{"FLCKROBUSTMODE", "LOW"}}); history("again-death-high", deaths, 2, 3, true, {{"FLCKROBUSTMODE", "HIGH"}});
	// the shared file cannot be had: the directory is a file; the file is a directory; every call tries again
	for(int k = 0; k < 2; k++) for(int m = 0; m < 2; m++)
		history((std::string("again-blocked-") + (k ? "file" : "dir") + (m ? "-deny" : "-allow")).c_str(), all, 2, 3, false, {{"FLCKNOMAPMODE", m ? "DENY" : "ALLOW"}, {"FLCKDIRPATH", k ? "/tmp/fl" : "/data/f"}}, false, k ? []{ vmkdir("/tmp/fl"); vmkdir("/tmp/fl/shm"); } : (void(*)())nullptr);
	// the process has (almost) no free descriptors
	for(int k = 0; k < 4; k++) for(int m = 0; m < 4; m++){
		static const char* md[] = {"", "-deny", "-low", "-high"};
		history(strdup(("again-nofds-" + std::to_string(k) + md[m]).c_str()), all, 2, 3, false, {{"FLCKNOMAPMODE", m == 1 ? "DENY" : "ALLOW"}, {"FLCKROBUSTMODE", m == 2 ? "LOW" : m == 3 ? "HIGH" : "NO"}, {"FLCKFREEFDS", std::to_string(k)}}, false);
	}
	// a kind of system call is always refused
	static const char* kinds[] = {"open", "fcntl", "ftruncate", "write", "pread", "mmap", "mkdir", "pthread_create", "epoll_create1", "inotify_init1", "inotify_add_watch", "epoll_ctl", "pthread_atfork", "pthread_key_create"};
	for(int k = 0; k < 14; k++) for(int m = 0; m < 3; m++) for(int at = 0; at < 2; at++){
		bool late = k == 4 || (k >= 7 && k <= 11);  // calls of the watching thread and of the search for holders
		if((late && m < 2) || (at && m == 1) || (k == 1 && !at)) continue;
		history(strdup((std::string("again-no-") + kinds[k] + (m == 1 ? "-deny" : m == 2 ? "-high" : "") + (at ? "-later" : "")).c_str()), late || !at ? all : conf, at || (k > 11 && m < 2) ? 1 : 2, at ? 2 : 3, false, {{"FLCKNOMAPMODE", m == 1 ? "DENY_RETRY" : "ALLOW"}, {"FLCKROBUSTMODE", m == 2 ? "HIGH" : "NO"}, {"REFUSE", kinds[k]}}, at != 0);
	}
	// several threads make the first call at once while other processes come and go: afterwards the process has what a process has whose only thread attached alone
	for(int k = 0; k < 6; k++){
		static const char* nm[] = {"threads", "threads-watch", "with-others", "with-others-watch", "reinit", "reinit-watch"}; bool w = k & 1; int kind = k / 2;
		Scenario& s = mk("C21", (std::string("attach-") + nm[k]).c_str(), 3, w ? 1 : 2, w ? 2 : 3); s.rest_ms = w ? 30 : 0; s.env["FLCKROBUSTMODE"] = w ? "LOW" : "NO";
		s.setup = []{ vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < 3; p++) in_proc(p, []{ gr().fd[self_proc()][0] = vopen("/data/f"); }); };
		s.threads = {{0, [kind]{ if(kind == 2){ m_unlock("warm"); reinit(nullptr, nullptr); } else { m_lock("m"); m_unlock("m"); } gr().flag[0]++; }}, {kind == 0 ? 0 : 1, [kind]{ if(kind == 1){ m_lock("m"); m_unlock("m"); gr().flag[0]++; exit_process(); } r_rd(F(0), 0, 10); if(kind == 2 && self_proc() == 1) reinit(nullptr, nullptr); r_un(F(0), 0, 10); gr().flag[0]++; }}, {2, [kind]{ gate([kind]{ return gr().flag[0] == 2 && (kind != 1 || !proc_alive(1)); }); m_lock("m"); m_unlock("m"); quiesce(1); gr().r[2] = vres(2); }}};
		s.final_proc = 0; s.final_check = []{ Res a = vres(0); same("a process that attached alone compared with one that attached under contention", gr().r[2], a, false); };
	}
	// the watching thread is stopped at any moment of its work, also while it handles the end of another process
	for(int k = 0; k < 3; k++){
		static const char* nm[] = {"reinit", "mode", "close"};
		Scenario& s = mk("C21", (std::string("stop-") + nm[k]).c_str(), 4, 1, 2); s.rest_ms = 30; s.env["FLCKROBUSTMODE"] = "LOW"; s.env["p1:FLCKROBUSTMODE"] = s.env["p3:FLCKROBUSTMODE"] = "NO";
		s.setup = []{ vmkdir("/data"); vmkfile("/data/f"); warm(4); for(int p = 0; p < 4; p++) in_proc(p, []{ gr().fd[self_proc()][0] = vopen("/data/f"); }); in_proc(1, []{ r_rd(F(0), 0, 10); r_wr(F(0), 20, 10); }); };
		auto todo = [k]{ if(k == 0) reinit(nullptr, nullptr); else if(k == 1){ b_call(A.no_robust, "set_no_robust"); b_call(A.low_robust, "set_low_robust"); } else { reinit(nullptr, "B"); reinit(nullptr, "shm"); } r_is(F(0), 0, 10); };
		s.threads = {{0, [todo]{ todo(); gr().flag[0]++; }}, {1, [k]{ if(k == 2) reinit(nullptr, "B"); exit_process(); }}, {2, [todo]{ gate([]{ return gr().flag[0] == 1 && !proc_alive(1); }); quiesce(1); todo(); quiesce(1); gr().r[2] = vres(2); }}, {3, []{}}};
		s.final_proc = 0; s.final_check = []{ Res a = vres(0); same("a process that stopped its watching thread undisturbed compared with one that did while another process ended", gr().r[2], a); };
	}
	// the watching thread cannot start its work (no free descriptors) and ends, at any moment of the start and of the stop
	for(int k = 0; k < 4; k++) for(int m = 0; m < 2; m++){
		Scenario& s = mk("C21", strdup((std::string(m ? "fails-mode-" : "fails-call-") + std::to_string(k)).c_str()), 1, 2, 3); s.rest_ms = 30; s.env["FLCKROBUSTMODE"] = m ? "NO" : "HIGH"; s.env["FLCKNOMAPMODE"] = "DENY_RETRY";
		s.setup = [k]{ vmkdir("/data"); vmkfile("/data/g"); in_proc(0, [k]{ int n = 0, f[32]; while((f[n] = vopen("/data/g")) >= 0) n++; for(int j = 0; j < k; j++) vclose(f[n - 1 - j]); }); };
		s.threads = {{0, [m]{ m_lock("m"); m_unlock("m"); if(m){ vsetenv("FLCKROBUSTMODE", "HIGH"); reinit(nullptr, nullptr); } m_lock("m"); m_unlock("m"); reinit(nullptr, nullptr); m_lock("m"); m_unlock("m"); Res r = vres(0);
			REQUIRE(r.threads <= 2 && r.unjoined <= 1 && r.watches <= 1, "after two reinitializations: %d threads, %d never joined, %d watches", r.threads, r.unjoined, r.watches); vsetenv("FLCKROBUSTMODE", "NO"); reinit(nullptr, nullptr); r = vres(0); REQUIRE(r.threads == 1 && !r.unjoined && !r.watches, "without the watching thread: %d threads, %d never joined, %d watches", r.threads, r.unjoined, r.watches); }}};
	}
}
