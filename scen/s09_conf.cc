#include "common.h"
// C16: configuration, reinitialisation
#define NOFD(v) ((int)(0x80000000u | (v)))
enum { RF, RO, RL, RM, RC, RW, NR };
static const char* evn[NR] = {"FLCKFILECNT","FLCKOFFETCNT","FLCKLOCKERCNT","FLCKNMTXCNT","FLCKNCONDCNT","FLCKWAITERCNT"};
static const long rmin[NR] = {1, 4, 4, 1, 1, 4}, rmax[NR] = {2048, 16384, 16384, 8192, 8192, 16384}, rdef[NR] = {128, 8192, 8192, 256, 256, 8192};
static const long base[NR] = {1, 4, 12, 1, 1, 4};
struct GK { Mon mon; SeqG seq; int32_t fd[3][8]; int8_t at[3], own[3], cnt[3]; int8_t flag[8]; int16_t n[4]; };
static GK& gk(){ return ghost<GK>(); }
static int F(int i){ return gk().fd[self_proc()][i]; }
static Scenario& sc(const char* n, int np, bool seq = true)
{
	Scenario& s = mk("C16", n, np, 0, 0); s.seq_only = seq; s.env["FLCKNOMAPMODE"] = "DENY_NORETRY";
	for(int i = 0; i < NR; i++) s.env[evn[i]] = std::to_string(base[i]);
	s.setup = [np]{ vmkdir("/data"); char b[16]; for(int i = 0; i < 6; i++){ sprintf(b, "/data/%c", 'a' + i); vmkfile(b); } for(int p = 0; p < np; p++) in_proc(p, []{ char c[16]; for(int i = 0; i < 6; i++){ sprintf(c, "/data/%c", 'a' + i); gk().fd[self_proc()][i] = vopen(c); } }); };
	return s;
}
static bool rx(const char* d, const char* f, const long* v){ return reinit_ex(d, f, (size_t)v[0], (size_t)v[1], (size_t)v[2], (size_t)v[3], (size_t)v[4], (size_t)v[5]); }
// exactly n entries of resource r are available (the area is fresh, nothing is in use); r == RW only checks that n > 0
static void exactly(int r, long n, const char* why)
{
	char b[32];
	if(r == RF){ for(int i = 0; i < n; i++){ int e = r_trywr(F(i), 0, 10); REQUIRE(e == 0, "%s: only %d of %ld file entries (%d)", why, i, n, e); } int e = r_trywr(F((int)n), 0, 10); REQUIRE(e == ENOLCK, "%s: more than %ld file entries (%d)", why, n, e); for(int i = 0; i < n; i++) EXPECT(r_un(F(i), 0, 10), 0); }
	if(r == RO){ for(int i = 0; i < n; i++){ int e = r_trywr(F(0), i * 10, 10); REQUIRE(e == 0, "%s: only %d of %ld range entries (%d)", why, i, n, e); if(n > 100 && i > 90) break; } if(n > 100) return; int e = r_trywr(F(0), n * 10, 10); REQUIRE(e == ENOLCK, "%s: more than %ld range entries (%d)", why, n, e); for(int i = 0; i < n; i++) EXPECT(r_un(F(0), i * 10, 10), 0); }
	if(r == RL){ for(int i = 0; i < n; i++){ int e = r_tryrd(F(0), 0, 10); REQUIRE(e == 0, "%s: only %d of %ld lock entries (%d)", why, i, n, e); } int e = r_tryrd(F(0), 0, 10); REQUIRE(e == ENOLCK, "%s: more than %ld lock entries (%d)", why, n, e); for(int i = 0; i < n; i++) EXPECT(r_un(F(0), 0, 10), 0); }
	if(r == RM){ for(int i = 0; i < n; i++){ sprintf(b, "m%d", i); int e = m_try(b); REQUIRE(e == 0, "%s: only %d of %ld mutex names (%d)", why, i, n, e); } int e = m_try("over"); REQUIRE(e == ENOLCK, "%s: more than %ld mutex names (%d)", why, n, e); for(int i = 0; i < n; i++){ sprintf(b, "m%d", i); EXPECT(m_unlock(b), 0); } }
	if(r == RC){ EXPECT(m_lock("m0"), 0); for(int i = 0; i < n; i++){ sprintf(b, "c%d", i); int e = c_twait(b, "m0", 0); REQUIRE(e == ETIMEDOUT || e == EBUSY, "%s: only %d of %ld condition names (%d)", why, i, n, e); } int e = c_twait("over", "m0", 0); REQUIRE(e == ENOLCK, "%s: more than %ld condition names (%d)", why, n, e); m_unlock("m0"); }
}
static const char* P(const char* d){ static char b[96]; snprintf(b, sizeof b, "/tmp/fl/%s", d); return b; }
static void attach(){ m_unlock("warm"); }
static void count_scen(int r)
{
	struct V { const char* s; long eff; };
	std::vector<V>* v = new std::vector<V>{{nullptr, rdef[r]}, {"", rdef[r]}, {"0", rdef[r]}, {"-1", rdef[r]}, {"abc", rdef[r]}, {"99999", rdef[r]}};
	static char buf[NR][8][16]; int nb = 0;
	auto num = [&](long x){ sprintf(buf[r][nb], "%ld", x); const char* c = buf[r][nb++]; v->push_back({c, x >= rmin[r] && x <= rmax[r] ? x : rdef[r]}); };
	num(rmin[r] - 1); num(rmin[r]); num(rmin[r] + 1); num(rmin[r] + 2); num(rmax[r]); num(rmax[r] + 1); num(rdef[r] / 2);
	for(int by = 0; by < 2; by++){ // the variable is read at start, or at reinitialisation
		Scenario& s = sc((std::string("env-") + evn[r] + (by ? "-reinit" : "")).c_str(), 2);
		s.threads = {{0, [r, v, by]{
			const V& x = (*v)[(size_t)choose((int)v->size(), evn[r])]; if(by){ vsetenv(evn[r], r == RF || r == RM ? "3" : "6"); attach(); }
			vsetenv(evn[r], x.s); if(by) EXPECT(reinit(nullptr, nullptr), true); else attach();
			if((r == RF && x.eff <= 5) || (r != RF && r != RW && x.eff < 300)) exactly(r, x.eff, x.s ? x.s : "(unset)"); else EXPECT(m_try("m0"), 0);
			gk().flag[0] = (int8_t)(1 + (x.s ? 1 : 0)); gk().n[0] = (int16_t)x.eff; if(x.eff > 32000) fail("?");
		}}, {1, [r]{ // the same number, given as parameter to another file: same size
			gate([]{ return gk().flag[0] != 0; });
			long p[NR] = {0,0,0,0,0,0}; p[r] = gk().n[0]; EXPECT(rx(nullptr, "other", p), true); EXPECT(m_try("m0"), 0);
			long a = vsize(P("shm")), b = vsize(P("other")); REQUIRE(a == b && a > 0, "a size of %ld was expected to be in force, but the file is %ld bytes, not %ld", p[r], a, b);
		}}};
	}
}
// the entry of ReInitialize: every combination of default, valid and invalid numbers
static void params_scen()
{
	for(int pass = 0; pass < 2; pass++){
	Scenario& s = sc(pass ? "params-before" : "params", 2);
	s.threads = {{0, [pass]{
		long v[NR]; bool bad = false; long eff[NR];
		if(!pass) attach(); if(!pass) EXPECT(m_try("held"), 0);
		for(int r = 0; r < NR; r++){ int c = choose(3, evn[r]); v[r] = c == 0 ? 0 : c == 1 ? rmin[r] + 1 : r % 2 ? rmin[r] - 1 : rmax[r] + 1; if(v[r] == 0 && c == 2) v[r] = rmax[r] + 1; if(c == 2) bad = true; eff[r] = c == 0 ? base[r] : v[r]; }
		bool ok = rx(nullptr, "new", v);
		REQUIRE(ok == !bad, "fullock_reinitialize_ex returned %d", (int)ok);
		if(!ok){ REQUIRE(!vexists(P("new")), "a refused reinitialisation made the file"); if(!pass){ gk().flag[1] = 1; } else { attach(); REQUIRE(vexists(P("shm")), "after a refused reinitialisation the library does not start as configured"); } }
		else { REQUIRE(vexists(P("new")), "the file was not made"); for(int r = 0; r < RW; r++){ exactly(r, eff[r], evn[r]); if(r == RF || r == RO || r == RL || r == RM) continue; } }
		gk().flag[0] = 1;
	}}, {1, [pass]{ gate([]{ return gk().flag[0] != 0; }); if(pass) return; int e = m_try("held"); bool kept = gk().flag[1]; if(kept) REQUIRE(e == EBUSY, "after a refused reinitialisation the lock of the process is lost (trylock %d)", e); else EXPECT(e, 0); }}};
	}
	// each number separately at its limits
	for(int r = 0; r < NR; r++){
		Scenario& s = sc((std::string("limits-") + (evn[r] + 4)).c_str(), 1);
		s.threads = {{0, [r]{
			attach(); long c[] = {rmin[r] - 1, rmin[r], rmax[r], rmax[r] + 1, 99999, -1, 1L << 32 | 5}; int oth = choose(2, "others"), i = choose(7, evn[r]); long v[NR] = {0,0,0,0,0,0};
			for(int q = 0; q < NR; q++) if(q != r && oth) v[q] = rmin[q]; v[r] = c[i]; bool want = c[i] == 0 || (c[i] >= rmin[r] && c[i] <= rmax[r]);
			bool ok = rx(nullptr, "new", v); REQUIRE(ok == want, "fullock_reinitialize_ex with %s %ld returned %d", evn[r] + 4, c[i], (int)ok); EXPECT(m_try("m0"), 0); REQUIRE(vexists(P("new")) == want, "the file was %smade", want ? "not " : "");
		}}};
	}
}
// directory and file names
static void names_scen()
{
	struct D { const char* d; const char* path; }; // nullptr: refused
	static const D ds[] = {{nullptr, "/tmp/fl"}, {"", "/tmp/fl"}, {"/tmp/x", "/tmp/x"}, {"/tmp/x/", "/tmp/x"}, {"//tmp//x", "/tmp/x"}, {"/tmp/./x/.", "/tmp/x"}, {"/tmp/y/../x", "/tmp/x"}, {"/tmp/y/z/../../x", "/tmp/x"}, {"/tmp/x/y/z", "/tmp/x/y/z"}, {"x", "/cwd/x"}, {"./x", "/cwd/x"}, {"../tmp/x", "/tmp/x"}, {"x/y/..", "/cwd/x"}, {"/data/a", nullptr}, {"/data/a/x", nullptr}, {"/..", nullptr}, {"/../x", nullptr}, {"../../..", nullptr}, {"/tmp/../../x", nullptr}};
	struct N { const char* n; const char* name; };
	static const N ns[] = {{nullptr, "shm"}, {"", "shm"}, {"f1", "f1"}, {" f1 ", "f1"}, {"f 1", "f 1"}, {"a.b-c", "a.b-c"}, {"a/b", nullptr}, {"/f1", nullptr}, {"f1/", nullptr}, {"  ", nullptr}};
	const int ND = sizeof ds / sizeof ds[0], NN = sizeof ns / sizeof ns[0];
	for(int pass = 0; pass < 3; pass++){ // after the first use; as the very first call; by environment
		Scenario& s = sc(pass == 0 ? "names" : pass == 1 ? "names-first" : "names-env", 2);
		s.threads = {{0, [=]{
			const D& d = ds[choose(ND, "dir")]; const N& n = ns[choose(NN, "file")]; bool ok = d.path && n.name; int f0 = 0; char full[96] = ""; bool def = false;
			if(pass == 0){ attach(); EXPECT(m_try("held"), 0); } f0 = vfiles();
			if(pass < 2){ bool r = reinit(d.d, n.n); REQUIRE(r == ok, "fullock_reinitialize(%s, %s) returned %d", d.d ? d.d : "NULL", n.n ? n.n : "NULL", (int)r); }
			else { vsetenv("FLCKDIRPATH", d.d); vsetenv("FLCKFILENAME", n.n); attach(); def = true; }
			if(ok || def){
				const char* dir = def && (!d.path || !d.d || !*d.d) ? "/tmp/.fullock" : d.path; const char* nm = def && (!n.name || !n.n || !*n.n) ? "fullock.shm" : n.name;
				snprintf(full, sizeof full, "%s/%s", dir, nm); REQUIRE(vexists(full), "the shared file %s was not made", full);
				EXPECT(m_try("k"), 0); gk().flag[1] = (int8_t)(1 + (&d - ds)); gk().flag[2] = (int8_t)(&n - ns); gk().flag[3] = def;
			}else if(pass == 0){ REQUIRE(vfiles() == f0, "a refused reinitialisation made a file"); EXPECT(m_unlock("held"), 0); EXPECT(m_try("held"), 0); gk().flag[4] = 1; }
			else { attach(); EXPECT(m_try("k"), 0); REQUIRE(vexists("/tmp/fl/shm"), "after a refused reinitialisation the library does not start as configured"); }
			gk().flag[0] = 1;
		}}, {1, [=]{ // another process that names the same file plainly shares its locks
			gate([]{ return gk().flag[0] != 0; });
			if(gk().flag[1]){ const D& d = ds[gk().flag[1] - 1]; const N& n = ns[(int)gk().flag[2]]; bool def = gk().flag[3]; EXPECT(reinit(def && (!d.path || !d.d || !*d.d) ? "/tmp/.fullock" : d.path, def && (!n.name || !n.n || !*n.n) ? "fullock.shm" : n.name), true); EXPECT(m_try("k"), EBUSY); }
			else if(gk().flag[4]) EXPECT(m_try("held"), EBUSY);
		}}};
	}
	{	// default directory
		Scenario& s = sc("names-default-dir", 1); s.env["FLCKDIRPATH"] = "\x01"; s.env["FLCKFILENAME"] = "\x01";
		s.threads = {{0, []{ int k = choose(3, "antpickax"); if(k == 1) vmkdir("/var/lib/antpickax"); if(k == 2) vmkfile("/var/lib/antpickax"); if(choose(2, "reinit")) EXPECT(reinit(nullptr, nullptr), true); EXPECT(m_try("k"), 0); REQUIRE(vexists(k == 1 ? "/var/lib/antpickax/.fullock/fullock.shm" : "/tmp/.fullock/fullock.shm"), "the shared file is not at its default place"); REQUIRE(vfiles() == 7 + (k == 2), "%d files", vfiles()); }}};
	}
}
// histories of reinitialisations of two processes between two files, with locks
static void moves_scen()
{
	for(int th = 0; th < 2; th++){
		Scenario& s = sc(th ? "moves-deep" : "moves", 2); if(th) s.in_quick = false; else s.thorough.max_sec = 1;
		s.env["FLCKNMTXCNT"] = "3"; auto su = s.setup; s.setup = [su]{ su(); for(int p = 0; p < 2; p++) in_proc(p, []{ attach(); }); };
		SeqDef d{2, th ? 7 : 5};
		auto step = [](int me){
			GK& g = gk(); static const char* fn[] = {"shm", "B", "C"}; int op = choose(5, "op"); int f = g.at[me];
			if(op < 3){
				int to = op; bool v = reinit(nullptr, fn[to]); REQUIRE(v, "reinitialize failed"); if(g.at[1 - me] != to){ g.own[to] = 0; g.cnt[to] = 0; } g.at[me] = (int8_t)to;
			}else if(op == 3){ int r = m_try("m"); bool ok = !g.own[f] || g.own[f] == me + 1; REQUIRE(r == (ok ? 0 : EBUSY), "trylock returned %d after the moves, expected %d", r, ok ? 0 : EBUSY); if(ok){ g.own[f] = (int8_t)(me + 1); g.cnt[f]++; } }
			else { int r = m_unlock("m"); if(!g.own[f]) REQUIRE(r == 0 || r == EINVAL, "unlock returned %d", r); else REQUIRE(r == (g.own[f] == me + 1 ? 0 : EPERM), "unlock returned %d after the moves", r); if(g.own[f] == me + 1 && !--g.cnt[f]) g.own[f] = 0; }
		};
		for(int i = 0; i < 2; i++) s.threads.push_back({i, [i, d, step]{ seq_agent<GK>(i, d, step); }});
	}
	// reinitialisations while others use the files
	static const char* fn[] = {"shm", "B"};
	auto use = [](int f, const char* w){ int r = m_lock("m"); REQUIRE(r == 0, "lock returned %d to %s", r, w); enter_w(f, w); point(); leave_w(f); EXPECT(m_unlock("m"), 0); };
	auto go = [](int f){ EXPECT(reinit(nullptr, fn[f]), true); };
	for(int wk = 0; wk < 2; wk++) for(int v = 0; v < 4; v++){
		Scenario& s = sc((std::string(wk ? "moves-watched-" : "moves-race-") + char('a' + v)).c_str(), 3, false); s.quick.preempt = wk ? v != 3 : 2; s.thorough.preempt = wk ? 1 + (v != 3) : 3; if(wk){ s.env["FLCKROBUSTMODE"] = "LOW"; s.rest_ms = 30; }
		auto su = s.setup; s.setup = [su]{ su(); for(int p = 0; p < 2; p++) in_proc(p, []{ attach(); }); };
		if(v == 0) s.threads = {{0, [=]{ go(1); use(1, "process 0"); }}, {1, [=]{ go(1); use(1, "process 1"); }}};
		if(v == 1) s.threads = {{0, [=]{ go(1); use(1, "process 0"); go(0); use(0, "process 0"); }}, {1, [=]{ use(0, "process 1"); use(0, "process 1"); }}};
		if(v == 2) s.threads = {{0, [=]{ use(0, "process 0"); go(1); use(1, "process 0"); }}, {1, [=]{ go(1); use(1, "process 1"); go(0); use(0, "process 1"); }}};
		if(v == 3) s.threads = {{0, [=]{ go(0); use(0, "process 0"); }}, {1, [=]{ go(0); use(0, "process 1"); }}, {2, [=]{ use(0, "process 2"); }}};
		s.final_check = [wk]{ REQUIRE(nthreads(0) == 1 + wk, "process 0 has %d threads of the library", nthreads(0) - 1); EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); };
	}
	// a parameter or environment value holds for the next initialisation only
	Scenario& s = sc("values-reset", 1);
	s.threads = {{0, []{
		int first = choose(2, "first call"); long v[NR]; for(int r = 0; r < NR; r++) v[r] = rmin[r] + 1; if(first) attach(); EXPECT(rx(nullptr, "B", v), true); for(int r = 0; r < RW; r++) exactly(r, v[r], "given");
		EXPECT(reinit(nullptr, "D"), true); for(int r = 0; r < RW; r++) exactly(r, base[r], "environment after parameter"); long a = vsize(P("D"));
		for(int r = 0; r < NR; r++) vsetenv(evn[r], nullptr); EXPECT(reinit(nullptr, "E"), true); EXPECT(m_try("m0"), 0); long e = vsize(P("E")); long q[NR]; for(int r = 0; r < NR; r++) q[r] = rdef[r]; EXPECT(rx(nullptr, "G", q), true); long g = vsize(P("G")); REQUIRE(e == g && e > a, "with no variable set any more the sizes in force are not the defaults (%ld, %ld bytes)", e, g);
	}}};
}
static void modes_scen()
{
	static const char* fm[] = {"\x01", "", "NO", "no", "FD", "fd", "OFFSET", "Offset", "ALWAYS", "bogus"}; static const int fx[] = {0, 0, 2, 2, 0, 0, 1, 1, 0, 0};
	auto probe = [](int mode, const char* why){
		for(int i = 0; i < 6; i++){ int e = r_trywr(F(0), i * 10, 10); REQUIRE(e == (mode == 2 && i >= 4 ? ENOLCK : 0), "%s: range %d locked one after the other: %d", why, i, e); if(!e) EXPECT(r_un(F(0), i * 10, 10), 0); }
		int e = r_trywr(F(1), 0, 10); REQUIRE(e == (mode == 0 ? 0 : ENOLCK), "%s: a second file after the first: %d", why, e);
	};
	{ Scenario& s = sc("freeunit-env", 1); s.threads = {{0, [probe]{ int k = choose(10, "FLCKFREEUNITMODE"), re = choose(2, "reinit"); vsetenv("FLCKFREEUNITMODE", re ? (k == 1 || k == 9 || k == 0 ? nullptr : "NO") : fm[k][0] == 1 ? nullptr : fm[k]); attach(); if(re){ vsetenv("FLCKFREEUNITMODE", fm[k][0] == 1 ? nullptr : fm[k]); EXPECT(reinit(nullptr, "N"), true); } probe(fx[k], fm[k]); }}}; }
	{ Scenario& s = sc("freeunit-set", 1); s.threads = {{0, [probe]{ int k = choose(3, "start"), j = choose(3, "set"), when = choose(2, "before"); vsetenv("FLCKFREEUNITMODE", k == 0 ? "FD" : k == 1 ? "OFFSET" : "NO"); attach(); (void)when; EXPECT(b_call(j == 0 ? A.free_fd : j == 1 ? A.free_off : A.free_no, "freeunit"), true); probe(j, "setter"); }}}; }
	{	// robust mode decides about the watching thread
		static const char* rm[] = {"\x01", "", "NO", "no", "LOW", "low", "HIGH", "High", "bogus"}; static const int rxp[] = {1, 1, 0, 0, 1, 1, 1, 1, 1};
		Scenario& s = sc("robust-env", 1, false); s.env["FLCKROBUSTMODE"] = "\x01"; s.threads = {{0, []{ int k = choose(9, "FLCKROBUSTMODE"); vsetenv("FLCKROBUSTMODE", rm[k][0] == 1 ? nullptr : rm[k]); attach(); int n = nthreads(0) - 1; REQUIRE(n == rxp[k], "robust mode '%s': %d threads of the library, expected %d", rm[k], n, rxp[k]);
			bool hi = k == 0 || k == 1 || k >= 6; bool c = A.chkcnt(choose(2, "count") ? 1000000 : 100000); REQUIRE(c == hi, "fullock_set_robust_check_count returned %d in robust mode '%s'", (int)c, rm[k]); }}}; s.rest_ms = 30;
	}
	{ Scenario& s = sc("robust-set", 1); s.threads = {{0, []{ attach(); int a = choose(3, "mode"), b = choose(3, "mode"); for(int m : {a, b}) EXPECT(b_call(m == 0 ? A.no_robust : m == 1 ? A.low_robust : A.high_robust, "robust"), true); int v = choose(3, "count"); sim_enter(); bool r = A.chkcnt(v == 0 ? 0 : v == 1 ? -1 : 5000); sim_leave(); REQUIRE(r == (b == 2 && v == 2), "fullock_set_robust_check_count returned %d", (int)r); }}}; }
	{	// permissions of the shared file
		static const char* um[] = {"\x01", "", "0", "022", "077", "0x12", "18", "0777", "-1", "01000", "abc"}; static const int ux[] = {0, 0, 0, 022, 077, 022, 022, 0, 0, 0, 0};
		Scenario& s = sc("umask-env", 1); s.threads = {{0, []{ int k = choose(11, "FLCKUMASK"), re = choose(2, "reinit"); int u0 = vumask(); if(re) attach(); vsetenv("FLCKUMASK", um[k][0] == 1 ? nullptr : um[k]); if(re) EXPECT(reinit("/tmp/n/m", "N"), true); else attach(); int m = vmode(re ? "/tmp/n/m/N" : "/tmp/fl/shm"); REQUIRE(m == (0666 & ~ux[k]), "FLCKUMASK '%s': the file has mode %o", um[k], m); REQUIRE(vumask() == u0, "the umask of the process was changed to %o", vumask()); }}};
	}
	{	// FLCKAUTOINIT
		static const char* ai[] = {"\x01", "", "YES", "yes", "bogus", "NO", "no", "No"};
		Scenario& s = sc("autoinit", 2); s.threads = {{0, []{ int k = choose(8, "FLCKAUTOINIT"); bool on = k < 5; int n0 = vfiles(); vsetenv("FLCKAUTOINIT", ai[k][0] == 1 ? nullptr : ai[k]); int e = m_try("m0"); REQUIRE(e == (on ? 0 : ENOLCK), "FLCKAUTOINIT=%s: trylock returned %d", ai[k], e); REQUIRE(vfiles() == n0 + on, "FLCKAUTOINIT=%s: %d files made", ai[k], vfiles() - n0);
			if(!on){ int v = choose(2, "dir"); EXPECT(reinit(v ? "/tmp/q" : nullptr, nullptr), true); REQUIRE(vexists(v ? "/tmp/q/shm" : "/tmp/fl/shm"), "no file after reinitialize"); EXPECT(m_try("m0"), 0); gk().flag[1] = (int8_t)v; } gk().flag[0] = 1; }},
			{1, []{ gate([]{ return gk().flag[0] != 0; }); if(gk().flag[1]) EXPECT(reinit("/tmp/q", nullptr), true); EXPECT(m_try("m0"), EBUSY); }}};
	}
	// number of waiters that can wait at the same time, given by environment or parameter
	for(int n = 4; n <= 6; n++) for(int by = 0; by < 2; by++){
		Scenario& s = mk("C16", (std::string("waiters-") + std::to_string(n) + (by ? "-param" : "-env")).c_str(), 2, 0, 1); s.calm = true; s.env["FLCKNOMAPMODE"] = "DENY_NORETRY"; s.env["FLCKWAITERCNT"] = by ? "16" : std::to_string(n);
		s.setup = [by, n]{ for(int p = 0; p < 2; p++) in_proc(p, [by, n]{ if(by){ long v[NR] = {0,0,0,0,0,n}; EXPECT(rx(nullptr, "W", v), true); } else attach(); }); };
		for(int t = 0; t < n; t++) s.threads.push_back({t / 4, []{ EXPECT(m_lock("m"), 0); EXPECT(c_wait("c", "m"), 0); EXPECT(m_unlock("m"), 0); }});
		s.threads.push_back({1, [n]{ settle(); EXPECT(m_lock("m"), 0); int r = c_wait("c", "m"); REQUIRE(r == ENOLCK, "a wait with all %d waiter entries in use returned %d", n, r); EXPECT(m_unlock("m"), 0); EXPECT(c_bcast("c"), 0); }});
	}
}
void reg_conf()
{
	for(int r = 0; r < NR; r++) count_scen(r);
	params_scen(); names_scen(); moves_scen(); modes_scen();
}
