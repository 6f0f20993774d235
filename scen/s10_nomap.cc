#include "common.h"
// C17: behaviour without the shared file, and attaching later
struct GN { Mon mon; int32_t fd[4]; int8_t flag[8]; };
static GN& gn(){ return ghost<GN>(); }
static int F(){ return gn().fd[self_proc()]; }
static const char* mv[] = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY", "ALLOW", "DENY", "allow_noretry", "Deny_Retry", "bogus", "\x01"};
static const int mx[] = {0, 1, 2, 3, 0, 1, 0, 3, 0, 0}; // bit 0 deny, bit 1 retry
enum { NCALL = 18 };
static int docall(int k, int fd, bool& islk)
{
	islk = false;
	switch(k){
	case 0: return m_lock("m"); case 1: return m_try("m"); case 2: return m_timed("m", 1000); case 3: return m_unlock("m");
	case 4: return r_rd(fd, 0, 10); case 5: return r_tryrd(fd, 0, 10); case 6: return r_trd(fd, 0, 10, 1000); case 7: return r_wr(fd, 0, 10); case 8: return r_trywr(fd, 0, 10); case 9: return r_twr(fd, 0, 10, 1000); case 10: return r_un(fd, 0, 10);
	case 11: islk = true; return r_is(fd, 0, 10);
	case 12: return c_wait("c", "m"); case 13: return c_twait("c", "m", 1000); case 14: return c_signal("c"); case 15: return c_bcast("c");
	case 16: return m_unlock("m2"); default: return r_un(fd, 0, 0);
	}
}
static void setter(int m){ EXPECT(b_call(m == 0 ? A.allow_nr : m == 1 ? A.deny_nr : m == 2 ? A.allow_r : A.deny_r, "set nomap mode"), true); }
static Scenario& sc(const char* n, int np, int qp, int tp, int block) // block: 1 a directory is in the way, 2 no automatic start
{
	Scenario& s = mk("C17", n, np, qp, tp); if(block == 2) s.env["FLCKAUTOINIT"] = "NO";
	s.setup = [np, block]{ vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, []{ gn().fd[self_proc()] = vopen("/data/f"); }); if(block == 1){ vmkdir("/tmp/fl"); vmkdir("/tmp/fl/shm"); } };
	return s;
}
static void excl(const char* w){ enter_w(0, w); point(); leave_w(0); }
void reg_nomap()
{
	for(int block = 1; block <= 2; block++) for(int by = 0; by < 2; by++){
		Scenario& s = sc((std::string(block == 1 ? "answers-blocked" : "answers-off") + (by ? "-set" : "-env")).c_str(), 2, 0, 0, block); s.seq_only = true;
		s.threads = {{0, [by, block]{
			int k = choose(10, "mode"), m = mx[k], a = choose(NCALL, "call"), b = choose(NCALL, "call"); vsetenv("FLCKNOMAPMODE", mv[k][0] == 1 ? nullptr : mv[k]);
			if(by){ bool q; docall(a, F(), q); m = choose(4, "setter"); setter(m); }
			for(int c : {a, b}){ bool q; int64_t t0 = now(); int r = docall(c, F(), q); int want = q ? (m & 1) : (m & 1) ? ENOLCK : 0; REQUIRE(r == want, "call without shared file in mode %s: %d, expected %d", by ? "(set)" : mv[k], r, want); REQUIRE(now() - t0 < 100000000, "the call took %ld ms", (long)((now() - t0) / 1000000)); }
			EXPECT(m_lock(nullptr), EINVAL);
			// once the file can be made: the retry modes use it, the others go on as before
			if(block == 1){ vunlink("/tmp/fl/shm"); int r = m_lock("m"); REQUIRE(r == ((m & 2) ? 0 : (m & 1) ? ENOLCK : 0), "the call after the obstacle has gone returned %d", r); REQUIRE(vexists("/tmp/fl/shm") == ((m & 2) != 0), "the shared file was %smade", (m & 2) ? "not " : ""); gn().flag[1] = (m & 2) != 0; if(m & 2){ EXPECT(r_wr(F(), 0, 10), 0); EXPECT(r_is(F(), 0, 10), 1); EXPECT(r_trywr(F(), 5, 10), EBUSY); } }
			else { EXPECT(reinit(nullptr, nullptr), true); EXPECT(m_lock("m"), 0); EXPECT(r_wr(F(), 0, 10), 0); gn().flag[1] = 1; }
			gn().flag[0] = 1;
		}}, {1, [block]{ gate([]{ return gn().flag[0] != 0; }); if(block == 2) EXPECT(reinit(nullptr, nullptr), true); EXPECT(m_try("m"), gn().flag[1] ? EBUSY : 0); EXPECT(r_trywr(F(), 5, 10), gn().flag[1] ? EBUSY : 0); }}};
	}
	// a descriptor that cannot be resolved
	for(int cl = 0; cl < 2; cl++){
		Scenario& s = sc(cl ? "bad-fd-closed" : "bad-fd", 1, 0, 0, 0); s.seq_only = true;
		s.threads = {{0, [cl]{ int k = choose(10, "mode"), m = mx[k], a = 4 + choose(8, "call"); vsetenv("FLCKNOMAPMODE", mv[k][0] == 1 ? nullptr : mv[k]); EXPECT(r_wr(F(), 20, 10), 0); int bad = 77; if(cl){ bad = vopen("/data/f"); vclose(bad); }
			bool q; int r = docall(a, bad, q); int want = q ? 0 : (m & 1) ? ENOLCK : 0; REQUIRE(r == want, "call with a bad descriptor in mode %s: %d, expected %d", mv[k], r, want); EXPECT(r_is(F(), 0, 10), 0); EXPECT(r_trywr(F(), 25, 10), EBUSY); EXPECT(r_un(F(), 20, 10), 0); for(int i = 0; i < 8; i++) EXPECT(r_rd(F(), 0, 10), 0); EXPECT(r_rd(F(), 0, 10), ENOLCK); }}};
	}
	// retry modes: several threads and processes attach at the same moment
	for(int o = 0; o < 2; o++) for(int low = 0; low < 2; low++) for(int deny = 0; deny < 2; deny++){
		std::string x = std::string(o ? "range" : "mutex") + (deny ? "-deny" : "-allow") + (low ? "-watch" : "");
		auto md = [=](Scenario& s){ s.env["FLCKNOMAPMODE"] = deny ? "DENY_RETRY" : "ALLOW_RETRY"; if(low){ s.env["FLCKROBUSTMODE"] = "LOW"; s.rest_ms = 30; }
			auto su = s.setup; s.setup = [su]{ su(); for(int p = 0; p < 2; p++) in_proc(p, []{ m_unlock("warm"); }); };
			s.final_check = [=]{ for(int k = 0; k < 2; k++){ EXPECT(k ? r_trywr(F(), 0, 10) : m_try("m"), 0); EXPECT(k ? r_un(F(), 0, 10) : m_unlock("m"), 0); } REQUIRE(nthreads(0) == 1 + low, "process 0 has %d threads of the library, expected %d", nthreads(0) - 1, low); }; };
		auto use = [=](const char* w, bool must){ int r = o ? r_wr(F(), 0, 10) : m_lock("m"); if(must) REQUIRE(r == 0, "the lock call of %s returned %d although the file could be made", w, r); else REQUIRE(r == 0 || (deny && r == ENOLCK), "the lock call of %s returned %d", w, r); if(r) return; if(must || deny) excl(w); EXPECT(o ? r_un(F(), 0, 10) : m_unlock("m"), must || deny ? 0 : 0); };
		// free again before the calls begin: every call must attach
		{ Scenario& s = sc(("retry-threads-" + x).c_str(), 2, low ? 1 : 2, low ? 2 : 3, 1); md(s); auto su = s.setup; s.setup = [su]{ su(); vunlink("/tmp/fl/shm"); }; s.threads = {{0, [=]{ use("thread 0", true); }}, {0, [=]{ use("thread 1", true); }}}; }
		{ Scenario& s = sc(("retry-threads3-" + x).c_str(), 2, 1, 2, 1); md(s); auto su = s.setup; s.setup = [su]{ su(); vunlink("/tmp/fl/shm"); }; s.threads = {{0, [=]{ use("thread 0", true); }}, {0, [=]{ use("thread 1", true); }}, {1, [=]{ use("process 1", true); }}}; }
		{ Scenario& s = sc(("retry-procs-" + x).c_str(), 2, low ? 1 : 2, low ? 2 : 3, 1); md(s); auto su = s.setup; s.setup = [su]{ su(); vunlink("/tmp/fl/shm"); }; s.threads = {{0, [=]{ use("process 0", true); use("process 0", true); }}, {1, [=]{ use("process 1", true); }}}; }
		// ... at any moment while they run
		if(deny) { Scenario& s = sc(("retry-while-" + x).c_str(), 2, low ? 1 : 2, low ? 2 : 3, 1); md(s); s.threads = {{0, [=]{ use("thread 0", false); use("thread 0", false); }}, {0, [=]{ use("thread 1", false); }}, {1, [=]{ point(); vunlink("/tmp/fl/shm"); use("process 1", true); }}}; }
	}
}
