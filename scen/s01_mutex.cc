#include "common.h"
// C01 named mutex exclusion, C02 ownership and recursion
static int acq(const char* n, int how)
{
	int r = how == KIND_LOCK ? m_lock(n) : how == KIND_TRY ? m_try(n) : m_timed(n, 10000000);
	if(how == KIND_LOCK) EXPECT(r, 0);
	else if(how == KIND_TRY) REQUIRE(r == 0 || r == EBUSY, "mutex trylock returned %d", r);
	else REQUIRE(r == 0 || r == ETIMEDOUT, "mutex timedlock returned %d", r);
	return r;
}
static void use(const char* n, int k, int how){ if(!acq(n, how)){ enter_w(k, n); point(); leave_w(k); EXPECT(m_unlock(n), 0); } }
static void excl(const char* name, int np, std::vector<int> procs, int qp, int tp, bool exist, bool high, std::function<void(int)> body, double qs = 60)
{
	Scenario& s = mk("C01", name, np, qp, tp, qs);
	s.setup = [np, exist, high]{ if(high) warm_high(np); else warm(np); if(exist) in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); }); };
	for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [body, i]{ body((int)i); }});
	s.final_check = []{ EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); };
}
struct G2 { Mon mon; SeqG seq; int8_t owner[12], cnt[12]; };
static void mtx_seq(const char* name, int qd, std::vector<int> procs, std::vector<const char*> names, bool high, bool thorough, const char* prop = "C02")
{
	Scenario& s = mk(prop, name, 3, thorough ? -1 : 0, 0); s.seq_only = true; if(names.size() > 3){ s.env["FLCKNMTXCNT"] = "9"; s.env["FLCKNCONDCNT"] = "2"; }
	s.setup = [high]{ if(high) warm_high(3); else warm(3); };
	SeqDef d{(int)procs.size(), qd};
	auto step = [names](int me){
		G2& g = ghost<G2>(); int k = choose((int)names.size(), "name"); const char* n = names[k]; bool mine = g.owner[k] == me + 1, fre = !g.owner[k];
		int op = choose(5, "op");
		switch(op){
		case 0: if(!mine && !fre) op = 1; else { EXPECT(m_lock(n), 0); break; } // fallthrough
		case 1: EXPECT(m_try(n), (mine || fre) ? 0 : EBUSY); break;
		case 2: { int r = m_timed(n, 0); REQUIRE((mine || fre) ? r == 0 : (r == EBUSY || r == ETIMEDOUT), "timedlock with a zero timeout returned %d", r); break; }
		case 3: EXPECT(m_timed(n, 4000), (mine || fre) ? 0 : ETIMEDOUT); break;
		case 4: { int r = m_unlock(n); if(mine){ REQUIRE(r == 0, "unlock by the owner (%d level(s) held) returned %d", g.cnt[k], r); if(--g.cnt[k] == 0) g.owner[k] = 0; } else if(!fre) REQUIRE(r == EPERM, "unlock by a thread that does not own the mutex returned %d, expected EPERM", r); else REQUIRE(r == 0 || r == EINVAL, "unlock of a free mutex returned %d", r); return; }
		}
		if(mine || fre){ g.owner[k] = (int8_t)(me + 1); g.cnt[k]++; }
	};
	for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [i, d, step]{ seq_agent<G2>((int)i, d, step); }});
	// whatever happened: an uninvolved process sees exactly the mutexes still held as busy
	s.final_proc = 2;
	s.final_check = [names]{ G2& g = ghost<G2>(); for(size_t k = 0; k < names.size(); k++){ int r = m_try(names[k]); REQUIRE(r == (g.owner[k] ? EBUSY : 0), "mutex held %d level(s): trylock by an outsider returned %d", g.cnt[k], r); if(!r) EXPECT(m_unlock(names[k]), 0); } };
}
struct G3 { Mon mon; int8_t owner; };
void reg_mutex()
{
	auto lk = [](int){ use("m", 0, KIND_LOCK); };
	excl("mutex-2proc", 2, {0,1}, 3, 5, false, false, lk);
	excl("mutex-2thr", 1, {0,0}, 3, 5, false, false, lk);
	excl("mutex-exist-2proc", 2, {0,1}, 3, 5, true, false, lk);
	excl("mutex-3", 2, {0,0,1}, 2, 3, false, false, lk);
	excl("mutex-3-exist", 3, {0,1,2}, 2, 3, true, false, lk);
	excl("mutex-mixed", 2, {0,1}, 2, 3, true, false, [](int){ use("m", 0, choose(3, "how")); });
	excl("mutex-mixed-new", 2, {0,1}, 2, 3, false, false, [](int){ use("m", 0, choose(3, "how")); });
	excl("mutex-twice", 2, {0,1}, 2, 3, true, false, [](int){ for(int i = 0; i < 2; i++) use("m", 0, KIND_LOCK); });
	excl("mutex-try-3", 2, {0,0,1}, 2, 3, true, false, [](int t){ use("m", 0, t == 0 ? KIND_LOCK : t == 1 ? KIND_TRY : KIND_TIMED); });
	excl("mutex-high", 2, {0,1}, 2, 3, true, true, lk);
	excl("mutex-high-3", 2, {0,0,1}, 1, 2, false, true, lk);
	excl("mutex-create-race", 3, {0,1,2}, 2, 3, false, false, [](int t){ if(t == 1){ use("other", 1, KIND_LOCK); use("m", 0, KIND_LOCK); } else use("m", 0, KIND_LOCK); });
	excl("mutex-recurse", 2, {0,1}, 2, 4, true, false, [](int t){
		if(t == 0){ EXPECT(m_lock("m"), 0); enter_w(0, "m"); EXPECT(m_lock("m"), 0); EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); point(); EXPECT(m_unlock("m"), 0); point(); leave_w(0); EXPECT(m_unlock("m"), 0); }
		else use("m", 0, KIND_LOCK); });

	for(int len : {1, 2, 62, 63, 64, 65, 127, 300}){	// names of any length, made and found by different threads
		static char nm[301]; memset(nm, 'n', 300); char* n = strdup(nm); n[len] = 0;
		excl(("mutex-name-" + std::to_string(len)).c_str(), 2, {0,1}, len < 100 ? 1 : 0, 2, false, false, [n](int t){ for(int i = 0; i < 2; i++) use(n, 0, t ? KIND_LOCK : choose(3, "how")); });
	}
	{	// names that are prefixes of each other, differ in one character (first, last, case), or are in use by many entries: every name is one mutex of its own
		static std::vector<std::string> nm = {"m", "mm", "M", "m ", std::string(62, 'n'), std::string(63, 'n'), std::string(62, 'n') + "m", "m" + std::string(62, 'n'), "\xff\x80"};
		std::vector<const char*> v; for(auto& n : nm) v.push_back(n.c_str());
		mtx_seq("mutex-names-seq", 3, {0,1}, v, false, false, "C01");
		mtx_seq("mutex-names-seq-high", 2, {0,1}, v, true, false, "C01");
	}

	// ---- C02
	mtx_seq("own-seq-2p", 10, {0,1}, {"a","b"}, false, false);
	mtx_seq("own-seq-3", 9, {0,0,1}, {"a","b"}, false, false);
	mtx_seq("own-seq-high", 9, {0,1}, {"a","b"}, true, false);
	mtx_seq("own-seq-deep", 14, {0,0,1}, {"a","b"}, false, true);
	{	// a non-owner's unlock at any moment never takes the lock away
		Scenario& s = mk("C02", "own-foreign-unlock", 3, 2, 3);
		s.setup = []{ warm(3); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, []{ use("m", 0, KIND_LOCK); }});
		s.threads.push_back({1, []{ use("m", 0, KIND_LOCK); }});
		s.threads.push_back({2, []{ int r = m_unlock("m"); REQUIRE(r == 0 || r == EPERM, "unlock by a non-owner returned %d", r); }});
	}
	{	// same, other thread of the owner's process
		Scenario& s = mk("C02", "own-foreign-unlock-thr", 2, 2, 3);
		s.setup = []{ warm(2); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, []{ use("m", 0, KIND_LOCK); }});
		s.threads.push_back({0, []{ int r = m_unlock("m"); REQUIRE(r == 0 || r == EPERM, "unlock by a non-owner returned %d", r); }});
		s.threads.push_back({1, []{ use("m", 0, KIND_LOCK); }});
	}
	{	// many levels: as many unlocks as locks, whatever their number
		struct GM { Mon mon; int8_t flag[8]; };
		Scenario& s = mk("C02", "own-many", 2, 0, 0); s.setup = []{ warm(2); };
		s.threads.push_back({0, []{ static const int ns[] = {127, 128, 255, 256, 257, 32768, 65536}; int n = ns[choose(7, "levels")]; for(int i = 0; i < n; i++){ int r = i % 3 ? m_lock("m") : m_try("m"); REQUIRE(r == 0, "lock of level %d returned %d", i + 1, r); }
			for(int i = 0; i < n; i++){ if(i < 2 || i >= n - 3 || !(i & (i - 1)) || (i & 255) == 255){ ghost<GM>().flag[0] = 1; gate([]{ return !ghost<GM>().flag[0]; }); } int r = m_unlock("m"); REQUIRE(r == 0, "unlock of level %d returned %d", n - i, r); } ghost<GM>().flag[1] = 1; }});
		s.threads.push_back({1, []{ for(;;){ gate([]{ return ghost<GM>().flag[0] || ghost<GM>().flag[1]; }); if(ghost<GM>().flag[1]) break; EXPECT(m_try("m"), EBUSY); ghost<GM>().flag[0] = 0; } EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); }});
	}
	for(int v = 0; v < 4; v++){
		// an owner dies (one level or two held) while others clear and take the mutex: every level the new owner takes counts
		static const char* vn[] = {"", "-two", "-worker", "-3"};
		Scenario& s = mk("C02", strdup((std::string("own-levels-after-death") + vn[v]).c_str()), v == 3 ? 4 : 3, v == 3 ? 1 : 2, v == 3 ? 2 : 3);
		s.setup = [v]{ int np = v == 3 ? 4 : 3; warm_high(np); in_proc(0, [v]{ EXPECT(m_lock("m"), 0); if(v == 1) EXPECT(m_lock("m"), 0); }); };
		s.threads.push_back({0, []{ die(); }});
		auto lv = [](bool dead){ if(dead) gate([]{ return !proc_alive(0); }); EXPECT(m_lock("m"), 0); enter_w(0, "m"); EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); point(); leave_w(0); EXPECT(m_unlock("m"), 0); };
		s.threads.push_back({1, [lv, v]{ lv(v != 2); }});
		s.threads.push_back({2, [v]{ if(v == 2){ gate([]{ return !proc_alive(0); }); int r = m_try("m"); REQUIRE(r == 0 || r == EBUSY, "try %d", r); if(!r){ enter_w(0, "m"); EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); point(); leave_w(0); EXPECT(m_unlock("m"), 0); } } else { gate([]{ return !proc_alive(0); }); EXPECT(m_lock("m"), 0); enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); } }});
		if(v == 3) s.threads.push_back({3, [lv]{ lv(true); }});
		s.final_proc = 1; s.final_check = []{ EXPECT(m_try("m"), 0); EXPECT(m_unlock("m"), 0); };
	}
	{	// recursion depth counted exactly under contention: n-1 unlocks keep the mutex
		Scenario& s = mk("C02", "own-levels", 2, 2, 3);
		s.setup = []{ warm(2); in_proc(0, []{ EXPECT(m_lock("m"), 0); EXPECT(m_unlock("m"), 0); }); };
		s.threads.push_back({0, []{ int n = 2 + choose(2, "levels"); for(int i = 0; i < n; i++){ EXPECT(i & 1 ? m_try("m") : m_lock("m"), 0); if(!i) enter_w(0, "m"); } for(int i = 0; i < n; i++){ if(i == n - 1) leave_w(0); EXPECT(m_unlock("m"), 0); } EXPECT(m_unlock("m") == 0 || m_unlock("m") == EPERM, 1); }});
		s.threads.push_back({1, []{ int r = m_try("m"); REQUIRE(r == 0 || r == EBUSY, "try %d", r); if(!r){ enter_w(0, "m"); point(); leave_w(0); EXPECT(m_unlock("m"), 0); } use("m", 0, KIND_LOCK); }});
	}
}
