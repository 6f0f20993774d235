#include "common.h"
// C03 rwlock exclusion & sharing, C04 unlock matching, C05 independence/identity, C18 islocked
#define NOFD(v) ((int)(0x80000000u | (v)))
struct GF { Mon mon; SeqG seq; int32_t fd[4][8]; struct { int8_t used, agent, fdi, rng, wr; } acq[12]; int8_t flag[8]; };
static GF& gf(){ return ghost<GF>(); }
// open the same files in every process: fd[p][0], fd[p][1] on /data/f ; fd[p][2] on /data/g ; fd[p][3] a no-file lock; with ids: fd[p][4..6] files whose device or inode number is that of /data/f
// the numbers of the descriptors differ from process to process
static void files(int np, bool high = false, bool (*fu)(void) = nullptr, bool ids = false)
{
	if(high) warm_high(np); else warm(np);
	vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g");
	for(int p = 0; p < np; p++) in_proc(p, [p, fu, ids]{ GF& g = gf(); g.fd[p][3] = NOFD(7);
		static const char* nm[] = {"/data/f", "/data/f", "/data/g", "", "/data/h", "/mnt/f", "/mnt/g"}; if(ids){ vmkdir("/mnt"); vmkfile_like("/data/h", "/data/f", 0, 1LL << 32); vmkfile_like("/mnt/f", "/data/f", 1, 0); vmkfile_like("/mnt/g", "/data/f", 1LL << 32, 0); }
		std::vector<int> k = ids ? std::vector<int>{0, 1, 2, 4, 5, 6} : std::vector<int>{0, 1, 2}; for(size_t i = 0; i < k.size(); i++){ int j = k[(i + 2 * (size_t)p) % k.size()]; g.fd[p][j] = vopen(nm[j]); }
		if(fu) b_call(fu, "freeunit"); });
}
static int F(int i){ return gf().fd[self_proc()][i]; }
enum { RD = 0, WR, TRD, TWR, TMRD, TMWR };
static int rwacq(int how, int f, long o, size_t l)
{
	int r; long t = 10000000;
	switch(how){ case RD: r = r_rd(f, o, l); break; case WR: r = r_wr(f, o, l); break; case TRD: r = r_tryrd(f, o, l); break; case TWR: r = r_trywr(f, o, l); break; case TMRD: r = r_trd(f, o, l, t); break; default: r = r_twr(f, o, l, t); }
	if(how < TRD) REQUIRE(r == 0, "blocking rwlock call returned %d", r);
	else if(how < TMRD) REQUIRE(r == 0 || r == EBUSY, "rwlock try call returned %d", r);
	else REQUIRE(r == 0 || r == ETIMEDOUT, "rwlock timed call returned %d", r);
	return r;
}
static void rwuse(int how, int f, long o, size_t l, int k = 0)
{
	if(rwacq(how, f, o, l)) return;
	bool w = how & 1; if(w) enter_w(k, "writer"); else enter_r(k, "reader");
	point(); point();
	if(w) leave_w(k); else leave_r(k);
	EXPECT(r_un(f, o, l), 0);
}
static void freerange(long o, size_t l){ EXPECT(r_trywr(F(0), o, l), 0); EXPECT(r_un(F(0), o, l), 0); }
static Scenario& rx(const char* name, int np, std::vector<int> procs, int qp, int tp, std::function<void(int)> body, bool high = false, bool (*Api::*fu)(void) = nullptr)
{
	Scenario& s = mk("C03", name, np, qp, tp);
	s.setup = [np, high, fu]{ files(np, high, fu ? A.*fu : nullptr); };
	for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [body, i]{ body((int)i); }});
	s.final_check = []{ freerange(0, 10); };
	return s;
}
struct RO { std::vector<int> procs; std::vector<int> fds; std::vector<std::pair<long,size_t>> rng; bool same_node; bool islocked; bool (*Api::*fu)(void); bool high; bool foreign; const char* mix = nullptr; bool few = false; }; // mix: entry-freeing mode of each process; few: rd, wr (try when busy), unlock only
static const int inok[7] = {0, 0, 1, 2, 3, 4, 5};
static void rw_seq(const char* prop, const char* name, int qd, int td, RO o)
{
	for(int th = 0; th < 2; th++){
		int np = 3; std::string nm = std::string(name) + (th ? "-deep" : ""); int depth = th ? td : qd; if(!depth) continue;
		Scenario& s = mk(prop, nm.c_str(), np, th ? -1 : 0, 0); s.seq_only = true; if(!th && td) s.thorough.max_sec = 1;
		if(o.high) s.env["FLCKROBUSTMODE"] = "NO";
		for(int p = 0; o.mix && o.mix[p]; p++) s.env["p" + std::to_string(p) + ":FLCKFREEUNITMODE"] = o.mix[p] == 'N' ? "NO" : o.mix[p] == 'F' ? "FD" : "OFFSET";
		s.setup = [o]{ files(3, o.high, o.fu ? A.*(o.fu) : nullptr, o.fds.back() > 3); };
		auto overlap = [o](int a, int b){ if(o.same_node) return true; long s1 = o.rng[a].first, e1 = s1 + (long)o.rng[a].second, s2 = o.rng[b].first, e2 = s2 + (long)o.rng[b].second; return s1 < e2 && s2 < e1; };
		auto busy = [overlap](int fdi, int rng, bool wr){ for(auto& a : gf().acq) if(a.used && inok[(int)a.fdi] == inok[fdi] && overlap(a.rng, rng) && (wr || a.wr)) return true; return false; };
		auto check = [o, busy](const char* when){ if(!o.islocked) return; for(int f : o.fds) for(size_t r = 0; r < o.rng.size(); r++){ bool b = busy(f, (int)r, true); int got = r_is(F(f), o.rng[r].first, o.rng[r].second); REQUIRE(got == b, "islocked(range %zu of file %d) is %d, but the range is %s (%s)", r, inok[f], got, b ? "locked" : "not locked", when); } };
		SeqDef d{(int)o.procs.size(), depth};
		auto step = [o, overlap, busy, check](int me){
			GF& g = gf(); int fi = o.fds[choose((int)o.fds.size(), "fd")]; int k = choose((int)o.rng.size(), "range"); long of = o.rng[k].first; size_t len = o.rng[k].second; int f = F(fi);
			int op = o.few ? choose(3, "op") : choose(7, "op"); if(o.few && op == 2) op = 6;
			if(op == 6){
				int m = -1; for(int i = 0; i < 12; i++) if(g.acq[i].used && g.acq[i].agent == me && g.acq[i].fdi == fi && (o.same_node ? true : g.acq[i].rng == k)){ m = i; if(g.acq[i].wr) break; }
				int r = r_un(f, of, len);
				if(m >= 0){ REQUIRE(r == 0, "unlock of a held lock returned %d", r); memset(&g.acq[m], 0, sizeof g.acq[m]); }
				else REQUIRE(r == EINVAL, "unlock without a matching lock of this thread and descriptor returned %d, expected EINVAL", r);
			}else{
				bool wr = op & 1, bz = busy(fi, k, wr); if(op < TRD && bz) op += 2;
				int used = 0; for(auto& a : g.acq) used += a.used; if(used >= 6) return;
				int r = op == RD ? r_rd(f, of, len) : op == WR ? r_wr(f, of, len) : op == TRD ? r_tryrd(f, of, len) : op == TWR ? r_trywr(f, of, len) : op == TMRD ? r_trd(f, of, len, 3000) : r_twr(f, of, len, 3000);
				int ex = !bz ? 0 : op >= TMRD ? ETIMEDOUT : EBUSY;
				REQUIRE(r == ex, "%s lock returned %d, expected %d", wr ? "write" : "read", r, ex);
				if(!r) for(auto& a : g.acq) if(!a.used){ a.used = 1; a.agent = (int8_t)me; a.fdi = (int8_t)fi; a.rng = (int8_t)k; a.wr = wr; break; }
			}
			// keep the table sorted so that equal histories compare equal
			for(int i = 0; i < 12; i++) for(int j = i + 1; j < 12; j++) if(memcmp(&g.acq[i], &g.acq[j], sizeof g.acq[0]) < 0) std::swap(g.acq[i], g.acq[j]);
			check("after a call");
		};
		for(size_t i = 0; i < o.procs.size(); i++) s.threads.push_back({o.procs[i], [i, d, step]{ seq_agent<GF>((int)i, d, step); }});
		s.final_proc = 2;
		s.final_check = [o, busy]{ for(int f : o.fds) for(size_t k = 0; k < o.rng.size(); k++){ long of = o.rng[k].first; size_t len = o.rng[k].second; bool bw = busy(f, (int)k, true), br = busy(f, (int)k, false); int r = r_tryrd(F(f), of, len); REQUIRE(r == (br ? EBUSY : 0), "range %zu: an outsider's tryrdlock returned %d, expected %d", k, r, br ? EBUSY : 0); if(!r) EXPECT(r_un(F(f), of, len), 0); r = r_trywr(F(f), of, len); REQUIRE(r == (bw ? EBUSY : 0), "range %zu: an outsider's trywrlock returned %d, expected %d", k, r, bw ? EBUSY : 0); if(!r) EXPECT(r_un(F(f), of, len), 0); } };
	}
}
// histories over every kind of object and over the modes that can be set at run time: nothing has an effect on anything else
struct GA { Mon mon; SeqG seq; GF f; int8_t mo[2], mc[2], ro[3], rw[3]; };
static GA& ga(){ return ghost<GA>(); }
static void all_seq(const char* name, int qd, int td, std::vector<int> procs, std::vector<int> ops)
{
	static const char* mn[2] = {"a", "b"}; static const char* cn[2] = {"a", "c"};
	for(int th = 0; th < 2; th++){
		Scenario& s = mk("C05", (std::string(name) + (th ? "-deep" : "")).c_str(), 3, th ? -1 : 0, 0); s.seq_only = true; if(!th) s.thorough.max_sec = 1;
		s.setup = []{ warm(3); vmkdir("/data"); vmkfile("/data/f"); vmkfile("/data/g"); for(int p = 0; p < 3; p++) in_proc(p, [p]{ GA& g = ga(); g.f.fd[p][p & 1] = vopen(p & 1 ? "/data/g" : "/data/f"); g.f.fd[p][!(p & 1)] = vopen(p & 1 ? "/data/f" : "/data/g"); g.f.fd[p][2] = NOFD(1); }); };
		SeqDef d{(int)procs.size(), th ? td : qd};
		auto step = [ops](int me){
			GA& g = ga(); int op = ops[choose((int)ops.size(), "op")]; auto fd = [&g](int k){ return g.f.fd[self_proc()][k]; };
			switch(op){
			case 0: case 1: { int k = op; bool bz = g.mo[k] && g.mo[k] != me + 1; int r = bz ? m_try(mn[k]) : m_lock(mn[k]); REQUIRE(r == (bz ? EBUSY : 0), "lock of mutex %s returned %d", mn[k], r); if(!r){ g.mo[k] = (int8_t)(me + 1); g.mc[k]++; } break; }
			case 2: case 3: { int k = op - 2, ex = !g.mo[k] ? -1 : g.mo[k] == me + 1 ? 0 : EPERM; int r = m_unlock(mn[k]); REQUIRE(ex < 0 ? r == 0 || r == EINVAL : r == ex, "unlock of mutex %s returned %d", mn[k], r); if(ex == 0 && !--g.mc[k]) g.mo[k] = 0; break; }
			case 4: case 5: case 6: { int k = op - 4; if(g.ro[k] == me + 1) return; bool bz = g.ro[k]; int r = bz ? r_trywr(fd(k), 0, 10) : r_wr(fd(k), 0, 10); REQUIRE(r == (bz ? EBUSY : 0), "write lock of range %d returned %d", k, r); if(!r) g.ro[k] = (int8_t)(me + 1); break; }
			case 7: case 8: case 9: { int k = op - 7; bool mine = g.ro[k] == me + 1; int r = r_un(fd(k), 0, 10); REQUIRE(r == (mine ? 0 : EINVAL), "unlock of range %d returned %d", k, r); if(mine) g.ro[k] = 0; break; }
			case 10: { int r = choose(2, "wake") ? c_signal(cn[0]) : c_bcast(cn[1]); REQUIRE(r == 0 || r == EINVAL, "signal returned %d", r); break; }
			case 11: { int k = choose(2, "cond"); if(g.mo[0] != me + 1) return; EXPECT(c_twait(cn[k], mn[0], 1000), ETIMEDOUT); break; }
			case 12: EXPECT(b_call(choose(2, "unit") ? A.free_fd : A.free_no, "freeunit"), true); break;
			case 13: EXPECT(b_call(choose(2, "robust") ? A.high_robust : A.no_robust, "robust"), true); break;
			case 14: { int k = choose(2, "range"); int r = r_is(fd(k), 0, 10); REQUIRE(!!r == !!g.ro[k], "islocked of range %d returned %d", k, r); break; }
			}
		};
		for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [i, d, step]{ seq_agent<GA>((int)i, d, step); }});
		s.final_proc = 2;
		s.final_check = []{ GA& g = ga(); for(int k = 0; k < 2; k++){ int r = m_try(mn[k]); REQUIRE(r == (g.mo[k] ? EBUSY : 0), "mutex %s: trylock by an outsider returned %d", mn[k], r); if(!r) EXPECT(m_unlock(mn[k]), 0); }
			for(int k = 0; k < 3; k++){ int f = g.f.fd[2][k], r = r_trywr(f, 0, 10); REQUIRE(r == (g.ro[k] ? EBUSY : 0), "range %d: try by an outsider returned %d", k, r); if(!r) EXPECT(r_un(f, 0, 10), 0); } };
	}
}
void reg_rwlock()
{
	all_seq("ind-seq-all-2p", 5, 7, {0, 1}, {0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 14});
	all_seq("ind-seq-all-thr", 4, 6, {0, 0, 1}, {0, 2, 4, 6, 7, 9, 11, 12, 13});
	all_seq("ind-seq-modes", 6, 8, {0, 1}, {0, 2, 4, 7, 12, 13});
	const int ANY[6] = {RD, WR, TRD, TWR, TMRD, TMWR};
	auto pick = [ANY](int){ rwuse(ANY[choose(6, "op")], F(0), 0, 10); };
	rx("rw-2proc", 2, {0,1}, 3, 5, pick);
	rx("rw-2thr-samefd", 1, {0,0}, 2, 4, pick);
	rx("rw-2thr-difffd", 1, {0,0}, 2, 4, [ANY](int t){ rwuse(ANY[choose(6, "op")], F(t), 0, 10); });
	rx("rw-3proc", 3, {0,1,2}, 1, 3, [](int){ rwuse(choose(2, "op"), F(0), 0, 10); });
	rx("rw-3-mixed", 2, {0,0,1}, 1, 2, [](int t){ rwuse(t == 0 ? WR : t == 1 ? (choose(2, "w") ? TMRD : TMWR) : (choose(2, "w") ? TRD : TWR), F(0), 0, 10); });
	rx("rw-twice", 2, {0,1}, 2, 3, [](int t){ rwuse(t ? choose(2, "op") : WR, F(0), 0, 10); rwuse(t ? WR : choose(2, "op"), F(0), 0, 10); });
	rx("rw-free-fd", 2, {0,1}, 2, 4, pick, false, &Api::free_fd);
	rx("rw-free-no", 2, {0,1}, 2, 4, pick, false, &Api::free_no);
	rx("rw-free-fd-3", 3, {0,1,2}, 1, 2, [](int){ rwuse(choose(2, "op") ? WR : TWR, F(0), 0, 10); }, false, &Api::free_fd);
	rx("rw-high", 2, {0,1}, 2, 3, [](int){ rwuse(choose(2, "op"), F(0), 0, 10); }, true);
	rx("rw-high-3", 3, {0,1,2}, 1, 2, [](int){ rwuse(choose(2, "op"), F(0), 0, 10); }, true);
	rx("rw-overlap", 2, {0,1}, 2, 4, [](int t){ int op = choose(4, "op"); if(t) rwuse(op, F(0), 5, 10); else rwuse(op, F(0), 0, 10); });
	rx("rw-inside", 2, {0,1}, 2, 3, [](int t){ int op = choose(2, "op"); if(t) rwuse(op, F(0), 2, 3); else rwuse(op, F(0), 0, 10); });
	rx("rw-sameoff", 2, {0,1}, 2, 3, [](int t){ int op = choose(2, "op"); if(t) rwuse(op, F(0), 0, 3); else rwuse(op, F(0), 0, 10); });
	rx("rw-nofd", 2, {0,1}, 2, 4, [](int){ rwuse(choose(4, "op"), F(3), 0, 10); });
	rx("rw-2ranges", 2, {0,0,1}, 1, 2, [](int t){ if(t == 1){ rwuse(WR, F(0), 20, 5, 1); rwuse(WR, F(0), 0, 10); } else rwuse(WR, F(0), 0, 10); });
	rx("rw-2files", 2, {0,0,1}, 1, 2, [](int t){ if(t == 1){ rwuse(WR, F(2), 0, 10, 1); rwuse(WR, F(0), 0, 10); } else rwuse(WR, F(0), 0, 10); });
	{	// readers share: both must be able to be inside together
		Scenario& s = mk("C03", "rw-share", 2, 2, 3); s.setup = []{ files(2); };
		for(int t = 0; t < 2; t++) s.threads.push_back({t, []{ int how = choose(3, "how"); EXPECT(rwacq(how == 0 ? RD : how == 1 ? TRD : TMRD, F(0), 0, 10), 0); enter_r(0, "reader"); gate([]{ return mon().r[0] == 2 || gf().flag[0]; }); gf().flag[0] = 1; leave_r(0); EXPECT(r_un(F(0), 0, 10), 0); }});
		s.final_check = []{ freerange(0, 10); };
	}
	{	// many readers: the range stays read locked until the last of them is gone
		Scenario& s = mk("C03", "rw-many", 2, 0, 0); s.setup = []{ files(2); }; s.env["FLCKLOCKERCNT"] = "600";
		s.threads.push_back({0, []{ static const int ns[] = {127, 128, 255, 256, 257, 512}; int n = ns[choose(6, "readers")]; for(int i = 0; i < n; i++) EXPECT(i % 3 ? r_rd(F(i & 1), 0, 10) : r_tryrd(F(i & 1), 0, 10), 0);
			for(int i = 0; i < n; i++){ if(i < 2 || i >= n - 3 || !(i & (i - 1)) || (i & 63) == 63){ gf().flag[0] = 1; gate([]{ return !gf().flag[0]; }); } EXPECT(r_un(F(i & 1), 0, 10), 0); } gf().flag[1] = 1; }});
		s.threads.push_back({1, []{ for(;;){ gate([]{ return gf().flag[0] || gf().flag[1]; }); if(gf().flag[1]) break; EXPECT(r_trywr(F(0), 0, 10), EBUSY); EXPECT(r_tryrd(F(0), 5, 10), 0); EXPECT(r_un(F(0), 5, 10), 0); gf().flag[0] = 0; } freerange(0, 10); }});
	}
	{	// three overlapping ranges: [0,10) held and released, [5,15) still held, [12,20) must be excluded
		Scenario& s = mk("C03", "rw-three-ranges", 2, 0, 1); s.setup = []{ files(2); };
		s.threads.push_back({0, []{ EXPECT(r_wr(F(1), 0, 10), 0); gf().flag[0] = 1; gate([]{ return gf().flag[1] == 1; }); EXPECT(r_un(F(1), 0, 10), 0); gf().flag[0] = 2; }});
		s.threads.push_back({1, []{ gate([]{ return gf().flag[0] == 1; }); gf().flag[1] = 1; EXPECT(r_wr(F(0), 5, 10), 0); enter_w(0, "writer of [5,15)"); gf().flag[1] = 2; gate([]{ return gf().flag[2] == 1; }); leave_w(0); EXPECT(r_un(F(0), 5, 10), 0); }});
		s.threads.push_back({0, []{ gate([]{ return gf().flag[1] == 2 && gf().flag[0] == 2; }); int r = r_trywr(F(0), 12, 8); gf().flag[2] = 1; REQUIRE(r != 0, "three overlapping ranges: a write lock on [12,20) was granted while [5,15) is write-locked"); EXPECT(r, EBUSY); }});
	}
	{	// the same, sequentially: a range that was used before keeps its entry in no-free mode; a shared first range hides the second one from a wider request
		Scenario& s = mk("C03", "rw-three-ranges-nofree", 2, 0, 0); s.seq_only = true; s.setup = []{ files(2, false, A.free_no); };
		s.threads.push_back({0, []{ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(0), 5, 10), 0); gf().flag[0] = 1; }});
		s.threads.push_back({1, []{ gate([]{ return gf().flag[0] == 1; }); int r = r_trywr(F(0), 12, 8); REQUIRE(r != 0, "no-free mode, after [0,10) was locked and unlocked: a write lock on [12,20) was granted while [5,15) is write-locked"); EXPECT(r, EBUSY); }});
		Scenario& q = mk("C03", "rw-three-ranges-shared", 2, 0, 0); q.seq_only = true; q.setup = []{ files(2); };
		q.threads.push_back({0, []{ EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_wr(F(0), 20, 10), 0); gf().flag[0] = 1; }});
		q.threads.push_back({1, []{ gate([]{ return gf().flag[0] == 1; }); int r = r_tryrd(F(0), 5, 20); REQUIRE(r != 0, "a read lock on [5,25) was granted while [0,10) is read-locked and [20,30) is write-locked"); EXPECT(r, EBUSY); }});
	}
	// every pair (and triple with the first two apart) of ranges from a pool of boundary values: granted iff they do not meet
	for(int pool = 0; pool < 2; pool++) for(int v = 0; v < 3; v++){
		static const long L31 = 1L << 31, L32 = 1L << 32, LM = 0x7fffffffffffffffL; typedef std::pair<long,unsigned long> R;
		static const std::vector<R> pools[2] = {
			{R(10,10), R(0,10), R(0,11), R(0,30), R(5,5), R(5,6), R(9,1), R(9,2), R(10,1), R(10,9), R(10,11), R(11,8), R(11,9), R(15,1), R(19,1), R(19,2), R(20,1), R(20,5), R(9,12), R(0,5), R(30,1), R(18,12)},
			{R(0,(unsigned long)LM), R(0,~0UL), R(10,~0UL), R(10,(unsigned long)LM), R(LM - 1,1), R(LM - 10,10), R(LM - 10,1000), R(LM,1), R(L32,1), R(L32 - 1,1), R(L32 - 1,2), R(0,(unsigned long)L32), R(0,(unsigned long)L32 + 1), R(L31,10), R(L31 - 5,5), R(L31 - 5,6), R(0,10), R(5,10), R(100,~0UL - 50), R(L32 + 5,(unsigned long)L32)}};
		// v 0: two ranges; 1: three ranges; 2: two ranges, the holder's range is entered after other entries exist
		if(pool && v == 1) continue;
		auto meet = [](R a, R b){ return a.first <= b.first ? (unsigned long)(b.first - a.first) < a.second : (unsigned long)(a.first - b.first) < b.second; };
		Scenario& s = mk("C03", (std::string("rw-matrix-") + (pool ? "huge" : "near") + (v == 0 ? "" : v == 1 ? "-3" : "-among")).c_str(), 2, 0, 0); s.seq_only = true; s.setup = []{ files(2); };
		const std::vector<R>& P = pools[pool]; int n = (int)P.size();
		s.threads.push_back({0, [n, &P, v, meet]{
			int i = choose(n, "held"); gf().flag[1] = (int8_t)i; bool rd = v != 1 && choose(2, "shared"); gf().flag[4] = rd;
			if(v == 2){ EXPECT(r_rd(F(2), 0, 10), 0); EXPECT(r_rd(NOFD(9), 0, 10), 0); }
			EXPECT(rd ? r_rd(F(0), P[i].first, P[i].second) : r_wr(F(0), P[i].first, P[i].second), 0);
			gf().flag[2] = -1; if(v == 1){ int j = choose(n, "held too"); if(!meet(P[i], P[j])){ gf().flag[2] = (int8_t)j; EXPECT(r_wr(F(0), P[j].first, P[j].second), 0); } }
			gf().flag[0] = 1; gate([]{ return gf().flag[0] == 2; });
			EXPECT(r_un(F(0), P[i].first, P[i].second), 0); if(gf().flag[2] >= 0){ int j = gf().flag[2]; EXPECT(r_un(F(0), P[j].first, P[j].second), 0); }
			if(v == 2){ EXPECT(r_un(F(2), 0, 10), 0); EXPECT(r_un(NOFD(9), 0, 10), 0); } gf().flag[0] = 3; }});
		s.threads.push_back({1, [n, &P, meet]{
			gate([]{ return gf().flag[0] == 1; }); int k = choose(n, "probed"), w = choose(2, "writer"), j = gf().flag[2]; R h = P[gf().flag[1]], p = P[k];
			bool busy = (meet(h, p) && (w || !gf().flag[4])) || (j >= 0 && meet(P[j], p)); int r = w ? r_trywr(F(1), p.first, p.second) : r_tryrd(F(1), p.first, p.second);
			REQUIRE(r == (busy ? EBUSY : 0), "%s lock on offset %ld length %lu returned %d, expected %d, while offset %ld length %lu is %s-locked%s", w ? "write" : "read", p.first, p.second, r, busy ? EBUSY : 0, h.first, h.second, gf().flag[4] ? "read" : "write", j >= 0 ? " and another range is write-locked" : "");
			if(!r) EXPECT(r_un(F(1), p.first, p.second), 0); gf().flag[0] = 2; gate([]{ return gf().flag[0] == 3; });
			EXPECT(r_trywr(F(1), p.first, p.second), 0); EXPECT(r_un(F(1), p.first, p.second), 0); }});
	}
	// ---- C04
	rw_seq("C04", "unl-seq-2p", 6, 10, {{0,1}, {0,1}, {{0,10}}, false, false, nullptr, false, false});
	rw_seq("C04", "unl-seq-thr", 6, 9, {{0,0}, {0,1}, {{0,10}}, false, false, nullptr, false, false});
	rw_seq("C04", "unl-seq-ranges", 4, 7, {{0,0,1}, {0}, {{0,10},{10,10}}, false, false, nullptr, false, false});
	rw_seq("C04", "unl-seq-free-fd", 5, 8, {{0,1}, {0,2}, {{0,10}}, false, false, &Api::free_fd, false, false});
	rw_seq("C04", "unl-seq-free-no", 5, 8, {{0,1}, {0,2}, {{0,10}}, false, false, &Api::free_no, false, false});
	rw_seq("C04", "unl-seq-3ranges", 5, 7, {{0,1}, {0}, {{0,10},{10,10},{20,10}}, false, false, nullptr, false, false, nullptr, true});
	rw_seq("C04", "unl-seq-3ranges-fd", 5, 7, {{0,1}, {0}, {{0,10},{10,10},{20,10}}, false, false, &Api::free_fd, false, false, nullptr, true});
	rw_seq("C04", "unl-seq-3ranges-no", 5, 7, {{0,1}, {0}, {{0,10},{10,10},{20,10}}, false, false, &Api::free_no, false, false, nullptr, true});
	rw_seq("C04", "unl-seq-3files-fd", 4, 6, {{0,1}, {0,2,3}, {{0,10},{10,10}}, false, false, &Api::free_fd, false, false, nullptr, true});
	rw_seq("C04", "unl-seq-alone-fd", 5, 7, {{0}, {0,1}, {{0,10},{10,10},{20,10}}, false, false, &Api::free_fd, false, false, nullptr, true});
	for(const char* m : {"NF", "FN", "NO", "FO"}) rw_seq("C04", (std::string("unl-seq-mix-") + m).c_str(), 5, 7, {{0,1}, {0}, {{0,10},{10,10},{20,10}}, false, false, nullptr, false, false, m, true});
	rw_seq("C04", "unl-seq-high", 5, 8, {{0,1}, {0,1}, {{0,10}}, false, false, nullptr, true, false});
	rw_seq("C04", "unl-seq-overlap", 6, 8, {{0,1}, {0}, {{0,10},{5,10}}, true, false, nullptr, false, false});
	{	// a range that meets two others: its holder can give it back
		Scenario& s = mk("C04", "unl-chained", 2, 0, 0); s.seq_only = true; s.setup = []{ files(2); };
		s.threads.push_back({0, []{ for(long o : {0, 5, 10}) EXPECT(r_tryrd(F(0), o, 10), 0); for(long o : {0, 5, 10}){ int r = r_un(F(0), o, 10); REQUIRE(r == 0, "read locks on [0,10), [5,15), [10,20) of one thread given back in this order: unlocking [%ld,%ld) returned %d", o, o + 10, r); } freerange(0, 20); }});
	}
	{	// unlock by another thread / through another descriptor at any moment never ends somebody's critical section
		for(int v = 0; v < 3; v++){
			Scenario& s = mk("C04", v == 0 ? "unl-foreign-thr" : v == 1 ? "unl-foreign-proc" : "unl-foreign-fd", 2, 2, 4); s.setup = []{ files(2); };
			s.threads.push_back({0, []{ rwuse(choose(2, "op"), F(0), 0, 10); }});
			s.threads.push_back({1, []{ rwuse(WR, F(0), 0, 10); }});
			if(v < 2) s.threads.push_back({v ? 1 : 0, [v]{ EXPECT(r_un(F(0), 0, 10), EINVAL); }});
			else s.threads.push_back({0, []{ EXPECT(r_un(F(1), 0, 10), EINVAL); rwuse(choose(2, "op"), F(0), 0, 10); }});
			s.final_check = []{ freerange(0, 10); };
		}
	}
	{	// two read locks of one thread: one unlock keeps one
		Scenario& s = mk("C04", "unl-two-reads", 2, 2, 4); s.setup = []{ files(2); };
		s.threads.push_back({0, []{ EXPECT(r_rd(F(0), 0, 10), 0); enter_r(0, "reader"); EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); point(); leave_r(0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), EINVAL); }});
		s.threads.push_back({1, []{ rwuse(choose(2, "w") ? WR : TWR, F(0), 0, 10); }});
		s.final_check = []{ freerange(0, 10); };
	}
	// ---- C05 (sequential identity/independence)
	rw_seq("C05", "ind-seq-files", 3, 6, {{0,1}, {0,2,3}, {{0,10},{10,10}}, false, false, nullptr, false, false});
	rw_seq("C05", "ind-seq-ids", 3, 5, {{0,1}, {0,4,5,6}, {{0,10}}, false, false, &Api::free_fd, false, false});
	rw_seq("C05", "ind-seq-ids-no", 3, 5, {{0,1}, {0,4,5,6}, {{0,10}}, false, false, &Api::free_no, false, false});
	rw_seq("C05", "ind-seq-ranges", 4, 6, {{0,1}, {0}, {{0,10},{10,10},{30,1}}, false, false, nullptr, false, false});
	rw_seq("C05", "ind-seq-free-fd", 3, 6, {{0,1}, {0,2,3}, {{0,10},{20,10}}, false, false, &Api::free_fd, false, false});
	rw_seq("C05", "ind-seq-free-no", 4, 6, {{0,1}, {0,2,3}, {{0,10}}, false, false, &Api::free_no, false, false});
	rw_seq("C05", "ind-seq-dup", 4, 7, {{0,1}, {0,1}, {{0,10},{10,1}}, false, false, nullptr, false, false});
	// concurrent independence: A held by T0 until T1 finished its work on B
	struct V { const char* n; int kind; };
	static const V vs[] = {{"ind-mutex-prefix", 0}, {"ind-mutex-cond", 1}, {"ind-adjacent", 2}, {"ind-files", 3}, {"ind-nofd-file", 4}, {"ind-nofd-values", 5}, {"ind-mutex-rwlock", 6}, {"ind-adjacent-rev", 7}, {"ind-rd-wr", 8}};
	for(auto& v : vs) for(int high = 0; high < 2; high++){
		int kd = v.kind; if(high && kd != 0 && kd != 2 && kd != 3) continue;
		Scenario& s = mk("C05", (std::string(v.n) + (high ? "-high" : "")).c_str(), 2, 2, 3); s.setup = [high]{ files(2, high); };
		s.threads.push_back({0, [kd]{
			switch(kd){ case 0: case 1: case 6: EXPECT(m_lock("name"), 0); break; case 2: EXPECT(r_wr(F(0), 0, 10), 0); break; case 7: EXPECT(r_wr(F(0), 10, 10), 0); break; case 3: case 4: EXPECT(r_wr(F(0), 0, 10), 0); break; case 5: EXPECT(r_wr(NOFD(1), 0, 10), 0); break; case 8: EXPECT(r_rd(F(0), 0, 10), 0); break; }
			gf().flag[0] = 1; gate([]{ return gf().flag[1]; });
			switch(kd){ case 0: case 1: case 6: EXPECT(m_unlock("name"), 0); break; case 7: EXPECT(r_un(F(0), 10, 10), 0); break; case 5: EXPECT(r_un(NOFD(1), 0, 10), 0); break; default: EXPECT(r_un(F(0), 0, 10), 0); }
		}});
		s.threads.push_back({1, [kd]{
			switch(kd){
			case 0: EXPECT(m_lock("name2"), 0); EXPECT(m_try("nam"), 0); EXPECT(m_unlock("name2"), 0); EXPECT(m_unlock("nam"), 0); break;
			case 1: EXPECT(m_lock("m"), 0); EXPECT(c_twait("name", "m", 1000), ETIMEDOUT); EXPECT(c_signal("name"), 0); EXPECT(m_unlock("m"), 0); break;
			case 2: EXPECT(r_wr(F(0), 10, 5), 0); EXPECT(r_un(F(0), 10, 5), 0); EXPECT(r_tryrd(F(0), 10, 1), 0); EXPECT(r_un(F(0), 10, 1), 0); break;
			case 7: EXPECT(r_wr(F(0), 5, 5), 0); EXPECT(r_un(F(0), 5, 5), 0); EXPECT(r_trywr(F(0), 20, 1), 0); EXPECT(r_un(F(0), 20, 1), 0); break;
			case 3: EXPECT(r_wr(F(2), 0, 10), 0); EXPECT(r_un(F(2), 0, 10), 0); break;
			case 4: EXPECT(r_wr(NOFD(1), 0, 10), 0); EXPECT(r_un(NOFD(1), 0, 10), 0); break;
			case 5: EXPECT(r_wr(NOFD(1), 10, 10), 0); EXPECT(r_un(NOFD(1), 10, 10), 0); break;
			case 6: EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); break;
			case 8: EXPECT(r_rd(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(2), 0, 10), 0); EXPECT(r_un(F(2), 0, 10), 0); break;
			}
			gf().flag[1] = 1;
		}});
	}
	// ---- C18
	rw_seq("C18", "isl-seq", 5, 7, {{0,1}, {0,1}, {{0,10}}, false, true, nullptr, false, false});
	rw_seq("C18", "isl-seq-files", 4, 5, {{0,1}, {0,2,3}, {{0,10}}, false, true, nullptr, false, false});
	rw_seq("C18", "isl-seq-ranges", 4, 6, {{0,1}, {0}, {{0,10},{10,10}}, false, true, nullptr, false, false});
	rw_seq("C18", "isl-seq-free-fd", 4, 6, {{0,1}, {0,2}, {{0,10}}, false, true, &Api::free_fd, false, false});
	for(const char* m : {"NF", "FN"}) rw_seq("C18", (std::string("isl-seq-mix-") + m).c_str(), 4, 6, {{0,1}, {0}, {{0,10},{10,10}}, false, true, nullptr, false, false, m, true});
	rw_seq("C18", "isl-seq-free-no", 4, 6, {{0,1}, {0,2}, {{0,10}}, false, true, &Api::free_no, false, false});
	for(int v = 0; v < 3; v++) for(int pr = 0; pr < 2; pr++){	// entries of other ranges and files come, go and are used again while the query runs
		static const char* vn[] = {"", "-fd", "-no"}; bool (*Api::*fu)(void) = v == 1 ? &Api::free_fd : v == 2 ? &Api::free_no : nullptr; int qp = pr ? 0 : 1; // the query comes from another thread or another process
		auto st = [fu]{ files(2, false, fu ? A.*fu : nullptr); };
		for(int hi = 0; hi < 2; hi++){
			Scenario& s = mk("C18", (std::string("isl-held-beside") + (hi ? "-before" : "-after") + vn[v] + (pr ? "-proc" : "")).c_str(), 2, 3, 5);
			s.setup = [st]{ st(); in_proc(1, []{ EXPECT(r_rd(F(0), 20, 10), 0); }); };
			s.threads.push_back({1, []{ gate([]{ return gf().flag[1]; }); EXPECT(r_un(F(0), 20, 10), 0); }});
			s.threads.push_back({qp, []{ EXPECT(r_is(F(0), 20, 10), 1); EXPECT(r_is(F(0), 100, 10), 0); EXPECT(r_is(F(0), 25, 1), 1); gf().flag[1] = 1; }});
			s.threads.push_back({1, [hi]{ long o = hi ? 0 : 40; EXPECT(r_wr(F(0), o, 10), 0); EXPECT(r_un(F(0), o, 10), 0); EXPECT(r_rd(F(2), 100, 10), 0); EXPECT(r_un(F(2), 100, 10), 0); }});
			s.final_check = []{ EXPECT(r_is(F(0), 20, 10), 0); }; }
		{	Scenario& s = mk("C18", (std::string("isl-never") + vn[v] + (pr ? "-proc" : "")).c_str(), 2, 3, 5); s.setup = st;
			s.threads.push_back({qp, []{ for(int i = 0; i < 2; i++) EXPECT(r_is(F(0), 100, 10), 0); }});
			s.threads.push_back({1, []{ EXPECT(r_wr(F(0), 0, 10), 0); EXPECT(r_un(F(0), 0, 10), 0); EXPECT(r_wr(F(2), 100, 10), 0); EXPECT(r_un(F(2), 100, 10), 0); }});
			s.final_check = []{ EXPECT(r_is(F(0), 100, 10), 0); EXPECT(r_is(F(2), 100, 10), 0); }; } }
	{	// while a lock is held without interruption islocked says true, whatever others do; when nobody ever locks it says false
		for(int v = 0; v < 2; v++){
			Scenario& s = mk("C18", v ? "isl-held-others-fail" : "isl-held", 2, 2, 3); s.setup = []{ files(2); };
			s.threads.push_back({0, []{ int w = choose(2, "w"); EXPECT(w ? r_wr(F(0), 0, 10) : r_rd(F(0), 0, 10), 0); gf().flag[0] = 1; gate([]{ return gf().flag[1]; }); EXPECT(r_un(F(0), 0, 10), 0); }});
			s.threads.push_back({1, []{ gate([]{ return gf().flag[0]; }); EXPECT(r_is(F(0), 0, 10), 1); EXPECT(r_is(F(2), 0, 10), 0); EXPECT(r_is(F(0), 0, 10), 1); gf().flag[1]++; }});
			s.threads.push_back({1, [v]{ gate([]{ return gf().flag[0]; }); if(v){ int r = r_trywr(F(0), 0, 10); REQUIRE(r == EBUSY || gf().flag[1], "trywrlock succeeded while locked"); if(!r) EXPECT(r_un(F(0), 0, 10), 0); } else { int r = r_trd(F(1), 0, 10, 1000); if(!r) EXPECT(r_un(F(1), 0, 10), 0); } }});
			s.final_check = []{ EXPECT(r_is(F(0), 0, 10), 0); };
		}
	}
}
