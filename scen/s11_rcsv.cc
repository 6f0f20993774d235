#include "common.h"
// C15: FLRwlRcsv, the recursive reader/writer lock objects of the C++ interface
struct OB { void* p; int8_t rng, held, lt, mix; };              // held: this object locks its range; lt: what it asked for last; mix: the thread had the range in another mode meanwhile
struct GX { Mon mon; SeqG seq; int32_t fd[4]; OB ob[4][4]; int8_t mode[4][2]; int8_t flag[8], api; };
static GX& gx(){ return ghost<GX>(); }
static int F(){ return gx().fd[self_proc()]; }
static long OFF(int r){ return r == 1 ? 10 : 0; }               // two adjacent ranges
static int held(int ag, int r){ int n = 0; for(auto& o : gx().ob[ag]) n += o.p && o.held && o.rng == r; return n; }
static bool foreign(int ag, int r, bool wr){ for(int a = 0; a < 4; a++) if(a != ag && held(a, r) && (wr || gx().mode[a][r] == 2)) return true; return false; }
static void chk()
{
	for(int a = 0; a < 4; a++) for(int b = a + 1; b < 4; b++) for(int r = 0; r < 2; r++) if(gx().mode[a][r] && gx().mode[b][r] && (gx().mode[a][r] == 2 || gx().mode[b][r] == 2)) fail("mutual exclusion broken: threads %d and %d hold range %d, one of them for writing", a, b, r);
}
static void got(int ag, int i, bool rd)                         // the object holds its range now
{
	GX& g = gx(); OB& o = g.ob[ag][i]; int r = o.rng; bool first = !held(ag, r); bool sole = held(ag, r) == 1 && o.held; o.held = 1;
	if(rd){ if(first || sole) g.mode[ag][r] = 1; } else g.mode[ag][r] = 2;
	o.lt = rd ? 1 : 2; o.mix = 0; for(auto& q : g.ob[ag]) if(q.p && q.held && q.rng == r && q.lt != g.mode[ag][r]) q.mix = 1;
	chk();
}
static void pre(int ag, int i, bool rd)                         // about to lock: what may be given up while waiting
{
	GX& g = gx(); OB& o = g.ob[ag][i]; int r = o.rng; bool sole = held(ag, r) == 1 && o.held;
	if(!rd && g.mode[ag][r] == 1) g.mode[ag][r] = 0; if(rd && sole && g.mode[ag][r] == 2) g.mode[ag][r] = 0;
}
static void restore(int ag, int r, int m){ gx().mode[ag][r] = (int8_t)m; }
static void lost(int ag, int i){ GX& g = gx(); OB& o = g.ob[ag][i]; if(!o.held) return; o.held = 0; if(!held(ag, o.rng)) g.mode[ag][(int)o.rng] = 0; }
static void rd(int ag, int i){ GX& g = gx(); int m = g.mode[ag][(int)g.ob[ag][i].rng]; bool sole = held(ag, g.ob[ag][i].rng) == 1 && g.ob[ag][i].held; pre(ag, i, true); EXPECT(g.api ? x_lk(g.ob[ag][i].p, 1) : x_rd(g.ob[ag][i].p), 1); if(m && !sole) restore(ag, g.ob[ag][i].rng, m); got(ag, i, true); }
static void wr(int ag, int i){ GX& g = gx(); pre(ag, i, false); EXPECT(g.api ? x_lk(g.ob[ag][i].p, 0) : x_wr(g.ob[ag][i].p), 1); got(ag, i, false); }
static void un(int ag, int i){ GX& g = gx(); bool last = g.ob[ag][i].held; lost(ag, i); (void)last; EXPECT(x_un(g.ob[ag][i].p), 1); }
static void mk_ob(int ag, int i, int r = 0){ OB& o = gx().ob[ag][i]; o.rng = (int8_t)r; o.held = 0; o.p = x_new(F(), OFF(r), 10); }
static void mk_lk(int ag, int i, bool rdl, int r = 0){ OB& o = gx().ob[ag][i]; GX& g = gx(); o.rng = (int8_t)r; o.held = 0; o.p = nullptr; int m = g.mode[ag][r]; if(!rdl && m == 1) g.mode[ag][r] = 0; void* p = x_newl(F(), OFF(r), 10, rdl); o.p = p; if(rdl && m) restore(ag, r, m); got(ag, i, rdl); }
static void del(int ag, int i){ OB& o = gx().ob[ag][i]; void* p = o.p; lost(ag, i); memset(&o, 0, sizeof o); x_del(p); }
static void probe(int ag, int r)
{
	bool br = foreign(ag, r, false), bw = foreign(ag, r, true); int x;
	x = r_tryrd(F(), OFF(r), 10); REQUIRE(x == (br ? EBUSY : 0), "an outsider's tryrdlock of range %d returned %d, expected %d", r, x, br ? EBUSY : 0); if(!x) EXPECT(r_un(F(), OFF(r), 10), 0);
	x = r_trywr(F(), OFF(r), 10); REQUIRE(x == (bw ? EBUSY : 0), "an outsider's trywrlock of range %d returned %d, expected %d", r, x, bw ? EBUSY : 0); if(!x) EXPECT(r_un(F(), OFF(r), 10), 0);
}
static Scenario& sc(const char* n, int np, int qp, int tp)
{
	Scenario& s = mk("C15", n, np, qp, tp);
	s.setup = [np]{ warm(np); vmkdir("/data"); vmkfile("/data/f"); for(int p = 0; p < np; p++) in_proc(p, []{ gx().fd[self_proc()] = vopen("/data/f"); }); };
	s.final_proc = np - 1; s.final_check = []{ for(int r = 0; r < 2; r++) probe(3, r); };
	return s;
}
static void hist(const char* name, std::vector<int> procs, int nobj, int nr, int qd, int td, bool api = false)
{
	for(int th = 0; th < 2; th++){
		int depth = th ? td : qd; if(!depth) continue;
		Scenario& s = sc((std::string(name) + (th ? "-deep" : "")).c_str(), 3, th ? -1 : 0, 0); s.seq_only = true; SeqDef d{(int)procs.size(), depth};
		auto step = [nobj, nr, api](int me){
			GX& g = gx(); g.api = api; int i = choose(nobj, "object"); OB& o = g.ob[me][i]; int op = choose(api ? 8 : 7, "op");
			if(!o.p){ // create, create locked for reading / writing
				if(op > 2) return; int r = nr > 1 ? choose(nr, "range") : 0; if(op && foreign(me, r, op == 2)) return;
				if(op) mk_lk(me, i, op == 1, r); else mk_ob(me, i, r);
			}else switch(op){
			case 0: case 1: { bool blk = op ? g.mode[me][(int)o.rng] != 2 && foreign(me, o.rng, true) : g.mode[me][(int)o.rng] == 0 && foreign(me, o.rng, false); if(blk) return; if(op) wr(me, i); else rd(me, i); break; }
			case 2: un(me, i); break; case 3: del(me, i); break;
			case 4: case 5: { int r = nr > 1 ? choose(nr, "range") : 0; GX& gg = gx(); // Lock(fd, offset, length, is_read): unlock, then lock
				OB sv = o; int8_t sm[2] = {gg.mode[me][0], gg.mode[me][1]}; lost(me, i); bool blk = op == 4 ? gg.mode[me][r] == 0 && foreign(me, r, false) : gg.mode[me][r] != 2 && foreign(me, r, true); if(blk){ o = sv; gg.mode[me][0] = sm[0]; gg.mode[me][1] = sm[1]; return; }
				o.rng = (int8_t)r; EXPECT(x_set(o.p, F(), OFF(r), 10, op == 4), 1); got(me, i, op == 4); break; }
			case 7: { // Lock(): what was asked for last
				if(!o.lt){ EXPECT(x_lk(o.p, 2), 0); return; } if(o.mix) return; bool r1 = o.lt == 1; if(r1 ? g.mode[me][(int)o.rng] == 0 && foreign(me, o.rng, false) : g.mode[me][(int)o.rng] != 2 && foreign(me, o.rng, true)) return;
				EXPECT(x_lk(o.p, 2), 1); got(me, i, r1); break; }
			default: for(int r = 0; r < nr; r++){ if(held(me, r)) continue; probe(me, r); } }
		};
		for(size_t i = 0; i < procs.size(); i++) s.threads.push_back({procs[i], [i, d, step]{ seq_agent<GX>((int)i, d, step); }});
		s.final_proc = 2;
	}
}
void reg_rcsv()
{
	// histories of one and two threads
	hist("hist-1x2", {0}, 2, 1, 6, 8); hist("hist-1x3", {0}, 3, 1, 5, 8); hist("hist-1x3-ranges", {0}, 3, 2, 4, 6);
	hist("hist-2t", {0, 0}, 2, 1, 5, 7); hist("hist-2p", {0, 1}, 2, 1, 5, 7); hist("hist-2t-ranges", {0, 0}, 2, 2, 4, 5);
	hist("hist-lock-1x2", {0}, 2, 1, 6, 8, true); hist("hist-lock-1x3", {0}, 3, 1, 4, 7, true); hist("hist-lock-2p", {0, 1}, 2, 1, 4, 6, true);
	// exclusion between threads and processes, nested objects
	for(int same = 0; same < 2; same++) for(int k = 0; k < 6; k++){
		static const char* nm[] = {"w-w", "rr-w", "ww-r", "upgrade-upgrade", "rw-rw", "downgrade-w"};
		Scenario& s = sc((std::string("nest-") + nm[k] + (same ? "-threads" : "-procs")).c_str(), 2, 2, 3);
		auto two = [](int me, bool a, bool b){ mk_lk(me, 0, a); mk_lk(me, 1, b); point(); del(me, 0); point(); del(me, 1); };
		auto body = [k, two](int me){
			switch(k){
			case 0: mk_lk(me, 0, false); point(); del(me, 0); break;
			case 1: if(me) { mk_lk(me, 0, false); point(); del(me, 0); } else two(me, true, true); break;
			case 2: if(me) { mk_lk(me, 0, true); point(); del(me, 0); } else two(me, false, false); break;
			case 3: mk_lk(me, 0, true); point(); wr(me, 0); point(); un(me, 0); del(me, 0); break;
			case 4: two(me, true, false); break;
			default: if(me){ mk_lk(me, 0, false); point(); del(me, 0); } else { mk_lk(me, 0, false); point(); rd(me, 0); point(); del(me, 0); } } };
		for(int i = 0; i < 2; i++) s.threads.push_back({same ? 0 : i, [body, i]{ body(i); }});
	}
	// the objects of several threads on different ranges do not disturb each other
	for(int k = 0; k < 4; k++){
		static const char* nm[] = {"downgrade", "upgrade", "relock", "create"};
		Scenario& s = sc((std::string("apart-") + nm[k]).c_str(), 2, 2, 3);
		auto body = [k](int me){
			mk_ob(me, 0, me);
			switch(k){ case 0: wr(me, 0); rd(me, 0); un(me, 0); break; case 1: rd(me, 0); wr(me, 0); un(me, 0); break; case 2: rd(me, 0); un(me, 0); wr(me, 0); un(me, 0); break; default: mk_lk(me, 1, true, me); mk_lk(me, 2, true, me); del(me, 1); del(me, 2); }
			del(me, 0); };
		for(int i = 0; i < 2; i++) s.threads.push_back({0, [body, i]{ body(i); }});
		s.final_proc = 1;
	}
	{ Scenario& s = sc("apart-three", 2, 1, 2); auto body = [](int me){ mk_ob(me, 0, me & 1); if(me < 2) wr(me, 0); rd(me, 0); del(me, 0); }; for(int i = 0; i < 3; i++) s.threads.push_back({0, [body, i]{ body(i); }}); s.final_proc = 1; }
	// a lock that cannot be had: the others of the thread keep theirs, the failing object holds nothing
	for(int k = 0; k < 3; k++){
		static const char* nm[] = {"full-upgrade", "full-upgrade-pending", "full-first"};
		Scenario& s = sc((std::string("fail-") + nm[k]).c_str(), 2, 2, 3); s.env["FLCKLOCKERCNT"] = "4"; s.env["FLCKOFFETCNT"] = "6";
		s.threads = {{0, [k]{
			GX& g = gx(); mk_ob(0, 0); mk_ob(0, 1); mk_ob(0, 2); if(k < 2) rd(0, 0); if(k == 1) rd(0, 1);
			g.flag[0] = 1; int e = k ? 2 : 1; int8_t m = g.mode[0][0]; g.mode[0][0] = 0; bool r = x_wr(g.ob[0][e].p); 
			if(r) got(0, e, false); else if(k < 2) { g.mode[0][0] = m; }
			outcome(r); g.flag[1] = 1; gate([]{ return gx().flag[2] != 0; });
			for(int i = 0; i < 3; i++) del(0, i);
		}}, {1, []{
			gate([]{ return gx().flag[0] != 0; }); int n = 0; while(n < 4 && r_tryrd(F(), 100 + 10 * n, 10) == 0) n++;
			gate([]{ return gx().flag[1] != 0; }); gx().flag[2] = 1; for(int i = 0; i < n; i++) EXPECT(r_un(F(), 100 + 10 * i, 10), 0);
		}}};
	}
	// objects that outlive their descriptor
	for(int deny = 0; deny < 2; deny++) for(int up = 0; up < 3; up++){
		Scenario& s = sc((std::string("closed-fd-") + (up == 0 ? "del" : up == 1 ? "unlock" : "swap") + (deny ? "-deny" : "-allow")).c_str(), 2, 0, 0); s.seq_only = true; s.env["FLCKNOMAPMODE"] = deny ? "DENY" : "ALLOW";
		s.threads = {{0, [deny, up]{
			int bad = vopen("/data/f"); void* p = x_newl(bad, 20, 10, false); vclose(bad); if(up == 2){ int f2 = vopen("/data/g"); if(f2 != bad) vdup2(f2, bad); }
			if(up == 1) { int r = x_un(p); REQUIRE(r == (deny ? 0 : 1), "unlock through a closed descriptor returned %d", r); } x_del(p);
			// the objects of the thread go on working
			for(int i = 0; i < 2; i++){ mk_ob(0, i); wr(0, i); } void* q = x_newl(bad, 20, 10, false); for(int i = 0; i < 2; i++) del(0, i); x_del(q);
			mk_lk(0, 0, true); mk_lk(0, 1, false); del(0, 0); del(0, 1);
		}}};
	}
	// a call that fails while another thread of the process makes, locks and destroys objects
	for(int k = 0; k < 4; k++){
		static const char* nm[] = {"unlock", "delete", "write", "read"};
		Scenario& s = sc((std::string("fail-race-") + nm[k]).c_str(), 2, k < 2 ? 1 : 2, k < 2 ? 2 : 3); s.env["FLCKNOMAPMODE"] = "DENY"; if(k > 1){ s.env["FLCKLOCKERCNT"] = "4"; s.env["FLCKOFFETCNT"] = "6"; }
		s.threads = {{0, [k]{
			if(k < 2){ int bad = vopen("/data/f"); void* p = x_newl(bad, 20, 10, false); vclose(bad); gx().flag[0] = 1; if(k == 0) EXPECT(x_un(p), 0); x_del(p); }
			else { mk_ob(0, 0); gx().flag[0] = 1; gate([]{ return gx().flag[3] != 0; }); bool r = k == 2 ? x_wr(gx().ob[0][0].p) : x_rd(gx().ob[0][0].p); outcome(r); if(r) got(0, 0, k == 3); del(0, 0); }
			mk_lk(0, 1, false); mk_lk(0, 2, true); del(0, 1); del(0, 2); }},
			{0, [k]{ gate([]{ return gx().flag[0] != 0; }); if(k > 1){ mk_ob(1, 0, 1); gate([]{ return gx().flag[3] != 0; }); bool r = x_rd(gx().ob[1][0].p); if(r) got(1, 0, true); del(1, 0); gx().flag[4] = 1; return; } mk_lk(1, 0, true, 1); mk_lk(1, 1, false, 1); del(1, 0); del(1, 1); }},
			{1, [k]{ if(k < 2) return; gate([]{ return gx().flag[0] != 0; }); int n = 0; while(n < 4 && r_tryrd(F(), 100 + 10 * n, 10) == 0) n++; gx().flag[3] = 1; gate([]{ return gx().flag[4] != 0; }); for(int i = 0; i < n; i++) EXPECT(r_un(F(), 100 + 10 * i, 10), 0); }}};
		if(k > 1) s.threads[0].body = [k]{ mk_ob(0, 0); gx().flag[0] = 1; gate([]{ return gx().flag[3] != 0; }); bool r = k == 2 ? x_wr(gx().ob[0][0].p) : x_rd(gx().ob[0][0].p); outcome(r); if(r) got(0, 0, k == 3); del(0, 0); gate([]{ return gx().flag[5] != 0; }); mk_lk(0, 1, false); mk_lk(0, 2, true); del(0, 1); del(0, 2); };
		if(k > 1){ auto b = s.threads[2].body; s.threads[2].body = [b]{ b(); gx().flag[5] = 1; }; }
	}
	// ranges up to the end of everything: the objects of one thread never wait for each other
	{
		static const std::pair<long,unsigned long> R[] = {{0, 10}, {0, ~0UL}, {10, ~0UL}, {10, 0x7fffffffffffffffUL}, {0, 0x7fffffffffffffffUL}, {5, ~0UL - 20}, {0x7ffffffffffffff0L, 15}, {1L << 32, 1UL << 32}};
		Scenario& s = sc("huge-ranges", 2, 0, 0); s.seq_only = true;
		s.threads = {{0, []{ auto a = R[choose(8, "first")], b = R[choose(8, "second")]; bool ra = choose(2, "kind"), rb = choose(2, "kind");
			void* p = x_newl(F(), a.first, a.second, ra); void* q = x_newl(F(), b.first, b.second, rb); EXPECT(ra ? x_rd(p) : x_wr(p), 1); EXPECT(rb ? x_rd(q) : x_wr(q), 1); if(choose(2, "order")){ x_del(q); x_del(p); } else { x_del(p); x_del(q); } }}};
		s.final_check = []{ for(auto& r : R){ EXPECT(r_trywr(F(), r.first, r.second), 0); EXPECT(r_un(F(), r.first, r.second), 0); } };
	}
	// different but overlapping ranges of one thread
	for(int k = 0; k < 5; k++){
		static const char* nm[] = {"tail", "leak", "leak-inside", "reader", "disjoint"};
		Scenario& s = sc((std::string("overlap-") + nm[k]).c_str(), 2, 0, 0); s.seq_only = true;
		s.threads = {{0, [k]{ int f = F(); void *a, *b;
			switch(k){
			case 0: a = x_newl(f, 0, 10, false); b = x_newl(f, 5, 10, false); gx().flag[0] = 1; gate([]{ return gx().flag[1] != 0; }); x_del(a); x_del(b); break;
			case 1: a = x_newl(f, 0, 10, false); b = x_newl(f, 5, 10, false); x_del(a); x_del(b); gx().flag[0] = 1; break;
			case 2: a = x_newl(f, 0, 10, false); b = x_newl(f, 2, 2, false); x_del(a); x_del(b); gx().flag[0] = 1; break;
			case 3: a = x_newl(f, 0, 10, true); b = x_newl(f, 2, 2, false); gx().flag[0] = 1; gate([]{ return gx().flag[1] != 0; }); x_del(a); x_del(b); break;
			default: a = x_newl(f, 0, 10, false); b = x_newl(f, 10, 10, false); gx().flag[0] = 1; gate([]{ return gx().flag[1] != 0; }); x_del(a); x_del(b); }
		}}, {1, [k]{ gate([]{ return gx().flag[0] != 0; }); int r;
			switch(k){
			case 0: r = r_trywr(F(), 12, 1); REQUIRE(r == EBUSY, "a part of a range that is write locked through an object could be locked by another process"); break;
			case 1: case 2: r = r_trywr(F(), 0, 10); REQUIRE(r == 0, "a range is still locked after all objects have been destroyed"); EXPECT(r_un(F(), 0, 10), 0); break;
			case 3: r = r_trywr(F(), 6, 2); REQUIRE(r == EBUSY, "a part of a range that is read locked through an object could be write locked by another process"); break;
			default: EXPECT(r_trywr(F(), 9, 1), EBUSY); EXPECT(r_trywr(F(), 10, 1), EBUSY); EXPECT(r_trywr(F(), 20, 5), 0); EXPECT(r_un(F(), 20, 5), 0); }
			gx().flag[1] = 1; }}};
	}
}
