// Scheduler, explorer, process images, arena.
#include "engine.h"
#include <stdarg.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <exception>

namespace mc {
G g; World W; Thr T[MAXT]; int NT;
char* g_img_data[MAXP]; char* g_img_heap[MAXP];
ul DATA_LO, DATA_HI; static ul TEXT_LO, TEXT_HI;
std::vector<std::function<bool()>> g_gates;
unsigned char ghost_mem[1024];
int GR_DATA1, GR_ENV0, GR_TOTAL;
uint16_t *accF, *wrF, *accS, *wrS;
static std::vector<std::function<void()>> g_bodies;
static uint64_t* ghash; static uint8_t* gdirty; static std::vector<int> dirtylist; static uint64_t memhash;
static std::vector<int> conflist; static std::vector<uint64_t> confbase; static uint64_t basehash;
static char* inomem[NMAPINO];
static void* g_dl;
enum { BIT_ENV = 15 };

std::vector<Scenario>& scenarios(){ static std::vector<Scenario> v; return v; }
Scenario& add(const std::string& prop, const std::string& name){ scenarios().emplace_back(); Scenario& s = scenarios().back(); s.prop = prop; s.name = name; return s; }

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(ul* save, ul to);
extern "C" void mc_jump(ul to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
 pushq %rbp
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 pushq %r15
 movq %rsp,(%rdi)
 movq %rsi,%rsp
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
.globl mc_jump
.type mc_jump,@function
mc_jump:
 movq %rdi,%rsp
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
)");
struct EhG { void* caught; unsigned int uncaught; };
extern "C" EhG* __cxa_get_globals(void);
static ul stack_top(int t){ return STACK_BASE + (ul)(t + 1) * (STKSZ + 65536) - 65536; }

void fatal_engine(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt); fprintf(stderr, "ENGINE ERROR [%s]: ", g.sc ? g.sc->name.c_str() : "-"); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
	fflush(0); _exit(3);
}
void tr(const char* fmt, ...)
{
	if(!g.trace || g.tracebuf.size() > 400000) return;
	NoSim ns;
	char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	char h[64]; if(g.cur >= 0) snprintf(h, sizeof h, "[T%d p%d] ", g.cur, T[g.cur].proc); else strcpy(h, "[--] ");
	g.tracebuf += h; g.tracebuf += b; g.tracebuf += "\n";
}
static void to_main()
{
	Thr& t = T[g.cur]; int me = g.cur;
	t.in_sim = g.in_sim; EhG* e = __cxa_get_globals(); t.eh0 = e->caught; t.eh1 = e->uncaught; t.err = errno;
	mc_switch(&t.rsp, g.main_rsp);
	(void)me;
}
static void run_thread(int t)      // main context -> thread
{
	Thr& x = T[t];
	swap_to(x.proc);
	g.cur = t; g.in_sim = x.in_sim;
	EhG* e = __cxa_get_globals(); void* s0 = e->caught; unsigned s1 = e->uncaught;
	e->caught = x.eh0; e->uncaught = x.eh1; errno = x.err;
	mc_switch(&g.main_rsp, x.rsp);
	e = __cxa_get_globals(); e->caught = s0; e->uncaught = s1; g.in_sim = false;
}
void end_exec(){ g.endexec = true; g.in_sim = false; if(g.cur < 0) fatal_engine("end_exec outside a thread: %s", g.vmsg.c_str()); mc_jump(g.main_rsp); __builtin_unreachable(); }
void violate(const char* fmt, ...)
{
	g.in_sim = false;
	char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if(!g.violation){ g.violation = true; g.vmsg = b; tr("VIOLATION: %s", b); }
	if(g.cur < 0) { g.endexec = true; throw std::string(b); }
	end_exec();
}
void fail(const char* fmt, ...)
{
	char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	violate("%s", b);
}
void note(const char* fmt, ...){ if(!g.trace) return; char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tr("%s", b); }
bool tracing(){ return g.trace; }
void outcome(uint64_t v){ g.outcome = mix2(g.outcome, v); }

// ---------------------------------------------------------------- arena (per process, per thread slot)
struct Cls { uint32_t head, tail, n; };
struct Sub { uint32_t top; uint32_t pad; Cls c[72]; uint8_t live[SUBSZ/64]; };
static Sub* sub(int i){ return reinterpret_cast<Sub*>(HEAP_BASE + (ul)i * SUBSZ); }
struct Hdr { uint32_t size, cls; uint32_t next; uint32_t magic; };
static int cls_of(size_t n, size_t& r){ if(n <= 1024){ r = n ? (n + 15) / 16 * 16 : 16; return (int)(r/16) - 1; } if(n <= 9216){ r = (n + 1023) / 1024 * 1024; return 64 + (int)(r/1024) - 2; } r = (n + 15)/16*16; return -1; }
static void arena_init(){ for(int i = 0; i < 12; i++){ Sub* s = sub(i); memset(s, 0, sizeof *s); s->top = (sizeof(Sub) + 15) / 16 * 16; } }
static void setlive(Sub* s, uint32_t off, uint32_t n, bool on){ for(uint32_t i = off/8; i < (off + n)/8; i++) if(on) s->live[i/8] |= 1 << (i%8); else s->live[i/8] &= ~(1 << (i%8)); }
void* arena_alloc(size_t n)
{
	int si = g.cur < 0 ? 0 : g.cur; Sub* s = sub(si); ul base = (ul)s; size_t r; int c = cls_of(n, r); uint32_t off;
	if(c >= 0 && s->c[c].n > (g.seq ? 0u : 8u)){
		off = s->c[c].head; Hdr* h = (Hdr*)(base + off); s->c[c].head = h->next; s->c[c].n--;
	}else{
		off = s->top; if(off + sizeof(Hdr) + r > SUBSZ){ if(c >= 0 && s->c[c].n){ off = s->c[c].head; Hdr* h = (Hdr*)(base + off); s->c[c].head = h->next; s->c[c].n--; } else violate("memory exhausted: the library allocates without bound"); }
		else s->top += sizeof(Hdr) + r;
	}
	Hdr* h = (Hdr*)(base + off); h->size = (uint32_t)r; h->cls = (uint32_t)c; h->next = 0; h->magic = 0x5ca1ab1e;
	memset(h + 1, 0, r); setlive(s, off + sizeof(Hdr), (uint32_t)r, true);
	return h + 1;
}
bool arena_has(const void* p){ return (ul)p >= HEAP_BASE && (ul)p < HEAP_BASE + HEAPSZ; }
size_t arena_size(void* p){ return ((Hdr*)p - 1)->size; }
void arena_free(void* p)
{
	if(!p) return;
	if(!arena_has(p)){ fatal_engine("free of foreign pointer %p", p); }
	Hdr* h = (Hdr*)p - 1; if(h->magic != 0x5ca1ab1e) violate("double or invalid free of heap memory");
	int si = (int)(((ul)p - HEAP_BASE) / SUBSZ); Sub* s = sub(si); uint32_t off = (uint32_t)((ul)h - (ul)s);
	memset((void*)(h + 1), 0, h->size); h->magic = 0xdeadf00d; setlive(s, off + sizeof(Hdr), h->size, false);
	if((int)h->cls >= 0){ Cls& c = s->c[h->cls]; h->next = 0; if(c.n && g.seq){ h->next = c.head; c.head = off; } else if(c.n){ ((Hdr*)((ul)s + c.tail))->next = off; } else c.head = off; c.tail = off; c.n++; }
}
static inline bool heap_live(ul a, size_t n){ int si = (int)((a - HEAP_BASE) / SUBSZ); Sub* s = sub(si); ul o0 = (a - (ul)s)/8, o1 = (a + n - 1 - (ul)s)/8; for(ul i = o0; i <= o1; i++) if(!(s->live[i/8] & (1 << (i%8)))) return false; return true; }

// ---------------------------------------------------------------- process images
static void heap_save(char* img){ for(int i = 0; i < 12; i++) memcpy(img + i*SUBSZ, sub(i), sub(i)->top); }
static void heap_load(const char* img){ for(int i = 0; i < 12; i++) memcpy(sub(i), img + i*SUBSZ, ((const Sub*)(img + i*SUBSZ))->top); }
static void swap_out(){ if(g.curproc < 0) return; memcpy(g_img_data[g.curproc], (void*)DATA_LO, DATA_HI - DATA_LO); heap_save(g_img_heap[g.curproc]); g.curproc = -1; }
void swap_to(int p)
{
	if(g.curproc == p) return;
	swap_out();
	memcpy((void*)DATA_LO, g_img_data[p], DATA_HI - DATA_LO); heap_load(g_img_heap[p]); g.curproc = p;
}
static char *pri_data, *pri_heap;
static void fresh_image(int p){ memcpy(g_img_data[p], pri_data, DATA_HI - DATA_LO); for(int i = 0; i < 12; i++) memcpy(g_img_heap[p] + i*SUBSZ, pri_heap + i*SUBSZ, ((Sub*)(pri_heap + i*SUBSZ))->top); }
char* inode_mem(int m){ return inomem[m]; }
size_t ino_top[NMAPINO];                           // everything above is zero
void inode_grow(int m, size_t n){ if(n > ino_top[m]) ino_top[m] = n; }
bool clear_inode(int m){ size_t n = (ino_top[m] + 4095) & ~4095UL; if(n > AREASZ) n = AREASZ; memset(inomem[m], 0, n); ino_top[m] = 0; return true; }

// ---------------------------------------------------------------- granules
static inline int granule(ul a, int proc)
{
	if(a >= MAP_BASE && a < MAP_END){ ul o = a - MAP_BASE; int k = (int)(o / AREASZ); ul off = o % AREASZ; return (k / NAREA) * (int)(TRACKSZ/8) + (int)(off/8); }
	if(a >= HEAP_BASE && a < HEAP_BASE + HEAPSZ) return GR_MAP + proc * (GR_HEAP1 + GR_DATA1) + (int)((a - HEAP_BASE)/8);
	if(a >= DATA_LO && a < DATA_HI) return GR_MAP + proc * (GR_HEAP1 + GR_DATA1) + GR_HEAP1 + (int)((a - (DATA_LO & ~7UL))/8);
	return -1;
}
static uint64_t gr_value(int gr)
{
	if(gr < GR_MAP){ return *(uint64_t*)(inomem[gr / (int)(TRACKSZ/8)] + (size_t)(gr % (int)(TRACKSZ/8)) * 8); }
	if(gr >= GR_ENV0) return 0;
	int r = gr - GR_MAP, p = r / (GR_HEAP1 + GR_DATA1); r %= (GR_HEAP1 + GR_DATA1);
	if(r < GR_HEAP1) return g.curproc == p ? *(uint64_t*)(HEAP_BASE + (ul)r*8) : *(uint64_t*)(g_img_heap[p] + (size_t)r*8);
	r -= GR_HEAP1; ul a = (DATA_LO & ~7UL) + (ul)r*8; uint64_t v = 0; ul lo = a < DATA_LO ? DATA_LO : a, hi = a + 8 > DATA_HI ? DATA_HI : a + 8;
	memcpy(&v, g.curproc == p ? (char*)lo : g_img_data[p] + (lo - DATA_LO), hi - lo); return v;
}
static uint64_t peek(ul a, int sz, int proc)
{
	uint64_t v = 0; const char* s;
	if(a >= MAP_BASE && a < MAP_END){ ul o = a - MAP_BASE; s = inomem[o / AREASZ / NAREA] + (o % AREASZ); }
	else if(a >= HEAP_BASE && a < HEAP_BASE + HEAPSZ) s = g.curproc == proc ? (char*)a : g_img_heap[proc] + (a - HEAP_BASE);
	else if(a >= DATA_LO && a < DATA_HI) s = g.curproc == proc ? (char*)a : g_img_data[proc] + (a - DATA_LO);
	else s = (char*)a;
	memcpy(&v, s, sz); return v;
}
static inline bool need_point(int gr, bool write){ uint16_t b = (uint16_t)(1u << g.cur); return write ? (accF[gr] & ~b) != 0 && true : (wrF[gr] & ~b) != 0; }
static inline bool conf(uint16_t acc, uint16_t wr){ return wr && (acc & (acc - 1)); }
static void note_access(int gr, bool write)
{
	uint16_t b = (uint16_t)(1u << g.cur);
	if((accS[gr] & b) && (!write || (wrS[gr] & b))) return;
	accS[gr] |= b; if(write) wrS[gr] |= b;
	if(conf(accS[gr], wrS[gr])) g.grow = true;
}
static void note_env_crash(int gr){ if(!(wrS[gr] & (1u << BIT_ENV))){ accS[gr] |= 1u << BIT_ENV; wrS[gr] |= 1u << BIT_ENV; if(conf(accS[gr], wrS[gr])) g.grow = true; } }
static void mark_dirty(int gr){ if(!gdirty[gr]){ gdirty[gr] = 1; dirtylist.push_back(gr); } }
static void flush_dirty()
{
	for(int gr : dirtylist){ gdirty[gr] = 0; uint64_t h = mix2((uint64_t)gr + 1, gr_value(gr)); memhash += h - ghash[gr]; ghash[gr] = h; }
	dirtylist.clear();
}
static std::vector<int> touched;   // granules whose hash changed since restore (may repeat)
void world_changed(){ g.worlddirty = true; g.mem_ver++; }

// ---------------------------------------------------------------- spin bookkeeping
void own_progress(){ if(g.cur < 0) return; Thr& t = T[g.cur]; t.ep++; t.nrs = 0; t.rsover = false; t.rsclock = false; t.through = false; t.futile = false; t.thracc = 0; t.yielded = false; }
static void rs_add(ul a, uint64_t v, int sz)
{
	Thr& t = T[g.cur];
	for(int i = 0; i < t.nrs; i++) if(t.rs[i].a == a){ t.rs[i].v = v; t.rs[i].sz = (uint8_t)sz; return; }
	if(t.nrs >= NRS){ t.rsover = true; return; }
	t.rs[t.nrs++] = RS{a, v, (uint8_t)sz};
}
static bool rs_changed(int ti)
{
	Thr& t = T[ti];
	if(t.rsover && t.rsmem != g.mem_ver) return true;
	if(t.rsclock && t.rstime != W.now) return true;
	for(int i = 0; i < t.nrs; i++){ uint64_t v = 0; v = peek(t.rs[i].a, t.rs[i].sz, t.proc); if(v != t.rs[i].v) return true; }
	return false;
}
// returns number of times this (pc,addr,value) has been seen since the last own write
static int pct_seen(ul key, uint64_t v)
{
	Thr& t = T[g.cur]; PcEnt& e = t.pct[mix64(key) % NPCT];
	if(e.key == key && e.ep == t.ep && e.v == v){ if(e.cnt < 60000) e.cnt++; return e.cnt; }
	e.key = key; e.ep = t.ep; e.v = v; e.cnt = 0; return 0;
}
static void hist(uint64_t v){ T[g.cur].hist = mix2(T[g.cur].hist, v); }
static bool daemon_yield(){ if(g.phase != P_FINAL || g.cur < 0 || !T[g.cur].daemon || g.seq) return false; T[g.cur].state = T_SPIN; g.next = -1; to_main(); T[g.cur].state = T_READY; return true; }   // final phase: watching threads take turns
void yield_hint()
{
	if(daemon_yield()) return;
	if(g.phase != P_EXPLORE || g.seq){ if(g.phase != P_NONE && ++g.steps > 300000) violate("the call never returns (endless waiting loop)"); if(g.phase == P_FINAL || g.phase == P_SETUP || g.seq) W.now += 1000000; return; }
	Thr& t = T[g.cur]; g.steps++;
	if(t.through){ if(++t.thracc > (g.quiet ? 5000 : 12000)){ t.through = false; t.futile = true; block_here(T_SPIN); } return; }
	if(t.yielded && t.yieldep == t.ep) block_here(T_SPIN);
	t.yielded = true; t.yieldep = t.ep;
}
static void spin_block(){ block_here(T_SPIN); Thr& t = T[g.cur]; if(!t.through){ t.nrs = 0; t.rsover = false; t.rsclock = false; } }   // what was read before belongs to an earlier round of the loop

// ---------------------------------------------------------------- accesses from instrumented code
static inline bool tracked(ul a){ return (a >= MAP_BASE && a < MAP_END) || (a >= HEAP_BASE && a < HEAP_BASE + HEAPSZ) || (a >= DATA_LO && a < DATA_HI); }
static void validate(ul a, size_t n)
{
	if(a >= MAP_BASE && a < MAP_END){
		ul o = a - MAP_BASE; int k = (int)(o / AREASZ); ul off = o % AREASZ; Proc& p = W.proc[T[g.cur].proc];
		if(!p.area[k]) violate("access to shared memory that this process has not mapped (or has unmapped): SIGSEGV");
		if(off + n > p.arealen[k]) violate("access outside the mapped shared memory (offset %lu, mapped %zu): SIGSEGV", off, p.arealen[k]);
		for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].mapidx == k / NAREA){ off_t pg = (W.ino[i].size + 4095) / 4096 * 4096; if((off_t)(off + n) > pg) violate("access beyond the end of the shared memory file (offset %lu, size %ld): SIGBUS", off, (long)W.ino[i].size); }
		if(off + n > TRACKSZ) fatal_engine("shared file larger than the tracked area");
	}else if(a >= HEAP_BASE && a < HEAP_BASE + HEAPSZ){
		if(!heap_live(a, n)) violate("use of freed or unallocated heap memory");
	}
}
static void trace_acc(const char* w, int gr, ul pc)
{
	char r[64]; if(gr < GR_MAP) snprintf(r, sizeof r, "shm+0x%x", gr % (int)(TRACKSZ/8) * 8); else { int q = gr - GR_MAP, p = q / (GR_HEAP1 + GR_DATA1); q %= GR_HEAP1 + GR_DATA1; if(q < GR_HEAP1) snprintf(r, sizeof r, "p%d heap+0x%x", p, q*8); else snprintf(r, sizeof r, "p%d data+0x%x", p, (q - GR_HEAP1)*8); }
	tr("    %s %s = 0x%lx (pc lib+0x%lx)", w, r, gr_value(gr), pc ? pc - TEXT_LO : 0);
}
static bool frozen_stale();
static void count_step()
{
	if(++g.steps > 3000000){ if(g.grow){ g.pruned = true; end_exec(); } violate("execution does not terminate (livelock): step limit reached"); }
	if(g.grow && g.steps % 65536 == 0 && frozen_stale()){ g.pruned = true; end_exec(); }     // conflicts unknown so far: start over with them known
	Thr& t = T[g.cur]; if(t.through && ++t.thracc > (g.quiet ? 5000 : 12000)){ t.through = false; t.futile = true; t.thracc = 0; block_here(T_SPIN); }
}
static void acc1(ul a, int sz, bool write, ul pc, bool atomic)
{
	(void)atomic;
	int gr = granule(a, T[g.cur].proc);
	note_access(gr, write);
	if(!conf(accF[gr], wrF[gr])) { if(!write && !T[g.cur].through){ } return; }
	if(need_point(gr, write) && !T[g.cur].through) sched_point();
	if(write){ hist((uint64_t)gr * 2 + 1); own_progress(); mark_dirty(gr); g.mem_ver++; if(g.trace) trace_acc("write", gr, pc); }
	else{
		uint64_t v = peek(a, sz, T[g.cur].proc);
		if(g.trace && !T[g.cur].through) trace_acc("read", gr, pc);
		if(T[g.cur].through){ rs_add(a, v, sz); hist(v); return; }
		int n = pct_seen((pc - TEXT_LO) ^ (a << 1), v);
		rs_add(a, v, sz);
		if(n >= 3 && n % 3 == 0 && need_point(gr, false)){ spin_block(); v = peek(a, sz, T[g.cur].proc); rs_add(a, v, sz); n = pct_seen((pc - TEXT_LO) ^ (a << 1), v); }
		hist(mix2(v, (uint64_t)gr)); (void)n;
	}
}
void mem_access(ul a, size_t n, bool write, ul pc, bool atomic)
{
	if(!g.in_sim || g.cur < 0 || !tracked(a)) return;
	NoSim ns;
	validate(a, n);
	if(g.phase != P_EXPLORE || g.seq){ if(++g.steps > 30000000 && g.phase != P_NONE) violate("the call never returns (endless loop)"); return; }
	count_step();
	ul e = a + n;
	while(a < e){ ul nx = (a & ~7UL) + 8; if(nx > e) nx = e; acc1(a, (int)(nx - a), write, pc, atomic); a = nx; }
}
void mem_range(ul a, size_t n, bool write, ul pc){ if(n) mem_access(a, n, write, pc, false); }
static void store(ul a, int sz, uint64_t v){ memcpy((void*)a, &v, sz); }
uint64_t mem_cas(ul a, int sz, uint64_t exp, uint64_t nv, ul pc)
{
	uint64_t m = sz == 8 ? ~0UL : (1UL << (8*sz)) - 1; exp &= m; nv &= m;
	bool trk = g.in_sim && g.cur >= 0 && tracked(a);
	NoSim ns;
	if(!trk || g.phase != P_EXPLORE || g.seq){
		if(trk){ validate(a, sz); }
		uint64_t v = 0; memcpy(&v, (void*)a, sz); if(v == exp) store(a, sz, nv);
		else if(daemon_yield()){}
		else if((g.phase != P_EXPLORE || g.seq) && g.cur >= 0 && ++g.steps > 3000000) violate("the call never returns (endless waiting loop)");
		return v;
	}
	validate(a, sz); count_step();
	int gr = granule(a, T[g.cur].proc); bool through = T[g.cur].through;
	note_access(gr, true);
	bool c = conf(accF[gr], wrF[gr]);
	if(c && need_point(gr, true) && !through) sched_point();
	uint64_t v = peek(a, sz, T[g.cur].proc);
	if(v != exp || v == nv){
		if(c){ if(g.trace && !T[g.cur].through) trace_acc(v != exp ? "cas failed" : "cas same", gr, pc);
			ul key = (pc - TEXT_LO) ^ (a << 1) ^ 1;
			if(T[g.cur].through){ rs_add(a, v, sz); }
			else{
				int n = pct_seen(key, v); rs_add(a, v, sz);
				if(v != exp && n >= 1){ spin_block(); v = peek(a, sz, T[g.cur].proc); rs_add(a, v, sz); if(!(v != exp || v == nv)) goto doit; n = pct_seen(key, v); }
				hist(mix2(v, (uint64_t)gr ^ 0x55)); (void)n;
			}
		}
		return v;
	}
doit:
	store(a, sz, nv); if(c && g.trace) trace_acc("cas ok ->", gr, pc);
	if(c){ hist(mix2(v, (uint64_t)gr ^ 0x77)); own_progress(); mark_dirty(gr); g.mem_ver++; }
	return v;
}
uint64_t mem_rmw(ul a, int sz, int op, uint64_t arg, ul pc)
{
	bool trk = g.in_sim && g.cur >= 0 && tracked(a); (void)pc;
	NoSim ns;
	bool c = false; int gr = -1;
	if(trk){
		validate(a, sz);
		if(g.phase == P_EXPLORE && !g.seq){ count_step(); gr = granule(a, T[g.cur].proc); note_access(gr, true); c = conf(accF[gr], wrF[gr]); if(c && need_point(gr, true) && !T[g.cur].through) sched_point(); }
		else if(++g.steps > 30000000) violate("the call never returns (endless loop)");
	}
	uint64_t v = 0, nv; memcpy(&v, (void*)a, sz);
	switch(op){ case 0: nv = v + arg; break; case 1: nv = v - arg; break; case 2: nv = arg; break; case 3: nv = v & arg; break; case 4: nv = v | arg; break; case 5: nv = v ^ arg; break; default: nv = ~(v & arg); }
	store(a, sz, nv);
	if(c){ hist(mix2(v, (uint64_t)gr ^ 0x99)); own_progress(); mark_dirty(gr); g.mem_ver++; }
	return v;
}
void env_access(int idx, bool write)
{
	if(g.phase != P_EXPLORE || g.seq || g.cur < 0) { if(write) g.worlddirty = true; return; }
	NoSim ns;
	int gr = GR_ENV0 + idx; count_step(); note_access(gr, write);
	if(idx >= ENV_LIVE && idx < ENV_LIVE + MAXP) T[g.cur].through = false;
	if(conf(accF[gr], wrF[gr]) && need_point(gr, write) && !T[g.cur].through) sched_point();
	hist((uint64_t)gr * 2 + 0x1000000 + write); if(write){ own_progress(); world_changed(); }
}
void env_result(uint64_t v)
{
	if(g.phase != P_EXPLORE || g.seq || g.cur < 0) return;
	hist(mix2(v, 0xe17));
}

void inode_written(int m, size_t off, size_t n)
{
	g.mem_ver++; if(g.phase != P_EXPLORE || g.seq || g.cur < 0) return;
	if(off >= TRACKSZ) return; if(off + n > TRACKSZ) n = TRACKSZ - off;
	for(size_t q = off/8; q <= (off + n - 1)/8 && n; q++){ int gr = m * (int)(TRACKSZ/8) + (int)q; note_access(gr, true); if(conf(accF[gr], wrF[gr])) mark_dirty(gr); }
}

// ---------------------------------------------------------------- threads
static void body_wrap(void* p){ g_bodies[(size_t)p](); }
static void thr_main()
{
	int me = g.cur; Thr& t = T[me];
	try{
		if(t.pstart){ g.in_sim = true; void* r = t.pstart(t.starg); T[me].retval = r; g.in_sim = false; }
		else { g.in_sim = false; t.start(t.starg); }
	}catch(mc_cancel&){ g.in_sim = false; }
	catch(std::string& s){ violate("uncaught exception: %s", s.c_str()); }
	catch(...){ g.in_sim = false; violate("an exception escaped from the library"); }
	g.in_sim = false;
	bool ex = T[me].pstart != nullptr;
	thread_gone(me, ex ? T_EXITED : T_DONE);
	fatal_engine("thread ran past its end");
}
static void prep_stack(int t)
{
	ul top = stack_top(t) & ~15UL; ul* s = (ul*)top;
	*--s = 0;              // fake return address: rsp after ret must be 16n+8
	*--s = (ul)(void(*)())thr_main;
	for(int i = 0; i < 6; i++) *--s = 0;
	T[t].rsp = (ul)s; T[t].eh0 = nullptr; T[t].eh1 = 0; T[t].err = 0; T[t].in_sim = false;
}
static void clear_run(int t){ Thr& x = T[t]; x.through = x.futile = false; x.thr_cnt = 0; x.thr_ver = 0; x.hist = 0; x.ep = 1; x.yielded = false; x.nrs = 0; x.rsover = x.rsclock = false; x.thracc = 0; memset(x.pct, 0, sizeof x.pct); x.gate = -1; x.cancel = false; x.cancelstate = 0; x.joined = false; x.retval = nullptr; }
int new_thread(int proc, bool daemon)
{
	int t = -1; for(int i = 0; i < MAXT; i++) if(T[i].state == T_UNUSED){ t = i; break; }
	if(t < 0) fatal_engine("too many threads");
	memset(&T[t], 0, sizeof(Thr)); T[t].proc = proc; T[t].daemon = daemon; T[t].state = T_READY; T[t].tid = W.proc[proc].pid + W.proc[proc].ntid++;
	clear_run(t); if(t >= NT) NT = t + 1; return t;
}
static void start_body(int t, const std::function<void()>& f)
{
	g_bodies.push_back(f); T[t].start = body_wrap; T[t].starg = (void*)(g_bodies.size() - 1); T[t].pstart = nullptr; T[t].state = T_READY; prep_stack(t);
}
int start_pthread(int proc, void* (*fn)(void*), void* arg){ int t = new_thread(proc, true); T[t].pstart = fn; T[t].starg = arg; prep_stack(t); return t; }
static void sched_loop(bool can);
void thread_gone(int t, int state)
{
	bool self = t == g.cur;
	if(g.phase == P_EXPLORE && !g.seq && self){ int gr = GR_ENV0 + ENV_THR + t; note_access(gr, true); if(conf(accF[gr], wrF[gr])) sched_point(); hist(0xdead); if(state != T_DONE){ gr = GR_ENV0 + ENV_LIVE + T[t].proc; note_access(gr, true); if(conf(accF[gr], wrF[gr])) sched_point(); } }
	T[t].state = state; T[t].through = false; world_changed(); progress();
	if(self){ if(g.phase == P_EXPLORE) sched_loop(false); else { g.next = -1; } to_main(); fatal_engine("dead thread resumed"); }
}
void progress(){ g.progress_ver++; }

static bool wants(int t)   // can this thread run now?
{
	Thr& x = T[t];
	switch(x.state){
	case T_READY: return true;
	case T_SPIN: return rs_changed(t);
	case T_SLEEP: return W.now >= x.wake || x.cancel;
	case T_FLOCK: return lock_grantable(x.wino, x.proc, x.wtype, x.wbk0, x.wbk1);
	case T_EPOLL: return (x.wake >= 0 && W.now >= x.wake) || x.cancel || epoll_ready(x.proc, x.wfd);
	case T_JOIN: return T[x.wthr].state >= T_DONE;
	case T_GUARD: return (peek(x.waddr, 8, x.proc) >> 8 & 0xff) == 0;
	case T_PMUTEX: return peek(x.waddr, 4, x.proc) == 0;
	case T_GATE: return g_gates[x.gate]();
	case T_SETTLE: return !g.calm;
	}
	return false;
}
static int64_t next_time()
{
	int64_t b = -1;
	for(int i = 0; i < W.ndead; i++) if(W.deadlines[i] > W.now && (b < 0 || W.deadlines[i] < b)) b = W.deadlines[i];
	for(int t = 0; t < NT; t++) if((T[t].state == T_SLEEP || (T[t].state == T_EPOLL && T[t].wake >= 0)) && T[t].wake > W.now && (b < 0 || T[t].wake < b)) b = T[t].wake;
	return b;
}
static bool all_done(){ for(int t = 0; t < NT; t++) if(!T[t].daemon && T[t].state != T_UNUSED && T[t].state < T_DONE) return false; return true; }
static bool crash_ok(int p){ return (g.sc->crashable >> p & 1) && W.proc[p].used && W.proc[p].alive; }
static const char* stname(int s){ static const char* n[] = {"unused","ready","spinning","sleeping","waiting for a file lock","in epoll","joining","guard","mutex","at gate","settling","done","exited","dead"}; return n[s]; }

static bool g_live_point;
static const std::vector<int>* g_forced; static size_t g_fpos;
static void hash_state(uint64_t& k)
{
	flush_dirty();
	if(g.worlddirty){ uint64_t h = 1469598103934665603UL; const uint64_t* p = (const uint64_t*)&W; for(size_t i = 0; i < sizeof(W)/8; i++) h = (h ^ p[i]) * 0x9E3779B97F4A7C15UL, h ^= h >> 29; g.worldhash = h; g.worlddirty = false; }
	k = mix2(memhash, g.worldhash);
	const uint64_t* q = (const uint64_t*)ghost_mem; size_t gn = sizeof(ghost_mem)/8; uint64_t h = 77; for(size_t i = 0; i < gn; i++) if(q[i]) h = mix2(h, q[i] ^ (i << 56)); k = mix2(k, h);
	for(int t = 0; t < NT; t++){ Thr& x = T[t]; if(x.state == T_UNUSED) continue; k = mix2(k, x.hist ^ ((uint64_t)x.state << 60) ^ ((uint64_t)x.through << 59) ^ ((uint64_t)x.futile << 58)); if(x.state == T_SPIN) k = mix2(k, x.thr_ver == g.progress_ver ? x.thr_cnt : 0); if(x.state == T_SLEEP || x.state == T_EPOLL) k = mix2(k, (uint64_t)x.wake); if(x.state == T_GATE) k = mix2(k, (uint64_t)x.gate); }
	k = mix2(k, (uint64_t)(g.cur + 1) | (uint64_t)g.time_futile << 8);
}
static const Alt& pick(Choice& c, bool data)
{
	if(g.depth < g.stack.size()){
		Choice& o = g.stack[g.depth];
		if(o.n != c.n || memcmp(o.alts, c.alts, sizeof(Alt) * c.n)) fatal_engine("nondeterminism: alternatives differ on replay at depth %zu", g.depth);
		g.depth++; return o.alts[o.idx];
	}
	if(!data && g.usecache){
		uint64_t k; hash_state(k); uint16_t bud = (uint16_t)(g.rem_p << 8 | g.rem_c);
		auto it = g.cache.find(k);
		if(it != g.cache.end()){ uint16_t o = it->second; if((o >> 8) >= g.rem_p && (o & 255) >= g.rem_c){ g.pruned = true; g.st.pruned++; g.endexec = true; return c.alts[0]; } it->second = bud; }
		else { g.cache.emplace(k, bud); g.st.states++; }
	}
	c.idx = 0;
	if(g_forced && g_fpos < g_forced->size()){ int k = (*g_forced)[g_fpos++]; if(k >= c.n) fatal_engine("replay: choice %d of %d at depth %zu", k, c.n, g.depth); c.idx = (uint8_t)k; }
	g.stack.push_back(c); g.depth++; g.st.points++;
	if((long)g.stack.size() > g.st.maxdepth) g.st.maxdepth = (long)g.stack.size();
	return g.stack.back().alts[g.stack.back().idx];
}
static void quit_from_thread(){ if(g.cur >= 0) { g.in_sim = false; mc_jump(g.main_rsp); } }
static void sched_loop(bool can)
{
	for(;;){
		if(can && T[g.cur].state != T_READY && T[g.cur].state != T_SPIN) can = false;
		bool live = g_live_point; g_live_point = false;
		if(g.calm){
			if(can){ g.next = g.cur; return; }
			int t = 0; while(t < NT && !(T[t].state != T_UNUSED && wants(t))) t++;
			if(t < NT){ T[t].futile = false; g.next = t; return; }
			if(g.quiet){   // loops that wait get a few rounds without new information as well (checks for dead holders, time limits)
				for(t = 0; t < NT; t++){ Thr& x = T[t]; if(x.state != T_SPIN || (x.daemon && !x.pstart) || (x.futile && x.thr_ver == g.progress_ver) || (x.thr_ver == g.progress_ver && x.thr_cnt >= g.quiet)) continue; break; }
				if(t < NT){ Thr& x = T[t]; x.through = true; x.thracc = 0; if(x.thr_ver != g.progress_ver){ x.thr_ver = g.progress_ver; x.thr_cnt = 0; } x.thr_cnt++; g.next = t; return; }
			}
			g.calm = false; g.quiet = 0; tr("---- explored part starts");
			if(g.grow && frozen_stale()){ g.pruned = true; g.endexec = true; g.next = -1; return; }   // a waiting thread may depend on what is not known as shared yet: start over
		}
		if(can && g.rem_p <= 0 && g.rem_c <= 0){ g.next = g.cur; return; }
		Choice c; c.n = 0; c.idx = 0; memset(c.alts, 0, sizeof c.alts);
		auto push = [&](int k, int a, int cp, int cc){ if(cp <= g.rem_p && cc <= g.rem_c && c.n < 24) c.alts[c.n++] = Alt{(uint8_t)k, (int8_t)a, (uint8_t)cp, (uint8_t)cc}; };
		if(!can && all_done()){ g.next = -1; g.endexec = true; return; }
		bool any = false;
		if(can){ push(A_RUN, g.cur, 0, 0); any = true; }
		if(can ? g.rem_p > 0 : true) for(int t = 0; t < NT; t++){
			if((can && t == g.cur) || T[t].state == T_UNUSED) continue;
			if(wants(t)){ push(A_RUN, t, can ? 1 : 0, 0); any = true; }
		}
		int nthr = 0;
		if(can ? g.rem_p > 0 : true) for(int t = 0; t < NT; t++){
			if(T[t].state != T_SPIN || (can && t == g.cur) || rs_changed(t)) continue;
			if((T[t].daemon && !T[t].pstart) || (T[t].futile && T[t].thr_ver == g.progress_ver)) continue;
			if(T[t].thr_ver == g.progress_ver && T[t].thr_cnt >= 3) continue;
			push(A_THROUGH, t, any ? 1 : 0, 0); nthr++;
		}
		int64_t nt = next_time();
		if(nt >= 0 && g.time_futile < 150){ int cost = (any || nthr) ? 1 : 0; push(A_TIME, 0, cost, 0); }
		if(g.rem_c > 0) for(int p = 0; p < MAXP; p++) if(crash_ok(p)){
			bool own = g.cur >= 0 && T[g.cur].proc == p && can;
			if(own || !can || (live && g.sc->crash_any)) push(A_CRASH, p, 0, 1);
		}
		if(c.n == 0 && g.time_futile < 150){   // only waiting loops that watch the clock are left: let a second pass
			for(int t = 0; t < NT && !c.n; t++) if(T[t].state == T_SPIN && T[t].rsclock){ nt = W.now + 1000000000; push(A_TIME, 0, 0, 0); }
		}
		if(c.n == 0){
			if(g.sc->allow_stuck){ g.stuck = true; g.endexec = true; g.next = -1; if(g.sc->on_stuck) g.sc->on_stuck(); return; }
			std::string m = "deadlock: no thread can make progress:"; char b[160];
			for(int t = 0; t < NT; t++) if(T[t].state != T_UNUSED && !T[t].daemon){ snprintf(b, sizeof b, " T%d(process %d) %s;", t, T[t].proc, stname(T[t].state)); m += b; }
			if(g.sc->stuck_msg){ std::string u = g.sc->stuck_msg(); if(!u.empty()) m = u; }
			g.violation = true; g.vmsg = m; tr("%s", m.c_str()); g.endexec = true; g.next = -1; return;
		}
		if(g.trace && getenv("MCDBG")) tr("point can=%d n=%d remp=%d depth=%zu", can, c.n, g.rem_p, g.depth);
		Alt a; if(c.n == 1 && c.alts[0].cp == 0 && c.alts[0].cc == 0) a = c.alts[0]; else a = pick(c, false);
		if(g.endexec){ g.next = -1; return; }
		g.rem_p -= a.cp; g.rem_c -= a.cc;
		if(g.trace && (a.kind != A_RUN || a.arg != g.cur)) tr("-- %s%s %d", a.cp ? "(deviation) " : "", a.kind == A_RUN ? "switch to thread" : a.kind == A_THROUGH ? "spin through in thread" : a.kind == A_TIME ? "clock advances" : "CRASH of process", a.kind == A_TIME ? (int)((nt - W.now)/1000000) : a.arg);
		switch(a.kind){
		case A_RUN: T[a.arg].futile = false; g.next = a.arg; return;
		case A_THROUGH: { Thr& x = T[a.arg]; x.through = true; x.thracc = 0; if(x.thr_ver != g.progress_ver){ x.thr_ver = g.progress_ver; x.thr_cnt = 0; } x.thr_cnt++; g.next = a.arg; return; }
		case A_TIME: W.now = nt; g.time_futile++; world_changed(); progress(); break;
		case A_CRASH: do_kill(a.arg); if(can && T[g.cur].state == T_DEAD) can = false; break;
		}
	}
}
static void go()      // after sched_loop in thread context
{
	if(g.endexec){ to_main(); quit_from_thread(); }   // its context is saved: a watching thread goes on in the final phase
	if(g.next == g.cur) return;
	to_main();
}
void sched_point()
{
	if(g.phase != P_EXPLORE || g.seq) return;
	T[g.cur].state = T_READY;
	bool s = g.in_sim; g.in_sim = false;
	sched_loop(true); go();
	g.in_sim = s;
}
void live_point(int p){ g_live_point = true; env_access(ENV_LIVE + p, false); g_live_point = false; }
void block_here(int st)
{
	Thr& t = T[g.cur];
	if(g.phase != P_EXPLORE || (g.seq && st != T_GATE)){
		if(t.daemon && !g.seq){ t.state = st; g.next = -1; to_main(); t.state = T_READY; return; }
		t.state = st;
		if(st == T_SLEEP){ if(W.now < t.wake) W.now = t.wake; t.state = T_READY; return; }
		if(wants(g.cur)){ t.state = T_READY; return; }
		if(st == T_JOIN){ t.state = T_READY; return; }
		violate("sequential phase: the call blocks forever (%s)", stname(st));
	}
	bool s = g.in_sim; g.in_sim = false;
	t.state = st; t.rsmem = g.mem_ver; t.rstime = W.now;
	sched_loop(false); go();
	t.state = T_READY; g.in_sim = s;
	if(!t.through) t.thracc = 0;
}
static void kill_threads(int p, int but){ for(int t = 0; t < NT; t++) if(T[t].proc == p && t != but && T[t].state != T_UNUSED && T[t].state != T_DEAD) T[t].state = T_DEAD; }
void do_kill(int p)
{
	Proc& P = W.proc[p]; if(!P.alive) return;
	tr("process %d dies", p);
	kill_threads(p, -1); P.alive = false; P.zombie = g.sc->zombies; if(!P.exiting) proc_close_all(p);
	if(g.phase == P_EXPLORE && !g.seq){ note_env_crash(GR_ENV0 + ENV_LIVE + p); note_env_crash(GR_ENV0 + ENV_FDT + p); }
	world_changed(); progress();
}

// ---------------------------------------------------------------- harness services
void point(){ if(g.phase == P_EXPLORE){ sched_point(); hist(0x9017); } }
int choose(int n, const char* what)
{
	if(g.phase != P_EXPLORE && g.phase != P_FINAL) fatal_engine("choose() outside exploration");
	if(n <= 1) return 0;
	Choice c; memset(&c, 0, sizeof c); if(n > 24) fatal_engine("choose(%d)", n);
	for(int i = 0; i < n; i++) c.alts[i] = Alt{A_DATA, (int8_t)i, 0, 0};
	c.n = (uint8_t)n; int v = pick(c, true).arg; hist(mix2((uint64_t)v, 0xda7a)); tr("choose %s = %d", what, v); return v;
}
static uint64_t fullhash()
{
	uint64_t k = 99; auto buf = [&](const void* p, size_t n){ const uint64_t* q = (const uint64_t*)p; uint64_t h = 1469598103934665603UL; for(size_t i = 0; i < n/8; i++){ h = (h ^ q[i]) * 0x9E3779B97F4A7C15UL; h ^= h >> 29; } k = mix2(k, h); };
	int keep = g.curproc; swap_out(); int64_t n0 = W.now; int64_t dl[12]; memcpy(dl, W.deadlines, sizeof dl); int nd = W.ndead; W.now = 0; memset(W.deadlines, 0, sizeof W.deadlines); W.ndead = 0; buf(&W, sizeof W); W.now = n0; memcpy(W.deadlines, dl, sizeof dl); W.ndead = nd;
	for(int p = 0; p < MAXP; p++) if(W.proc[p].used && W.proc[p].alive){ buf(g_img_data[p], (DATA_HI - DATA_LO) & ~7UL); for(int i = 0; i < 12; i++){ char* s = g_img_heap[p] + i*SUBSZ; buf(s, (((Sub*)s)->top + 7) & ~7UL); } }
	for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].mapidx >= 0) buf(inomem[W.ino[i].mapidx], ((size_t)W.ino[i].size < TRACKSZ ? (size_t)W.ino[i].size : TRACKSZ) & ~7UL);
	buf(ghost_mem, sizeof ghost_mem);
	for(int t = 0; t < NT; t++) if(T[t].state != T_UNUSED){ k = mix2(k, (uint64_t)T[t].state | (uint64_t)T[t].tid << 8); buf(T[t].spec, sizeof T[t].spec); }
	k = mix2(k, (uint64_t)g.cur); swap_to(keep); return k;
}
static uint64_t stackhash()   // outside seq_only scenarios: every other thread stands somewhere in a call as well
{
	uint64_t k = mix2((uint64_t)W.now, 0x57ac);
	for(int t = 0; t < NT; t++){ if(t == g.cur || T[t].state == T_UNUSED || T[t].state >= T_DONE) continue; Thr& x = T[t];
		uint64_t h = 1469598103934665603UL; for(const uint64_t* q = (const uint64_t*)x.rsp; q < (const uint64_t*)stack_top(t); q++){ h = (h ^ *q) * 0x9E3779B97F4A7C15UL; h ^= h >> 29; }
		k = mix2(k, h); k = mix2(k, (uint64_t)x.wake ^ (uint64_t)x.gate << 32 ^ (uint64_t)(x.cancel | x.through << 1 | x.in_sim << 2)); }
	return k;
}
int choose_state(int n, const char* what, int left)
{
	if(g.phase == P_EXPLORE && g.depth >= g.stack.size() && g.usecache){
		uint64_t k = fullhash(); if(!g.seq) k = mix2(k, stackhash()); auto it = g.cache.find(k);
		if(it != g.cache.end()){ if(it->second >= left){ g.pruned = true; g.st.pruned++; end_exec(); } it->second = (uint16_t)left; }
		else { g.cache.emplace(k, (uint16_t)left); g.st.states++; }
	}
	g.seqleft = left; return choose(n, what);
}
static void env_point(int e, bool always = false){ int gr = GR_ENV0 + e; note_access(gr, true); if(always || conf(accF[gr], wrF[gr])) sched_point(); hist((uint64_t)gr ^ 0xe9); }
// the end of a process has two steps, as in a real kernel: its descriptors are closed (and the closing is reported to watchers), later its /proc entry changes
void die()
{
	int p = T[g.cur].proc; Proc& P = W.proc[p];
	if(g.phase == P_EXPLORE && !g.seq){
		env_point(ENV_LIVE + p); env_point(ENV_FDT + p);
		tr("process %d closes its descriptors", p); kill_threads(p, g.cur); proc_close_all(p); P.exiting = true; note_env_crash(GR_ENV0 + ENV_FDT + p); world_changed(); progress();
		env_point(ENV_LIVE + p, true);   // always: who reads the liveness may do so only after the last thread has ended
	}
	do_kill(p); if(g.phase == P_EXPLORE) sched_loop(false); else g.next = -1; to_main(); fatal_engine("dead process resumed");
}
void settle(){ if(g.phase != P_EXPLORE || g.seq) return; block_here(T_SETTLE); }
void quiesce(int rounds){ if(g.phase != P_EXPLORE || g.seq) return; g.calm = true; g.quiet = rounds; progress(); block_here(T_SETTLE); }
void kill_proc(int p){ if(p == T[g.cur].proc) die(); do_kill(p); }
void exit_thread(){ thread_gone(g.cur, T_EXITED); fatal_engine("exited thread resumed"); }
int64_t now(){ return W.now; }
void set_now(int64_t ns){ W.now = ns; world_changed(); }
void add_deadline(int64_t a)
{
	for(int i = 0; i < W.ndead; i++) if(W.deadlines[i] == a) return;
	int j = 0; for(int i = 0; i < W.ndead; i++) if(W.deadlines[i] > W.now) W.deadlines[j++] = W.deadlines[i];
	for(int i = j; i < W.ndead; i++) W.deadlines[i] = 0;
	W.ndead = j; if(j >= 12) fatal_engine("too many deadlines");
	int k = j; while(k > 0 && W.deadlines[k-1] > a){ W.deadlines[k] = W.deadlines[k-1]; k--; } W.deadlines[k] = a; W.ndead++; world_changed();
}
void gate(const std::function<bool()>& c)
{
	if(g.phase != P_EXPLORE){ if(!c()) fatal_engine("gate in sequential phase"); return; }
	if(c()) return;
	g_gates.push_back(c); T[g.cur].gate = (int)g_gates.size() - 1; block_here(T_GATE); T[g.cur].gate = -1;
}
int self_proc(){ return T[g.cur].proc; }
int self_thread(){ return g.cur; }
bool proc_alive(int p){ return W.proc[p].used && W.proc[p].alive; }
int nthreads(int p){ int n = 0; for(int t = 0; t < NT; t++) if(T[t].proc == p && T[t].state != T_UNUSED && T[t].state < T_DONE) n++; return n; }
Res vres(int p)
{
	Res r; memset(&r, 0, sizeof r); Proc& q = W.proc[p];
	for(int f = 0; f < NFD; f++){ r.fds += q.fds[f].kind != FD_NONE; if(q.fds[f].kind == FD_INOTIFY) for(auto& w : W.watch) r.watches += w.used && w.inst == q.fds[f].ofd; }
	for(int k = 0; k < NMAPINO * NAREA; k++) r.maps += q.area[k];
	r.threads = nthreads(p); r.unjoined = q.unjoined; r.handlers = q.natexit + q.natfork; for(bool k : q.keyused) r.handlers += k; r.files = vfiles(); r.umask = (int)q.umask_;
	for(int i = 0; i < 12; i++){ const Sub* u = g.curproc == p ? sub(i) : (const Sub*)(g_img_heap[p] + i * SUBSZ); for(uint32_t o = 0; o < (u->top + 63) / 64 && o < sizeof u->live; o++) r.heap += __builtin_popcount(u->live[o]); }
	return r;
}
bool thread_done(int t){ return T[t].state >= T_DONE; }
void sim_enter(){ g.in_sim = true; } void sim_leave(){ g.in_sim = false; }
void op_begin(const char* fmt, ...){ if(g.trace){ char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tr("> %s", b); } if(g.seq) g.steps = 0; hist(0x0b); }
void op_end(long r){ tr("< = %ld", r); hist((uint64_t)r); own_progress(); progress(); g.time_futile = 0; }
void* lib_sym(const char* n){ void* p = dlsym(g_dl, n); if(!p) fatal_engine("symbol %s missing: %s", n, dlerror()); return p; }
void spawn(const std::function<void()>& body){ int t = new_thread(T[g.cur].proc, false); T[t].tid = W.proc[T[g.cur].proc].pid + W.proc[T[g.cur].proc].ntid - 1; start_body(t, body); world_changed(); progress(); }
static int setup_thread_of(int p){ for(int t = 0; t < NT; t++) if(T[t].proc == p && T[t].tid == W.proc[p].pid) return t; return -1; }
static void run_daemons(){ for(int k = 0; k < 20; k++){ bool r = false; for(int t = 0; t < NT; t++) if(!g.violation && T[t].daemon && T[t].state != T_UNUSED && T[t].state < T_DONE && (T[t].state == T_SPIN ? g.phase == P_FINAL : wants(t))){ T[t].state = T_READY; run_thread(t); r = true; } if(!r) break; } }
static void check_seq_violation(){ if(g.violation) throw std::string(g.vmsg); }
void in_proc(int p, const std::function<void()>& f)
{
	if(g.phase != P_SETUP && g.phase != P_FINAL) fatal_engine("in_proc outside setup");
	if(g.cur >= 0) fatal_engine("in_proc from a thread");
	int t = setup_thread_of(p); if(t < 0) fatal_engine("process %d has no main thread", p);
	start_body(t, f); g.steps = 0; run_thread(t); g.cur = -1; check_seq_violation();
	if(T[t].state != T_DONE && T[t].state != T_DEAD && T[t].state != T_EXITED) fatal_engine("setup thread blocked");
	run_daemons(); g.cur = -1; check_seq_violation();
}
int fork_proc(const std::function<void()>& body)
{
	int p = T[g.cur].proc, c = -1; for(int i = 0; i < MAXP; i++) if(!W.proc[i].used){ c = i; break; }
	if(c < 0) fatal_engine("too many processes");
	Proc& P = W.proc[p];
	g.in_sim = true; for(int i = P.natfork - 1; i >= 0; i--) if(P.af_prep[i]) P.af_prep[i](); g.in_sim = false;
	W.proc[c] = P; W.proc[c].pid = pid_of(c); W.proc[c].ppid = P.pid; W.proc[c].ntid = 0; W.proc[c].unjoined = W.proc[c].faulted = 0;
	for(int i = 0; i < NINO; i++) for(int b = 0; b < NLKB; b++) W.lk[i][c][b] = 0;
	swap_to(p); memcpy(g_img_data[c], (void*)DATA_LO, DATA_HI - DATA_LO); heap_save(g_img_heap[c]);
	int t = new_thread(c, false); memcpy(T[t].spec, T[g.cur].spec, sizeof T[t].spec);
	start_body(t, [c, body]{ Proc& Q = W.proc[c]; g.in_sim = true; for(int i = 0; i < Q.natfork; i++) if(Q.af_child[i]) Q.af_child[i](); g.in_sim = false; body(); });
	world_changed(); progress(); hist(c);
	g.in_sim = true; for(int i = 0; i < P.natfork; i++) if(P.af_par[i]) P.af_par[i](); g.in_sim = false;
	tr("forked process %d", c);
	point();
	return c;
}
void exit_process()
{
	int p = T[g.cur].proc; tr("exit()");
	while(W.proc[p].natexit > 0){ int i = --W.proc[p].natexit; ul f = (ul)W.proc[p].atexit_fn[i]; if(f >= TEXT_LO && f < TEXT_HI){ g.in_sim = true; W.proc[p].atexit_fn[i](W.proc[p].atexit_arg[i]); g.in_sim = false; } }
	die();
}

// ---------------------------------------------------------------- snapshot
struct Snap { World W; Thr T[MAXT]; int NT; unsigned char ghost[1024]; std::vector<char> data[MAXP], heap[MAXP]; std::vector<char> ino[NMAPINO]; std::vector<std::pair<ul,std::vector<char>>> stk; size_t nbod, ngate; };
static Snap S;
static void take_snapshot()
{
	swap_out(); S.W = W; memcpy(S.T, T, sizeof T); S.NT = NT; memcpy(S.ghost, ghost_mem, sizeof ghost_mem);
	for(int p = 0; p < MAXP; p++) if(W.proc[p].used){ S.data[p].assign(g_img_data[p], g_img_data[p] + (DATA_HI - DATA_LO)); S.heap[p].assign(g_img_heap[p], g_img_heap[p] + HEAPSZ); }
	for(int i = 0; i < NMAPINO; i++){ size_t n = 0; for(int k = 0; k < NINO; k++) if(W.ino[k].used && W.ino[k].mapidx == i) n = (size_t)W.ino[k].size; if(n > TRACKSZ) n = TRACKSZ; S.ino[i].assign(inomem[i], inomem[i] + n); }
	S.stk.clear(); for(int t = 0; t < NT; t++) if(T[t].state != T_UNUSED && T[t].state < T_DONE){ ul top = stack_top(t); S.stk.push_back({T[t].rsp, std::vector<char>((char*)T[t].rsp, (char*)top)}); }
	S.nbod = g_bodies.size(); S.ngate = g_gates.size();
}
static size_t ino_hi[NMAPINO];
static void restore_snapshot()
{
	for(int k = 0; k < NINO; k++) if(W.ino[k].used && W.ino[k].mapidx >= 0 && (size_t)W.ino[k].size > ino_hi[W.ino[k].mapidx]) ino_hi[W.ino[k].mapidx] = (size_t)W.ino[k].size;
	W = S.W; memcpy(T, S.T, sizeof T); NT = S.NT; memcpy(ghost_mem, S.ghost, sizeof ghost_mem);
	for(int p = 0; p < MAXP; p++) if(W.proc[p].used){ memcpy(g_img_data[p], S.data[p].data(), S.data[p].size()); for(int i = 0; i < 12; i++) memcpy(g_img_heap[p] + i*SUBSZ, S.heap[p].data() + i*SUBSZ, ((Sub*)(S.heap[p].data() + i*SUBSZ))->top); }
	for(int i = 0; i < NMAPINO; i++){ memcpy(inomem[i], S.ino[i].data(), S.ino[i].size()); size_t hi = ino_hi[i] > TRACKSZ ? TRACKSZ : ino_hi[i]; if(hi > S.ino[i].size()) memset(inomem[i] + S.ino[i].size(), 0, hi - S.ino[i].size()); ino_hi[i] = 0; }
	for(auto& s : S.stk) memcpy((void*)s.first, s.second.data(), s.second.size());
	g_bodies.resize(S.nbod); g_gates.resize(S.ngate);
	g.curproc = -1; g.cur = -1; g.in_sim = false;
	for(int gr : dirtylist) gdirty[gr] = 0; dirtylist.clear();
}

// ---------------------------------------------------------------- signals
static void on_sig(int sig, siginfo_t* si, void* uc)
{
	if(g.cur < 0 || g.endexec){ ul pc = (ul)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; fprintf(stderr, "ENGINE ERROR: signal %d outside a simulated thread (scenario %s, addr %p, pc %lx, lib %lx)\n", sig, g.sc ? g.sc->name.c_str() : "-", si->si_addr, pc, TEXT_LO); _exit(3); }
	ul pc = (ul)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; Dl_info di; memset(&di, 0, sizeof di); dladdr((void*)pc, &di);
	char b[200]; snprintf(b, sizeof b, "%s in library or harness code (address %p, at %s+0x%lx)", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : "SIGILL", si->si_addr, di.dli_sname ? di.dli_sname : "?", pc - TEXT_LO);
	g.violation = true; g.vmsg = b; tr("%s", b); g.endexec = true; g.in_sim = false;
	mc_jump(g.main_rsp);
}

// ---------------------------------------------------------------- library loading
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d)
{
	const char* want = (const char*)d; if(!i->dlpi_name || !strstr(i->dlpi_name, want)) return 0;
	ul lo = 0, hi = 0, rlo = 0, rhi = 0;
	for(int k = 0; k < i->dlpi_phnum; k++){
		const auto& p = i->dlpi_phdr[k];
		if(p.p_type == PT_LOAD && (p.p_flags & PF_X)){ TEXT_LO = i->dlpi_addr + p.p_vaddr; TEXT_HI = TEXT_LO + p.p_memsz; }
		if(p.p_type == PT_LOAD && (p.p_flags & PF_W)){ ul a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz; if(!lo || a < lo) lo = a; if(b > hi) hi = b; }
		if(p.p_type == PT_GNU_RELRO){ rlo = i->dlpi_addr + p.p_vaddr; rhi = rlo + p.p_memsz; }
	}
	if(rlo && rlo <= lo) lo = (rhi + 4095) & ~4095UL;
	DATA_LO = lo; DATA_HI = hi; return 1;
}
void init_engine(const char* lib)
{
	static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for(int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
	auto fixed = [](ul a, size_t n, int prot, int fl, int fd){ void* r = mmap((void*)a, n, prot, fl | MAP_FIXED_NOREPLACE, fd, 0); if(r != (void*)a) fatal_engine("cannot map %lx", a); };
	for(int t = 0; t < MAXT; t++) fixed(stack_top(t) - STKSZ, STKSZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1);
	fixed(HEAP_BASE, HEAPSZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1);
	for(int i = 0; i < NMAPINO; i++){
		int fd = (int)syscall(SYS_memfd_create, "mcino", 0); if(fd < 0 || ftruncate(fd, AREASZ)) fatal_engine("memfd");
		inomem[i] = (char*)mmap(nullptr, AREASZ, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
		for(int k = 0; k < NAREA; k++) fixed(MAP_BASE + ((ul)i*NAREA + k) * AREASZ, AREASZ, PROT_READ|PROT_WRITE, MAP_SHARED, fd);
		close(fd);
	}
	arena_init(); g.cur = -1; g.curproc = -1;
	g.in_sim = true; g_dl = dlopen(lib, RTLD_NOW | RTLD_LOCAL); g.in_sim = false;
	if(!g_dl) fatal_engine("dlopen: %s", dlerror());
	const char* bn = strrchr(lib, '/'); dl_iterate_phdr(phdr_cb, (void*)(bn ? bn + 1 : lib));
	if(!DATA_LO) fatal_engine("data segment of %s not found", lib);
	size_t n = DATA_HI - DATA_LO; pri_data = (char*)malloc(n); memcpy(pri_data, (void*)DATA_LO, n); pri_heap = (char*)calloc(1, HEAPSZ); heap_save(pri_heap);
	for(int p = 0; p < MAXP; p++){ g_img_data[p] = (char*)malloc(n); g_img_heap[p] = (char*)calloc(1, HEAPSZ); }
	GR_DATA1 = (int)(((DATA_HI + 7) & ~7UL) - (DATA_LO & ~7UL)) / 8 + 1;
	GR_ENV0 = GR_MAP + MAXP * (GR_HEAP1 + GR_DATA1); GR_TOTAL = GR_ENV0 + ENV_N;
	accF = (uint16_t*)calloc(GR_TOTAL, 2); wrF = (uint16_t*)calloc(GR_TOTAL, 2); accS = (uint16_t*)calloc(GR_TOTAL, 2); wrS = (uint16_t*)calloc(GR_TOTAL, 2);
	ghash = (uint64_t*)calloc(GR_TOTAL, 8); gdirty = (uint8_t*)calloc(GR_TOTAL, 1);
}

// ---------------------------------------------------------------- explorer
static void freeze(){ memcpy(accF, accS, GR_TOTAL*2); memcpy(wrF, wrS, GR_TOTAL*2); conflist.clear(); for(int i = 0; i < GR_ENV0; i++) if(conf(accF[i], wrF[i])) conflist.push_back(i); g.grow = false; }
static void base_hash(){ basehash = 0; confbase.clear(); for(int gr : conflist){ uint64_t h = mix2((uint64_t)gr + 1, gr_value(gr)); ghash[gr] = h; confbase.push_back(h); basehash += h; } }
static bool frozen_stale(){ for(int i = 0; i < GR_TOTAL; i++) if(conf(accS[i], wrS[i]) && (accF[i] != accS[i] || wrF[i] != wrS[i])) return true; return false; }
static void run_one(const Scenario& s, const Bounds& b)
{
	restore_snapshot();
	for(size_t i = 0; i < conflist.size(); i++) ghash[conflist[i]] = confbase[i];
	memhash = basehash; g.worlddirty = true;
	g.phase = P_EXPLORE; g.rem_p = b.preempt; g.rem_c = b.crash; g.depth = 0; g.violation = false; g.vmsg.clear(); g.endexec = false; g.pruned = false; g.stuck = false; g.steps = 0; g.seq = s.seq_only; g.calm = s.calm; g.quiet = 0; g.progress_ver = 1; g.mem_ver = 0; g.time_futile = 0; g.outcome = 1;
	for(size_t i = 0; i < s.threads.size(); i++){ if(T[i].state == T_DEAD || !W.proc[s.threads[i].proc].alive) continue; clear_run((int)i); start_body((int)i, s.threads[i].body); }
	for(int t = 0; t < NT; t++) if(T[t].daemon && T[t].state != T_UNUSED) clear_run(t);
	g.cur = -1; g.next = -1;
	sched_loop(false);
	while(!g.endexec && g.next >= 0) run_thread(g.next);
	g.cur = -1; g.in_sim = false;
	g.st.execs++; g.st.steps += (long)g.steps;
	g.seq = false;
	if(!g.violation && !g.pruned && s.final_check){
		int p = s.final_proc; if(!W.proc[p].alive){ for(p = 0; p < MAXP; p++) if(W.proc[p].used && W.proc[p].alive) break; }
		if(p < MAXP){
			g.phase = P_FINAL; g.endexec = false; int t = -1; for(int i = 0; i < NT; i++) if(T[i].proc == p && T[i].tid == W.proc[p].pid) t = i;
			if(t < 0 || T[t].state < T_DONE){ if(!g.stuck) fatal_engine("final check: main thread of process %d not idle", p); }
			else{
				if(s.rest_ms > 0){ g.cur = -1; for(int64_t e = W.now + (int64_t)s.rest_ms * 1000000; W.now < e && !g.violation; W.now += 10000000) run_daemons(); g.cur = -1; g.in_sim = false; }
				if(g.violation){ g.phase = P_NONE; g.seq = false; return; }
				T[t].state = T_READY; start_body(t, s.final_check); g.steps = 0; T[t].finalthr = true; run_thread(t); T[t].finalthr = false; }
			g.cur = -1; g.in_sim = false;
		}
	}
	if(!g.violation && !g.pruned) g.st.outcomes[g.outcome]++;
	g.phase = P_NONE; g.seq = false;
}
static bool backtrack(){ while(!g.stack.empty()){ Choice& c = g.stack.back(); if(c.idx + 1 < c.n){ c.idx++; return true; } g.stack.pop_back(); } return false; }
static double wall(){ struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static std::string do_setup(const Scenario& s)
{
	g.sc = &s; memset(&W, 0, sizeof W); memset(T, 0, sizeof T); NT = 0; memset(ghost_mem, 0, sizeof ghost_mem); g_bodies.clear(); g_gates.clear();
	for(int i = 0; i < NMAPINO; i++) clear_inode(i);
	W.now = 1000000000LL * 1000 + 500000000; W.nextino = 100; g.curproc = -1; g.cur = -1; g.violation = false; g.endexec = false; g.vmsg.clear();
	venv_reset();
	for(int p = 0; p < s.nproc; p++){ W.proc[p].used = W.proc[p].alive = true; W.proc[p].pid = pid_of(p); W.proc[p].ppid = 1; W.proc[p].umask_ = 022; fresh_image(p); for(int f = 0; f < 3; f++){ W.proc[p].fds[f].kind = FD_FILE; W.proc[p].fds[f].ino = -1; } }
	for(auto& d : s.threads) new_thread(d.proc, d.daemon);
	for(int p = 0; p < s.nproc; p++) if(setup_thread_of(p) < 0){ int t = new_thread(p, false); T[t].state = T_DONE; }
	for(int t = 0; t < NT; t++) T[t].state = T_DONE;
	g.phase = P_SETUP;
	try{ if(s.setup) s.setup(); }catch(std::string& m){ g.phase = P_NONE; g.cur = -1; return "during the sequential setup: " + m; }
	g.phase = P_NONE; take_snapshot(); return "";
}
extern bool (*is_known)(const std::string&);
Result explore(const Scenario& s, const Bounds& bb)
{
	Result R; double t0 = wall(); g.trace = false; g.tracebuf.clear(); g.st = Stats(); g.usecache = true;
	memset(accS, 0, GR_TOTAL*2); memset(wrS, 0, GR_TOTAL*2);
	std::string e = do_setup(s); if(!e.empty()){ R.ok = false; R.msg = e; R.trace = g.tracebuf; g.st.sec = wall() - t0; R.st = g.st; return R; }
	freeze(); restore_snapshot(); base_hash();
	for(int B = 0; B <= bb.preempt; B++){
		Bounds b = bb; b.preempt = B; 
		bool capped = false;
	again:
		g.st.rounds++; g.stack.clear(); g.cache.clear(); g.st.outcomes.clear(); long st0 = g.st.states; (void)st0; g.st.states = 0;
		long ex = 0; g.st.sample.clear(); g.st.known.clear();
		for(;;){
			run_one(s, b); ex++;
			if(g.violation && is_known && is_known(g.vmsg)){ g.st.known[g.vmsg]++; g.violation = false; }
			else if(!g.violation && !g.pruned && g.stack.size() >= g.st.sample.size()){ g.st.sample.clear(); for(auto& c : g.stack) g.st.sample.push_back(c.idx); g.st.sample_out = g.outcome; g.st.sample_conf_round = g.st.rounds; g.st.sample_b = b; }
			if(g.violation){
				R.ok = false; R.msg = g.vmsg; for(auto& c : g.stack) R.choices.push_back(c.idx);
				g.st.sec = wall() - t0; g.b = b; R.st = g.st; R.st.bound_done = B - 1; R.used = b; return R;
			}
			if(g.grow){ g.grow = false; if(frozen_stale()){ freeze(); restore_snapshot(); base_hash(); goto again; } }
			if(!backtrack()) break;
			if(ex >= bb.max_exec || wall() - t0 > bb.max_sec){ capped = true; break; }
		}
		if(capped){ g.st.capped = true; break; }
		g.st.bound_done = B;
	}
	g.st.sec = wall() - t0; R.st = g.st; return R;
}
bool (*is_known)(const std::string&);
std::string dump_conf(){ std::string o; char b[64]; for(int i = 0; i < GR_TOTAL; i++) if(accF[i] || wrF[i]) if(conf(accF[i], wrF[i])){ snprintf(b, sizeof b, "%d:%x:%x ", i, accF[i], wrF[i]); o += b; } return o; }
Result replay(const Scenario& s, const Bounds& b, const std::vector<int>& ch, const std::string& cf)
{
	Result R; g.trace = true; g.tracebuf.clear(); g.st = Stats(); g.usecache = false;
	std::string e = do_setup(s); if(!e.empty()){ R.ok = false; R.msg = e; R.trace = g.tracebuf; return R; }
	memset(accS, 0, GR_TOTAL*2); memset(wrS, 0, GR_TOTAL*2);
	const char* p = cf.c_str(); int gr, n; unsigned a, w; while(sscanf(p, "%d:%x:%x %n", &gr, &a, &w, &n) == 3){ if(gr < GR_TOTAL){ accS[gr] = (uint16_t)a; wrS[gr] = (uint16_t)w; } p += n; }
	freeze(); restore_snapshot(); base_hash();
	g_forced = &ch; g_fpos = 0; g.stack.clear();
	run_one(s, b); g_forced = nullptr;
	R.ok = !g.violation; R.msg = g.vmsg; R.trace = g.tracebuf; for(auto& c : g.stack) R.choices.push_back(c.idx); R.st = g.st; R.outcome = g.outcome; return R;
}
}
