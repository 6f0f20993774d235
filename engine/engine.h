// engine internals shared by engine.cc / venv.cc / tsanrt.cc
#pragma once
#include "mc.h"
#include <setjmp.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unordered_map>
#include <unordered_set>

namespace mc {

typedef unsigned long ul;
enum { NINO = 30, NMAPINO = 5, NAREA = 12, NFD = 24, NLKB = 9, NSPEC = 8, NATEXIT = 12, NATFORK = 12, NRS = 16, NPCT = 128, NOFD = 48 };
static const size_t STKSZ   = 512 * 1024;
static const size_t SUBSZ   = 40960;
static const size_t HEAPSZ  = 12 * SUBSZ;
static const size_t AREASZ  = 2 * 1024 * 1024;
static const size_t TRACKSZ = 1024 * 1024;          // tracked prefix of a mapped file
static const ul STACK_BASE  = 0x100000000000UL;
static const ul HEAP_BASE   = 0x110000000000UL;
static const ul MAP_BASE    = 0x120000000000UL;
static const ul MAP_END     = MAP_BASE + (ul)NMAPINO * NAREA * AREASZ;

enum TState { T_UNUSED=0, T_READY, T_SPIN, T_SLEEP, T_FLOCK, T_EPOLL, T_JOIN, T_GUARD, T_PMUTEX, T_GATE, T_SETTLE, T_DONE, T_EXITED, T_DEAD };
enum FdKind { FD_NONE=0, FD_FILE, FD_INOTIFY, FD_EPOLL, FD_DIR, FD_PROC };

struct Inode { bool used, linked, isdir; dev_t dev; ino_t ino; int mapidx; off_t size; mode_t mode; char path[120]; };
struct FdEnt { uint8_t kind; bool wr, nonblock, cloexec; uint8_t ofd; int ino; off_t pos; int obj, mapped; };
struct Watch { bool used; uint8_t inst; int wd, ino; uint32_t mask, pending, last; };   // inst: open description of the inotify instance (shared by fork)
struct Epoll { uint8_t target; bool edge; uint32_t mask; uint64_t data; };               // indexed by open description
struct Proc {
	bool used, alive, exiting, zombie; pid_t pid, ppid; int ntid;
	FdEnt fds[NFD];
	bool area[NMAPINO * NAREA]; uint8_t areaofd[NMAPINO * NAREA]; size_t arealen[NMAPINO * NAREA];
	mode_t umask_; int uid; uint32_t files;
	int natexit; void (*atexit_fn[NATEXIT])(void*); void* atexit_arg[NATEXIT];
	int unjoined; int fault, faulted; bool fpart; const char* refuse; int natfork; void (*af_prep[NATFORK])(void); void (*af_par[NATFORK])(void); void (*af_child[NATFORK])(void);
	bool keyused[NSPEC];
	int areanext[NMAPINO];
};
struct EnvOv { int8_t proc; char k[24]; char v[48]; };
struct World {
	EnvOv envov[10]; int nenvov;
	int64_t now; int64_t deadlines[12]; int ndead;
	Inode ino[NINO]; Proc proc[MAXP]; Watch watch[8];
	uint8_t lk[NINO][MAXP][NLKB];                  // fcntl locks: 0 none, 1 read, 2 write
	bool extofd[NOFD];
	ino_t nextino; uint16_t logc[NINO][4], errc[MAXP][4];
	Epoll ep[NOFD];
};
struct RS { ul a; uint64_t v; uint8_t sz; };
struct PcEnt { ul key; uint64_t v; uint32_t ep; uint16_t cnt; };
struct Thr {
	int state; int proc; int tid; bool daemon; bool through; bool futile; bool finalthr;
	int thr_cnt; uint32_t thr_ver;
	ul rsp; void* eh0; unsigned eh1; int err; void* spec[NSPEC]; bool in_sim;
	int cancelstate; bool cancel; bool joined, joinable; void* retval;
	int64_t wake; int wino; int wtype; int wbk0, wbk1; int wfd; ul waddr; int wthr;
	uint64_t hist; uint32_t ep; uint32_t yieldep; bool yielded;
	RS rs[NRS]; int nrs; bool rsover; int64_t rstime; bool rsclock; uint32_t rsmem;
	uint64_t thracc;
	PcEnt pct[NPCT];
	int gate; int body;
	void (*start)(void*); void* starg; void* (*pstart)(void*);
};

struct Alt { uint8_t kind; int8_t arg; uint8_t cp, cc; };
enum { A_RUN=0, A_THROUGH, A_TIME, A_CRASH, A_DATA };
struct Choice { Alt alts[24]; uint8_t n, idx; };

enum Phase { P_NONE, P_SETUP, P_EXPLORE, P_FINAL };

struct G {
	Phase phase; int cur; int curproc; bool in_sim;
	ul main_rsp; int next;
	int rem_p, rem_c;
	const Scenario* sc; Bounds b;
	std::vector<Choice> stack; size_t depth;
	bool violation; std::string vmsg; bool endexec; bool pruned; bool stuck;
	uint64_t steps;
	uint32_t progress_ver; uint32_t mem_ver; int time_futile;
	bool grow; bool seq; bool calm; int quiet; int seqleft; bool trace; std::string tracebuf;
	uint64_t outcome;
	uint64_t worldhash; bool worlddirty;
	std::unordered_map<uint64_t,uint16_t> cache; bool usecache;
	Stats st;
};
extern G g; extern World W; extern Thr T[MAXT]; extern int NT;
extern char* g_img_data[MAXP]; extern char* g_img_heap[MAXP];
extern ul DATA_LO, DATA_HI; 
extern std::vector<std::function<bool()>> g_gates;

// granules
enum { GR_MAP = NMAPINO * (int)(TRACKSZ/8) };
static const int GR_HEAP1 = (int)(HEAPSZ/8);
extern int GR_DATA1, GR_ENV0, GR_TOTAL;
enum { ENV_FS=0, ENV_LIVE=1, ENV_FDT=1+MAXP, ENV_INO=1+2*MAXP, ENV_LOCK=1+2*MAXP+NINO, ENV_THR=1+2*MAXP+2*NINO, ENV_N=1+2*MAXP+2*NINO+MAXT };
extern uint16_t *accF, *wrF, *accS, *wrS;

void sched_point();                          // a visible operation of the current thread comes next
void block_here(int state);                  // returns when scheduled again
void env_access(int envidx, bool write);     // point + history for virtual-kernel objects
void env_result(uint64_t v);                 // result of a virtual-kernel read goes into the history
void mem_access(ul a, size_t n, bool write, ul pc, bool atomic);
void mem_range(ul a, size_t n, bool write, ul pc);
uint64_t mem_cas(ul a, int sz, uint64_t exp, uint64_t nv, ul pc);
uint64_t mem_rmw(ul a, int sz, int op, uint64_t arg, ul pc);
void world_changed();
[[noreturn]] void fatal_engine(const char* fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void violate(const char* fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void end_exec();
void do_kill(int p);
void* arena_alloc(size_t n); void arena_free(void* p); bool arena_has(const void* p); size_t arena_size(void* p);
int new_thread(int proc, bool daemon);
void swap_to(int proc);
char* inode_mem(int mapidx);
bool clear_inode(int mapidx); void inode_grow(int mapidx, size_t n);
void own_progress();
void tr(const char* fmt, ...) __attribute__((format(printf,1,2)));
void check_cancel();
void yield_hint();
void thread_gone(int t, int state);
bool lock_grantable(int ino, int proc, int type, int b0, int b1);
bool epoll_ready(int proc, int efd);
void proc_close_all(int p);
void live_point(int p);
int start_pthread(int proc, void* (*fn)(void*), void* arg);
void inode_written(int mapidx, size_t off, size_t n);
void venv_reset();
struct mc_cancel {};
static inline uint64_t mix64(uint64_t x){ x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static inline uint64_t mix2(uint64_t a, uint64_t b){ return mix64(a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C159E3779B9ULL); }
struct NoSim { bool o; NoSim(){ o = g.in_sim; g.in_sim = false; } ~NoSim(){ g.in_sim = o; } };
}
