// Controlled-scheduler model checker for the real fullock library code.
// See DESIGN.md.  Everything in namespace mc is engine; harness bodies run as
// coroutines ("simulated threads") inside simulated processes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace mc {

enum { MAXP = 5, MAXT = 12 };

struct Bounds {
	int preempt = 2;       // deviations: preemptions, early timers, spin-through while others run
	int crash = 0;         // injected process deaths
	long max_exec = 400000;// hard cap on executions (reported when hit)
	double max_sec = 60;
};

struct ThreadDef { int proc; std::function<void()> body; bool daemon = false; };

struct Scenario {
	std::string name;
	std::string prop;
	Bounds quick, thorough;
	bool in_quick = true;
	int nproc = 1;
	std::map<std::string,std::string> env;          // virtual environment of all processes
	std::function<void()> setup;                    // runs sequentially in proc 0 main thread (may call mc::in_proc)
	std::vector<ThreadDef> threads;
	std::function<void()> final_check;              // sequential, after every thread finished (runs in an alive proc)
	int final_proc = 0;
	bool crash_any = false;                         // crash budget may also strike at other processes' points
	unsigned crashable = 0;                         // bitmask of procs that may be killed by the explorer
	bool allow_stuck = false;                       // "no thread can run" ends the execution without a violation
	std::function<void()> on_stuck;                 // called (engine context) when stuck and allow_stuck
	std::function<std::string()> stuck_msg;          // words the violation when no thread can run (empty: the standard message)
	int rest_ms = 0;                                // before the final check, time passes for the library's own threads
	bool zombies = false;                           // terminated processes are never reaped by their parent
	bool count_msgs = false;                        // the messages of the library are counted (see vmsgs)
	bool calm = false;                              // start without branching until settle()
	bool seq_only = false;                          // calls are atomic: threads take turns at gates only (history enumeration with full-state matching)
};

// ---- registration
std::vector<Scenario>& scenarios();
Scenario& add(const std::string& prop, const std::string& name);

// ---- harness services (coroutine context)
void point();                                       // explicit scheduling point
void fail(const char* fmt, ...) __attribute__((format(printf,1,2)));   // property violated: aborts execution
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));   // trace text (only when tracing)
void outcome(uint64_t v);                           // mixes into the observed-outcome fingerprint
int  choose(int n, const char* what);               // free data choice 0..n-1 (enumerated exhaustively)
int  choose_state(int n, const char* what, int left); // like choose(), but prunes when this exact state was already expanded with at least `left` steps to go. The caller's own state has to be in the ghost; outside seq_only: right after quiesce()
void die();                                         // the calling process is killed here (never returns)
void settle();                                      // scenarios with calm=true: start of the explored part, reached once every other thread has blocked; what runs before is scheduled deterministically
void quiesce(int rounds = 0);                       // runs all other threads deterministically until every one is blocked (any scenario, any number of times); waiting loops get that many long rounds without news as well
void kill_proc(int p);
void exit_process();                                // orderly exit(): atexit handlers, then process gone (never returns)
void exit_thread();                                 // calling thread ends here
int64_t now();                                      // virtual monotonic ns
static inline int pid_of(int p){ return 1000 + (p << 19); } // process ids agree in their low 19 bits; a thread id is the process id plus its number
static inline int proc_of(int pid){ return pid >= 1000 && !((pid - 1000) & 0x7ffff) && (pid - 1000) >> 19 < 8 ? (pid - 1000) >> 19 : -1; }
void add_deadline(int64_t abs_ns);                  // an instant worth stopping the clock at
void gate(const std::function<bool()>& cond);       // block until the (ghost) condition holds
int  self_proc();
int  self_thread();
bool proc_alive(int p);
int  nthreads(int p);                               // threads of process p that have not ended, the library's own included
bool thread_done(int t);
int  vopen(const char* path, bool create = true);   // virtual file
void vclose(int fd);
int  vdup2(int fd, int newfd);
bool vexists(const char* path);
void vmkfile(const char* path); void vmkfile_like(const char* path, const char* other, int64_t ddev, int64_t dino);   // _like: device and inode number are those of the other file plus a difference
long vsize(const char* path);                       // -1: no such file
int  vmode(const char* path); int vumask(); void vspawn(); void vsetuid(int uid); int vfiles(); int vmsgs(const char* path, int sev);   // number of messages (0 error 1 warning 2 information 3 other) in a file, or on the calling process's standard error; count_msgs
struct Res { int fds, maps, threads, watches, handlers, files, umask, unjoined; long heap; };   // what process p has open, mapped, running, registered and allocated (heap: in units of 8 bytes); files: of the whole system
Res vres(int p);
void vfault(int k, bool part = false); int vfaulted(int p);   // the k-th system call of the calling process from now on that can be refused is refused (0: none); part: is interrupted (EINTR) or transfers only half; number of such calls so far
void vrefuse(const char* what);                     // every such call ("open", "mmap", ...) of the calling process is refused from now on; a string literal

void vsetenv(const char* k, const char* v);         // environment of the calling process (nullptr: unset)
void vmkdir(const char* path); void vunlink(const char* path);
int  fork_proc(const std::function<void()>& body);  // returns child proc index, or -1
void spawn(const std::function<void()>& body);      // new app thread in the calling process
void in_proc(int p, const std::function<void()>& f);// setup phase only: run f sequentially as proc p's main thread
void set_now(int64_t ns);
void progress();
extern unsigned char ghost_mem[1024];
template<class T> T& ghost(){ static_assert(sizeof(T) <= sizeof(ghost_mem), "ghost"); return *reinterpret_cast<T*>(ghost_mem); }

void sim_enter(); void sim_leave();
void op_begin(const char* fmt, ...) __attribute__((format(printf,1,2)));
void op_end(long r);
void* lib_sym(const char* name);
bool tracing();

struct SimScope { SimScope(){ sim_enter(); } ~SimScope(){ sim_leave(); } };

template<class R, class... A, class... B>
long call(R (*f)(A...), const char* name, B... b)
{
	op_begin("%s", name);
	sim_enter();
	long r = (long)f(b...);
	sim_leave();
	op_end(r);
	return r;
}

// ---- a sequential sub-explorer used by enumeration scenarios
struct Stats { long execs=0, points=0, steps=0, states=0, pruned=0; long rounds=0; bool capped=false; int bound_done=-1; double sec=0; std::map<uint64_t,long> outcomes; long maxdepth=0; bool validated=false; long replays=0; std::map<std::string,long> known; std::vector<int> sample; uint64_t sample_out=0; long sample_conf_round=-1; Bounds sample_b; };
extern bool (*is_known)(const std::string&);

struct Result { bool ok = true; std::string msg; std::string trace; std::vector<int> choices; Stats st; Bounds used; uint64_t outcome=0; };
Result explore(const Scenario& s, const Bounds& b);
Result replay(const Scenario& s, const Bounds& b, const std::vector<int>& choices, const std::string& conf);
std::string dump_conf();
void init_engine(const char* libpath);
}
