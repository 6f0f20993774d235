// Conformance of the virtual kernel (engine/venv.cc) with the real one: every history of system calls by up to 4 processes up to a depth is
// executed on both, step by step, and the results are compared.  Not judged as a property of the library; the result goes into the evidence.
#include "common.h"
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
extern int seq_left;
extern "C" {
int mcv_open(const char*, int, ...); int mcv_close(int); int mcv_fcntl(int, int, ...); int mcv_ftruncate(int, off_t); int mcv_stat(const char*, struct stat*); int mcv_fstat(int, struct stat*);
ssize_t mcv_read(int, void*, size_t); ssize_t mcv_pread(int, void*, size_t, off_t); ssize_t mcv_pwrite(int, const void*, size_t, off_t); void* mcv_mmap(void*, size_t, int, int, int, off_t); int mcv_munmap(void*, size_t);
int mcv_unlink(const char*); int mcv_mkdir(const char*, mode_t); mode_t mcv_umask(mode_t); int mcv_kill(pid_t, int); int mcv_inotify_init1(int); int mcv_inotify_add_watch(int, const char*, uint32_t); int mcv_inotify_rm_watch(int, int);
int mcv_epoll_create1(int); int mcv_epoll_ctl(int, int, int, struct epoll_event*); int mcv_epoll_pwait(int, struct epoll_event*, int, int, const sigset_t*);
}
namespace {
enum Op { OPEN, CLOSE, DUP2, LOCK, MMAP, UNMAP, WATCH, EVENTS, RMWATCH, STATFD, FSTAT, STATPATH, TRUNC, UNLINK, MKDIR, UMASK, SAME, PEEK, POKE, PROCFD, PROCDIR, PROCSTAT, KILL0, SPAWN, SETUID, THREAD, THREADEND, TASKSTAT, FORK, DIE, START, PING };
struct Cmd { int op, a, b, c, d; };
struct Rep { long r; int err; };
static const char* const NAMES[] = {"A", "B", "d", "d/C", "e/C", "A/x", "d/", "N", "N/"};
enum { BASE = 200, CTL = 199, NA = 5, NG = 6 };   // NG generations of processes: the end of the ones of a finished history is not waited for
static const int OFL[] = {O_RDWR, O_RDONLY, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_TRUNC, O_WRONLY | O_CREAT, O_RDONLY | O_CLOEXEC};
// ---- the operations, in terms of a table of system calls
struct Maps { char* a[4]; };
struct Sys {
	int (*open)(const char*, int, ...); int (*close)(int); int (*fcntl)(int, int, ...); int (*ftruncate)(int, off_t); int (*stat)(const char*, struct stat*); int (*fstat)(int, struct stat*);
	ssize_t (*read)(int, void*, size_t); ssize_t (*pread)(int, void*, size_t, off_t); ssize_t (*pwrite)(int, const void*, size_t, off_t); void* (*mmap)(void*, size_t, int, int, int, off_t); int (*munmap)(void*, size_t);
	int (*unlink)(const char*); int (*mkdir)(const char*, mode_t); mode_t (*umask)(mode_t); int (*kill)(pid_t, int); int (*dup2)(int, int);
	int (*ii)(int); int (*iw)(int, const char*, uint32_t); int (*ir)(int, int); int (*ec)(int); int (*ectl)(int, int, int, struct epoll_event*); int (*ew)(int, struct epoll_event*, int, int, const sigset_t*);
	pid_t (*pid_of)(int); pid_t (*tid_of)(int, int);
};
static Rep run(const Sys& S, Maps& M, const Cmd& c)
{
	errno = 0; long r = -2; struct stat st, s2; char path[64];
	switch(c.op){
	case OPEN: r = S.open(NAMES[c.a], OFL[c.b], 0666); break;
	case CLOSE: r = S.close(c.a); break;
	case DUP2: r = S.dup2(c.a, c.b); break;
	case LOCK: { struct flock f; memset(&f, 0, sizeof f); f.l_type = (short)(c.b == 0 ? F_UNLCK : c.b == 1 ? F_RDLCK : F_WRLCK); f.l_whence = SEEK_SET; f.l_start = c.c; f.l_len = c.d; r = S.fcntl(c.a, F_SETLK, &f); break; }
	case MMAP: { if(M.a[c.b]) break; void* p = S.mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, c.a, 0); if(p == MAP_FAILED) r = -1; else { r = 0; M.a[c.b] = (char*)p; } break; }
	case UNMAP: if(M.a[c.b]){ r = S.munmap(M.a[c.b], 4096); M.a[c.b] = nullptr; } break;
	case WATCH: { int e = S.ec(EPOLL_CLOEXEC), i = S.ii(IN_NONBLOCK | IN_CLOEXEC); for(int n = 0; i < 0 && errno == EMFILE && n < 300; n++){ usleep(10000); i = S.ii(IN_NONBLOCK | IN_CLOEXEC); } if(e < 0 || i < 0){ r = -3; break; } long w = S.iw(i, NAMES[c.a], IN_CLOSE); struct epoll_event ev; memset(&ev, 0, sizeof ev); ev.events = EPOLLIN | EPOLLET; ev.data.fd = i; r = w < 0 ? w : w * 10000 + e * 100 + i + 1000000 * S.ectl(e, EPOLL_CTL_ADD, i, &ev); break; }
	case EVENTS: { struct epoll_event ev[4]; int n = S.ew(c.a, ev, 4, 0, nullptr); if(n < 0){ r = -1; break; } r = n * 16; if(c.b == 1) break; alignas(8) char b[4096]; for(;;){ ssize_t k = S.read(c.a + 1, b, sizeof b); if(k <= 0) break; for(ssize_t o = 0; o < k; ){ struct inotify_event* e = (struct inotify_event*)(b + o); r |= (e->mask & IN_CLOSE_WRITE ? 1 : 0) | (e->mask & IN_CLOSE_NOWRITE ? 2 : 0) | (e->mask & IN_IGNORED ? 0 : 4) | e->wd << 8; o += (ssize_t)sizeof *e + e->len; } } errno = 0; break; }
	case RMWATCH: r = S.ir(c.a + 1, 1); break;
	case FSTAT: r = S.fstat(c.a, &st); if(!r) r = S_ISREG(st.st_mode) ? 1000 + st.st_size : S_ISDIR(st.st_mode) ? 1 : 2; break;
	case STATPATH: r = S.stat(NAMES[c.a], &st); if(!r) r = (S_ISREG(st.st_mode) ? 1000 + st.st_size : S_ISDIR(st.st_mode) ? 1 : 2) * 010000 + (st.st_mode & 07777); break;
	case SAME: if(S.fstat(c.a, &st) || S.stat(NAMES[c.b], &s2)) r = -1; else r = st.st_dev == s2.st_dev && st.st_ino == s2.st_ino; errno = 0; break;
	case TRUNC: r = S.ftruncate(c.a, c.b); break;
	case UNLINK: r = S.unlink(NAMES[c.a]); break;
	case MKDIR: r = S.mkdir(NAMES[c.a], (mode_t)c.b); break;
	case UMASK: r = S.umask((mode_t)c.a); break;
	case PEEK: { char b[8] = {0}; r = S.pread(c.a, b, 1, c.b); if(r == 1) r = 100 + b[0]; break; }
	case POKE: { char b = (char)c.c; r = S.pwrite(c.a, &b, 1, c.b); break; }
	case PROCFD: if(c.d) snprintf(path, sizeof path, "/proc/%d/task/%d/fd/%d", S.pid_of(c.a), S.tid_of(c.a, c.d - 1), c.b); else snprintf(path, sizeof path, "/proc/%d/fd/%d", S.pid_of(c.a), c.b); r = S.stat(path, &st); if(!r && c.c >= 0 && !S.stat(NAMES[c.c], &s2)) r = st.st_dev == s2.st_dev && st.st_ino == s2.st_ino ? 2 : 1; else if(!r) r = 5; break;
	case PROCDIR: snprintf(path, sizeof path, "/proc/%d/task/%d", S.pid_of(c.a), S.tid_of(c.a, c.b)); r = S.stat(path, &st); if(!r) r = S_ISDIR(st.st_mode); break;
	case PROCSTAT: { snprintf(path, sizeof path, "/proc/%d/task/%d/stat", S.pid_of(c.a), S.tid_of(c.a, c.b)); int f = S.open(path, O_RDONLY); if(f < 0){ r = -1; break; } char b[512]; ssize_t k = S.read(f, b, sizeof b - 1); if(k <= 0) r = -4; else { b[k] = 0; char* q = strrchr(b, ')'); r = q ? (q[2] == 'Z' ? 'Z' : 'S') : -5; } S.close(f); errno = 0; break; }
	case KILL0: r = S.kill(S.pid_of(c.a), 0); break;
	}
	Rep x{r, r == -1 ? errno : 0}; return x;
}
// ---- real side
static pid_t rpid[8]; static pid_t rtid[8][4]; static Maps rmaps;
static const Sys REAL = {::open, ::close, ::fcntl, ::ftruncate, [](const char* p, struct stat* s){ return ::stat(p, s); }, [](int f, struct stat* s){ return ::fstat(f, s); }, ::read, ::pread, ::pwrite, ::mmap, ::munmap, ::unlink, ::mkdir, ::umask, ::kill, [](int a, int b){ return ::dup2(a, b); },
	::inotify_init1, ::inotify_add_watch, ::inotify_rm_watch, ::epoll_create1, ::epoll_ctl, ::epoll_pwait, [](int i){ return rpid[i]; }, [](int i, int t){ return rtid[i][t]; }};
static int g_end[2] = {-1, -1}; static pthread_t g_extra; static int g_me, g_gen; static char g_self[4096];
static void rsend(int fd, long r, int e){ Rep x{r, e}; if(::send(fd, &x, sizeof x, 0) != sizeof x) _exit(0); }
static void* idle(void* p){ *(volatile pid_t*)p = (pid_t)syscall(SYS_gettid); char b; if(::read(g_end[0] + 0, &b, 1) < 0) return nullptr; return nullptr; }
static volatile pid_t g_extratid;
static void serve();
static void* serve_thr(void*){ serve(); return nullptr; }
static void serve()
{
	for(;;){
		struct { Cmd c; pid_t pid[8]; pid_t tid[8][4]; } m; ssize_t k = ::recv(BASE + g_gen * NA + g_me, &m, sizeof m, 0); if(k != (ssize_t)sizeof m) _exit(0);
		memcpy(rpid, m.pid, sizeof rpid); memcpy(rtid, m.tid, sizeof rtid); const Cmd& c = m.c;
		if(c.op == DIE) kill(getpid(), SIGKILL);
		if(c.op == FORK){ int o = g_gen * NA + g_me; pid_t p = fork(); if(!p){ g_me = c.a; rsend(BASE + g_gen * NA + g_me, getpid(), 0); continue; } if(p < 0) rsend(BASE + o, -3, 0); else rsend(BASE + o, p, 0); continue; }
		if(c.op == SPAWN){ pid_t p = vfork(); if(!p){ char h[16]; snprintf(h, sizeof h, "%d", g_gen * NA + NA - 1); execl(g_self, g_self, "khold", h, nullptr); _exit(1); } rsend(BASE + g_gen * NA + g_me, p > 0 ? p : -3, 0); continue; }
		if(c.op == SETUID){ int r = setresgid((gid_t)c.a, (gid_t)c.a, (gid_t)c.a) | setresuid((uid_t)c.a, (uid_t)c.a, (uid_t)c.a); prctl(PR_SET_DUMPABLE, 1); rsend(BASE + g_gen * NA + g_me, r, 0); continue; }
		if(c.op == THREAD){ int p[2]; if(pipe2(p, O_CLOEXEC)){ rsend(BASE + g_gen * NA + g_me, -3, 0); continue; } g_end[0] = fcntl(p[0], F_DUPFD_CLOEXEC, 300); g_end[1] = fcntl(p[1], F_DUPFD_CLOEXEC, 300); close(p[0]); close(p[1]); g_extratid = 0; if(pthread_create(&g_extra, nullptr, idle, (void*)&g_extratid)){ rsend(BASE + g_gen * NA + g_me, -3, 0); continue; } while(!g_extratid) sched_yield(); rsend(BASE + g_gen * NA + g_me, g_extratid, 0); continue; }
		if(c.op == THREADEND){
			if(c.a == 1){ if(::write(g_end[1], "x", 1) != 1) _exit(0); close(g_end[1]); pthread_join(g_extra, nullptr); char b[64]; struct stat st; snprintf(b, sizeof b, "/proc/self/task/%d", g_extratid); while(!stat(b, &st)) sched_yield(); rsend(BASE + g_gen * NA + g_me, 0, 0); continue; }
			pthread_t t; if(pthread_create(&t, nullptr, serve_thr, nullptr)){ rsend(BASE + g_gen * NA + g_me, -3, 0); continue; } pthread_exit(nullptr);   // the leader ends, another thread goes on
		}
		if(c.op == PING){ long r = 0; if(c.a == 1){ char b[64], x[256]; snprintf(b, sizeof b, "/proc/self/task/%d/stat", getpid()); for(int i = 0; i < 100000; i++){ int f = ::open(b, O_RDONLY | O_CLOEXEC); ssize_t n = f < 0 ? 0 : ::read(f, x, sizeof x - 1); if(f >= 0) ::close(f); x[n > 0 ? n : 0] = 0; char* q = strrchr(x, ')'); if(q && q[2] == 'Z') break; sched_yield(); } } rsend(BASE + g_gen * NA + g_me, r, 0); continue; }
		Rep r = run(REAL, rmaps, c); rsend(BASE + g_gen * NA + g_me, r.r, r.err);
	}
}
} // namespace
int kworker_main(const char* dir, int zombies)
{
	ssize_t n = readlink("/proc/self/exe", g_self, sizeof g_self - 1); if(n < 0) return 1; g_self[n] = 0;
	if(chdir(dir)) return 1; umask(022); prctl(PR_SET_CHILD_SUBREAPER, 1); if(!zombies) signal(SIGCHLD, SIG_IGN); prctl(PR_SET_PDEATHSIG, SIGKILL); int z = ::open("/dev/null", O_RDWR); for(int i = 0; i < 3; i++) dup2(z, i); if(z > 2) close(z);
	for(;;){
		Cmd c; ssize_t k = ::recv(CTL, &c, sizeof c, 0); if(k != (ssize_t)sizeof c) return 0;
		if(c.op == START){ pid_t p = fork(); if(!p){ prctl(PR_SET_PDEATHSIG, 0); close(CTL); g_me = c.a; g_gen = c.b; char d[16]; snprintf(d, sizeof d, "g%d", g_gen); if(chdir(d)) _exit(1); serve(); } rsend(CTL, p, 0); }
		else if(c.op == DIE){ int st; while(waitpid(-1, &st, WNOHANG) > 0){} rsend(CTL, 0, 0); }
	}
}
int khold_main(int ch){ char b; setsid(); rsend(BASE + ch, 0, 0); for(int f = BASE; f < BASE + NG * NA; f++) close(f); if(::read(198, &b, 1) < 0) return 0; return 0; }   // keeps what it inherited until the controller closes its end
bool k_skipped = false; std::string k_skip; long k_steps = 0;
namespace {
// ---- controller: one set of real processes per history
struct Real { int ctl = -1, ch[NG * NA], zy = -1, hold = -1, gen = 0; pid_t pids[NG][16]; int np[NG]; bool on[8]; std::string dir; bool ready = false; };
static Real R;
static void k_skip_it(const char* w){ k_skipped = true; if(k_skip.empty()) k_skip = w; }
static int chan(int i){ return R.ch[R.gen * NA + i]; }
static bool rx(int fd, Rep& r){ struct pollfd p = {fd, POLLIN, 0}; if(poll(&p, 1, 20000) != 1 || ::recv(fd, &r, sizeof r, 0) != sizeof r){ k_skip_it("no answer from a real process"); r = Rep{-3, 0}; return false; } return true; }
static void rboot(bool zombies)
{
	if(R.ready) return;
	char d[] = "/tmp/flmc-kernel.XXXXXX"; const char* dd = mkdtemp(d); if(!dd){ k_skip_it("no scratch directory"); return; } R.dir = dd; chmod(dd, 0777); for(int i = 0; i < NG; i++){ std::string q = R.dir + "/g" + std::to_string(i); ::mkdir(q.c_str(), 0777); chmod(q.c_str(), 0777); R.np[i] = 0; }
	int z[NG * NA], c[2], h[2]; if(socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, c) || pipe2(h, O_CLOEXEC)){ k_skip_it("sockets"); return; }
	for(int i = 0; i < NG * NA; i++){ int s[2]; if(socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, s)){ k_skip_it("sockets"); return; } R.ch[i] = s[0]; z[i] = s[1]; }
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
	pid_t p = fork(); if(p < 0){ k_skip_it("fork"); return; }
	if(!p){ for(int i = 0; i < NG * NA; i++) z[i] = fcntl(z[i], F_DUPFD, 600); int cc = fcntl(c[1], F_DUPFD, 600), hh = fcntl(h[0], F_DUPFD, 600); for(int i = 0; i < NG * NA; i++) dup2(z[i], BASE + i); dup2(cc, CTL); dup2(hh, 198); for(int i = 0; i < NG * NA; i++) close(z[i]); close(cc); close(hh); for(int f = 3; f < 198; f++) close(f); for(int f = BASE + NG * NA; f < 600; f++) close(f); execl(self, self, "kworker", dd, zombies ? "1" : "0", nullptr); _exit(1); }
	R.zy = p; R.ctl = c[0]; R.hold = h[1]; close(c[1]); close(h[0]); for(int i = 0; i < NG * NA; i++) close(z[i]); for(int i = 0; i < 8; i++) R.on[i] = false; R.ready = true;
}
static int pidfd(pid_t p){ return (int)syscall(SYS_pidfd_open, p, 0); }
static void gone(pid_t p, bool zombies){ int f = pidfd(p); if(f >= 0){ struct pollfd q = {f, POLLIN, 0}; poll(&q, 1, 20000); close(f); } if(!zombies) for(int i = 0; i < 2000000 && !kill(p, 0); i++) sched_yield(); }
static void started(pid_t p){ if(R.np[R.gen] < 16) R.pids[R.gen][R.np[R.gen]++] = p; }
static Rep rcall(int i, const Cmd& c){ struct { Cmd c; pid_t pid[8]; pid_t tid[8][4]; } m; m.c = c; memcpy(m.pid, rpid, sizeof rpid); memcpy(m.tid, rtid, sizeof rtid); Rep r{-3, 0}; if(::send(chan(i), &m, sizeof m, MSG_NOSIGNAL) != (ssize_t)sizeof m){ k_skip_it("send"); return r; } if(c.op == DIE) return r; rx(chan(i), r); if(r.r == -3) k_skip_it("a real call had no resources"); return r; }
static void rkill(int i, bool zombies){ if(!R.on[i]) return; kill(rpid[i], SIGKILL); gone(rpid[i], zombies); R.on[i] = false; if(!zombies) for(int k = 0; k < R.np[R.gen]; k++) if(R.pids[R.gen][k] == rpid[i]) R.pids[R.gen][k--] = R.pids[R.gen][--R.np[R.gen]]; }
static void wipe(int g){ std::string d = R.dir + "/g" + std::to_string(g) + "/"; for(const char* n : {"d/C", "e/C", "d", "e", "A", "B", "N"}){ std::string p = d + n; if(::unlink(p.c_str())) ::rmdir(p.c_str()); } }
static void rreset(int np, bool zombies)
{
	rboot(zombies); if(k_skipped) return; Rep r; Cmd c{DIE, 0, 0, 0, 0};
	for(int i = 0; i < R.np[R.gen]; i++) kill(R.pids[R.gen][i], SIGKILL);
	R.gen = (R.gen + 1) % NG; for(int i = 0; i < R.np[R.gen]; i++) gone(R.pids[R.gen][i], zombies); R.np[R.gen] = 0;
	for(int i = 0; i < NA; i++){ struct pollfd p; for(; p = {chan(i), POLLIN, 0}, poll(&p, 1, 0) == 1 && ::recv(chan(i), &r, sizeof r, MSG_DONTWAIT) > 0; ){} }
	::send(R.ctl, &c, sizeof c, MSG_NOSIGNAL); rx(R.ctl, r); wipe(R.gen);
	for(int i = 0; i < 8; i++){ R.on[i] = false; rpid[i] = 0; memset(rtid[i], 0, sizeof rtid[i]); }
	for(int i = 0; i < np; i++){ Cmd s{START, i, R.gen, 0, 0}; ::send(R.ctl, &s, sizeof s, MSG_NOSIGNAL); if(!rx(R.ctl, r) || r.r <= 0){ k_skip_it("fork"); return; } rpid[i] = (pid_t)r.r; rtid[i][0] = rpid[i]; R.on[i] = true; started(rpid[i]); }
}
// ---- virtual side
struct KG { SeqG seq; Cmd c; Rep r; int8_t np; int8_t on[8], thr[8], uid[8]; int tid[8][4]; Maps m[5]; };
static KG& kg(){ return ghost<KG>(); }
static const Sys VIRT = {mcv_open, mcv_close, mcv_fcntl, mcv_ftruncate, mcv_stat, mcv_fstat, mcv_read, mcv_pread, mcv_pwrite, mcv_mmap, mcv_munmap, mcv_unlink, mcv_mkdir, mcv_umask, mcv_kill, [](int a, int b){ int r = vdup2(a, b); if(r < 0) errno = EBADF; return r; },
	mcv_inotify_init1, mcv_inotify_add_watch, mcv_inotify_rm_watch, mcv_epoll_create1, mcv_epoll_ctl, mcv_epoll_pwait, [](int i){ return (pid_t)pid_of(i); }, [](int i, int t){ return (pid_t)kg().tid[i][t]; }};
extern "C" pid_t mcv_gettid(void);
static void agent(int me);
// agents are processes 0..; the controller is an extra process (the last one set up): it chooses the next call, hands it to the agent, does the same on the real side and compares
static void agent(int me)
{
	for(;;){
		KG& g = kg(); gate([me]{ KG& q = kg(); return q.seq.done || q.seq.turn == me + 1; }); if(g.seq.done) return;
		Cmd c = g.c;
		if(c.op == FORK){ int k = fork_proc([]{ int c = self_proc(); kg().tid[c][0] = pid_of(c); agent(c); }); kg().m[k] = kg().m[me]; kg().tid[k][0] = pid_of(k); kg().r = Rep{k, 0}; }
		else if(c.op == SPAWN){ vspawn(); kg().r = Rep{0, 0}; }
		else if(c.op == SETUID){ vsetuid(c.a); kg().uid[me] = 1; kg().r = Rep{0, 0}; }
		else if(c.op == THREAD){ spawn([me]{ kg().tid[me][1] = mcv_gettid(); kg().seq.turn = 0; kg().thr[me] = 1; gate([me]{ return kg().seq.done || kg().thr[me] == 2; }); if(kg().seq.done) return; kg().thr[me] = 3; exit_thread(); }); kg().r = Rep{0, 0}; gate([me]{ return kg().thr[me] == 1; }); continue; }
		else if(c.op == THREADEND){
			kg().r = Rep{0, 0};
			if(c.a == 1){ kg().thr[me] = 2; gate([me]{ return kg().thr[me] == 3; }); }
			else { spawn([me]{ kg().seq.turn = 0; agent(me); }); exit_thread(); }
		}
		else kg().r = run(VIRT, kg().m[me], c);
		kg().seq.turn = 0;
	}
}
struct Fam { const char* name; int agents, depth, tdepth; std::vector<std::pair<int,Cmd>> ops; std::vector<std::pair<int,Cmd>> pre; bool zombies = false; unsigned maxfork = 1; int parts = 1; const char* with = ""; };
static const char* opname(int o){ static const char* n[] = {"open", "close", "dup2", "lock", "mmap", "unmap", "watch", "events", "rmwatch", "statfd", "fstat", "stat", "ftruncate", "unlink", "mkdir", "umask", "same", "peek", "poke", "procfd", "procdir", "procstat", "kill0", "spawn", "setuid", "thread", "threadend", "taskstat", "fork", "die", "start", "ping"}; return n[o]; }
static void step(const Fam& f, int who, const Cmd& c)
{
	KG& g = kg();
	if(c.op == DIE){ kill_proc(who); g.on[who] = 0; }
	else { g.c = c; g.r = Rep{-9, 0}; g.seq.turn = (int8_t)(who + 1); gate([]{ return kg().seq.turn == 0; }); }
	Rep v = kg().r, r{0, 0}; if(c.op == FORK) kg().on[v.r] = 1;
	note("process %d: %s(%d,%d,%d,%d) -> %ld %d", who, opname(c.op), c.a, c.b, c.c, c.d, v.r, v.err);
	struct At { const Cmd& c; int w; ~At(){ static bool once; if(k_skipped && !once){ once = true; k_skip += " at process " + std::to_string(w) + " " + opname(c.op) + " " + std::to_string(c.a); } } } at{c, who};
	if(k_skipped) return;
	if(c.op == DIE) rkill(who, f.zombies);
	else if(c.op == FORK){ Cmd k = c; k.a = (int)v.r; r = rcall(who, k); Rep q; if(k_skipped || !rx(chan((int)v.r), q)) return; started((pid_t)r.r); rpid[v.r] = (pid_t)r.r; rtid[v.r][0] = (pid_t)r.r; R.on[v.r] = true; }
	else if(c.op == SPAWN){ r = rcall(who, c); if(r.r > 0){ started((pid_t)r.r); Rep q; rx(chan(NA - 1), q); } }
	else if(c.op == THREADEND && c.a == 0){ struct { Cmd c; pid_t pid[8]; pid_t tid[8][4]; } m; m.c = c; ::send(chan(who), &m, sizeof m, MSG_NOSIGNAL); Cmd p{PING, 1, 0, 0, 0}; rcall(who, p); }
	else if(c.op == THREAD){ r = rcall(who, c); rtid[who][1] = (pid_t)r.r; }
	else { r = rcall(who, c); if(!k_skipped && (r.r != v.r || r.err != v.err)) mc::fail("virtual kernel differs: process %d %s(%d,%d,%d,%d): virtual %ld (%s), real %ld (%s)", who, opname(c.op), c.a, c.b, c.c, c.d, v.r, v.err ? strerrorname_np(v.err) : "", r.r, r.err ? strerrorname_np(r.err) : ""); }
	k_steps++; g.r = Rep{0, 0}; memset(&g.c, 0, sizeof g.c);
}
static void family(const Fam& F)
{
	for(int th = 0; th < 2; th++) for(int part = 0; part < F.parts; part++){
		Fam f = F; Scenario& s = mk((std::string("KERNEL-") + f.with).c_str(), (std::string(f.name) + (th ? "-deep" : "") + (f.parts > 1 ? "-" + std::to_string(part) : "")).c_str(), f.agents + 1, th ? -1 : 0, 0); s.seq_only = true; s.zombies = f.zombies; s.quick.max_sec = 12; s.thorough.max_sec = th ? 150 : 1; int depth = th ? f.tdepth : f.depth;
		s.setup = [f]{ in_proc(0, [f]{ KG& g = kg(); memset(&g, 0, sizeof g); for(int i = 0; i < f.agents; i++){ g.on[i] = 1; g.tid[i][0] = pid_of(i); } }); };
		for(int i = 0; i < f.agents; i++) s.threads.push_back({i, [i]{ agent(i); }});
		s.threads.push_back({f.agents, [f, depth, part]{
			rreset(f.agents, f.zombies); for(auto& c : f.pre) step(f, c.first, c.second);
			seq_left = depth; unsigned forks = 0; int first = 0;
			while(seq_left > 0){
				std::vector<int> en; for(size_t i = 0; i < f.ops.size(); i++){ int w = f.ops[i].first; if(w < 0 ? forks < f.maxfork || !kg().on[f.agents + 1] : true){ int a = w == 9 ? f.agents + 1 : w; if(kg().on[a] && !(f.ops[i].second.op == FORK && forks >= f.maxfork) && !(f.ops[i].second.op == THREADEND && f.ops[i].second.a == 1 && kg().thr[a] != 1) && !(f.ops[i].second.op == THREAD && kg().thr[a]) && !(f.ops[i].second.op == SETUID && kg().uid[a]) && !(seq_left == depth - 1 && ((int)i + first) % f.parts != part)) en.push_back((int)i); } }
				if(en.empty()) break;
				int n = (int)en.size(), k;
				if(n <= 24) k = choose_state(n, "call", seq_left);
				else { int hi = choose_state((n + 15) / 16, "call group", seq_left * 2), w = hi * 16; k = w + choose(n - w < 16 ? n - w : 16, "call"); }
				auto& o = f.ops[(size_t)en[(size_t)k]]; step(f, o.first == 9 ? f.agents + 1 : o.first, o.second); if(o.second.op == FORK) forks++; if(seq_left == depth) first = (int)(&o - &f.ops[0]); seq_left--;
			}
			kg().seq.done = 1;
		}});
	}
}
} // namespace
void k_cleanup(){ if(!R.ready) return; for(int g = 0; g < NG; g++) for(int i = 0; i < R.np[g]; i++) kill(R.pids[g][i], SIGKILL); kill(R.zy, SIGKILL); for(int g = 0; g < NG; g++){ wipe(g); ::rmdir((R.dir + "/g" + std::to_string(g)).c_str()); } ::rmdir(R.dir.c_str()); R.ready = false; }
void reg_kernel()
{
	auto lk = [](int fd, int t, int b, int l){ return Cmd{LOCK, fd, t, b, l}; };
	Fam a{"kernel-locks", 2, 3, 5, {}, {{0, {OPEN, 0, 3, 0, 0}}, {1, {OPEN, 0, 0, 0, 0}}, {1, {OPEN, 0, 1, 0, 0}}}, false, 1};
	for(int w : {0, 1, 9}){ for(int t = 0; t < 3; t++){ a.ops.push_back({w, lk(3, t, 0, 1)}); a.ops.push_back({w, lk(3, t, 1, 1)}); if(w != 9) a.ops.push_back({w, lk(3, t, 0, 0)}); } a.ops.push_back({w, {CLOSE, 3, 0, 0, 0}}); a.ops.push_back({w, {CLOSE, 4, 0, 0, 0}}); if(w < 2) a.ops.push_back({w, {OPEN, 0, 0, 0, 0}}); }
	a.ops.push_back({1, lk(4, 2, 0, 1)}); a.ops.push_back({1, lk(4, 1, 0, 1)}); a.ops.push_back({0, {FORK, 0, 0, 0, 0}}); a.ops.push_back({0, {DIE, 0, 0, 0, 0}}); a.ops.push_back({1, {DUP2, 3, 5, 0, 0}}); a.ops.push_back({1, {DUP2, 3, 4, 0, 0}});
	a.parts = 2; a.with = "C13"; family(a);
	Fam b{"kernel-close-events", 2, 3, 5, {}, {{0, {OPEN, 0, 3, 0, 0}}, {0, {TRUNC, 3, 4096, 0, 0}}, {0, {CLOSE, 3, 0, 0, 0}}, {0, {WATCH, 0, 0, 0, 0}}}, false, 1};
	b.ops = {{0, {EVENTS, 3, 0, 0, 0}}, {0, {EVENTS, 3, 1, 0, 0}}, {1, {OPEN, 0, 0, 0, 0}}, {1, {OPEN, 0, 1, 0, 0}}, {1, {CLOSE, 3, 0, 0, 0}}, {1, {CLOSE, 4, 0, 0, 0}}, {1, {DUP2, 3, 4, 0, 0}}, {1, {MMAP, 3, 0, 0, 0}}, {1, {UNMAP, 0, 0, 0, 0}}, {1, {FORK, 0, 0, 0, 0}}, {1, {DIE, 0, 0, 0, 0}}, {1, {SPAWN, 0, 0, 0, 0}},
		{9, {CLOSE, 3, 0, 0, 0}}, {9, {UNMAP, 0, 0, 0, 0}}, {9, {DIE, 0, 0, 0, 0}}, {1, {OPEN, 0, 6, 0, 0}}};
	b.parts = 8; b.with = "C07"; family(b);
	Fam c{"kernel-shared-events", 2, 3, 5, {}, {{0, {OPEN, 0, 3, 0, 0}}, {0, {CLOSE, 3, 0, 0, 0}}, {0, {WATCH, 0, 0, 0, 0}}}, false, 1};
	c.ops = {{0, {EVENTS, 3, 0, 0, 0}}, {0, {EVENTS, 3, 1, 0, 0}}, {9, {EVENTS, 3, 0, 0, 0}}, {9, {EVENTS, 3, 1, 0, 0}}, {0, {FORK, 0, 0, 0, 0}}, {0, {DIE, 0, 0, 0, 0}}, {9, {DIE, 0, 0, 0, 0}}, {9, {RMWATCH, 3, 0, 0, 0}}, {9, {CLOSE, 4, 0, 0, 0}}, {9, {CLOSE, 3, 0, 0, 0}}, {0, {CLOSE, 4, 0, 0, 0}}, {0, {CLOSE, 3, 0, 0, 0}}, {9, {WATCH, 0, 0, 0, 0}},
		{1, {OPEN, 0, 0, 0, 0}}, {1, {OPEN, 0, 1, 0, 0}}, {1, {CLOSE, 3, 0, 0, 0}}, {9, {OPEN, 0, 0, 0, 0}}, {9, {CLOSE, 5, 0, 0, 0}}};
	c.parts = 12; c.with = "C14"; family(c);
	Fam d{"kernel-files", 2, 3, 4, {}, {}, false, 0};
	for(int i : {0, 2, 3, 4, 1}) d.ops.push_back({0, {OPEN, 0, i, 0, 0}});
	for(int w : {0, 1}){ d.ops.push_back({w, {MKDIR, 2, 0755, 0, 0}}); d.ops.push_back({w, {OPEN, 3, 2, 0, 0}}); d.ops.push_back({w, {STATPATH, 0, 0, 0, 0}}); }
	for(int n : {3, 4, 5, 6}) d.ops.push_back({1, {OPEN, n, 3, 0, 0}});
	for(auto q : std::vector<Cmd>{{OPEN, 2, 0, 0, 0}, {OPEN, 2, 1, 0, 0}, {UNLINK, 0, 0, 0, 0}, {OPEN, 0, 2, 0, 0}, {FSTAT, 3, 0, 0, 0}, {SAME, 3, 0, 0, 0}, {STATPATH, 3, 0, 0, 0}, {UMASK, 027, 0, 0, 0}, {UMASK, 0, 0, 0, 0}, {MKDIR, 4, 0700, 0, 0}, {STATPATH, 2, 0, 0, 0}}) d.ops.push_back({1, q});
	for(auto q : std::vector<Cmd>{{TRUNC, 3, 4096, 0, 0}, {TRUNC, 3, 10, 0, 0}, {TRUNC, 3, 0, 0, 0}, {POKE, 3, 5, 7, 0}, {PEEK, 3, 5, 0, 0}, {PEEK, 3, 9, 0, 0}, {CLOSE, 3, 0, 0, 0}, {FSTAT, 3, 0, 0, 0}, {SAME, 3, 0, 0, 0}}) d.ops.push_back({0, q});
	d.parts = 2; d.with = "C13"; family(d);
	for(int z = 0; z < 2; z++){
		Fam e{z ? "kernel-proc-zombies" : "kernel-proc", 2, 3, 5, {}, {{0, {UMASK, 0, 0, 0, 0}}, {0, {OPEN, 0, 3, 0, 0}}, {0, {OPEN, 1, 3, 0, 0}}, {0, {CLOSE, 4, 0, 0, 0}}}, z == 1, 1};
		for(int p : {0, 2, 3}) e.ops.push_back({1, {PROCDIR, p == 2 ? 3 : p == 3 ? 0 : p, p == 3 ? 1 : 0, 0, 0}});
		for(auto q : std::vector<Cmd>{{PROCFD, 0, 3, 0, 0}, {PROCFD, 0, 3, 1, 0}, {PROCFD, 0, 4, -1, 0}, {PROCFD, 3, 3, 0, 0}, {PROCFD, 0, 3, 0, 1}, {PROCFD, 0, 3, 0, 2}, {PROCSTAT, 0, 0, 0, 0}, {PROCSTAT, 0, 1, 0, 0}, {PROCSTAT, 3, 0, 0, 0}, {KILL0, 0, 0, 0, 0}, {SETUID, 1001, 0, 0, 0}}) e.ops.push_back({1, q});
		for(auto q : std::vector<Cmd>{{CLOSE, 3, 0, 0, 0}, {OPEN, 1, 0, 0, 0}, {DUP2, 3, 4, 0, 0}, {SETUID, 1001, 0, 0, 0}, {SETUID, 1002, 0, 0, 0}, {FORK, 0, 0, 0, 0}, {DIE, 0, 0, 0, 0}, {THREAD, 0, 0, 0, 0}, {THREADEND, 1, 0, 0, 0}, {THREADEND, 0, 0, 0, 0}}) e.ops.push_back({0, q});
		e.ops.push_back({9, {DIE, 0, 0, 0, 0}}); e.ops.push_back({9, {PROCSTAT, 0, 0, 0, 0}});
		e.parts = 4; e.with = "C07"; family(e);
	}
}
