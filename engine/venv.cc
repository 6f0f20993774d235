// Virtual kernel: files, fcntl locks, /proc, time, threads, inotify/epoll.
#include "engine.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <limits.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <pthread.h>
#include <unistd.h>
#include <new>

namespace mc {
static Proc& P(){ return W.proc[T[g.cur].proc]; }
static int cp(){ return T[g.cur].proc; }
static void norm(const char* p, char* o)
{
	size_t n = 0; char prev = 0; const char* cwd = "/cwd/"; if(p[0] != '/') while(*cwd) o[n++] = *cwd++, prev = '/';
	for(; *p && n < 118; p++){ if(*p == '/' && prev == '/') continue; if(*p == '.' && prev == '/' && (p[1] == '/' || !p[1])){ continue; } o[n++] = *p; prev = *p; }
	while(n > 1 && o[n-1] == '/') n--;
	o[n] = 0;
	while(char* d = strstr(o, "/..")){ if(d[3] && d[3] != '/') break; char* q = d; while(q > o && q[-1] != '/') q--; if(d == o) q = o + 1; memmove(q > o ? q - 1 : o, d + 3, strlen(d + 3) + 1); if(!o[0]) strcpy(o, "/"); }
}
static int lookup(const char* path){ for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].linked && !strcmp(W.ino[i].path, path)) return i; return -1; }
static int new_inode(const char* path, bool dir, mode_t mode)
{
	for(int i = 0; i < NINO; i++) if(!W.ino[i].used){ Inode& n = W.ino[i]; memset(&n, 0, sizeof n); n.used = n.linked = true; n.isdir = dir; n.dev = 7; n.ino = W.nextino++; n.mapidx = -1; n.mode = mode; snprintf(n.path, sizeof n.path, "%s", path); world_changed(); return i; }
	fatal_engine("virtual file table full");
}
static bool parent_ok(const char* path){ char b[128]; snprintf(b, sizeof b, "%s", path); char* s = strrchr(b, '/'); if(!s) return false; if(s == b) return true; *s = 0; int i = lookup(b); return i >= 0 && W.ino[i].isdir; }
static int path_err(const char* path){ char b[128]; snprintf(b, sizeof b, "%s", path); for(char* s = strchr(b + 1, '/'); s; s = strchr(s + 1, '/')){ *s = 0; int i = lookup(b); *s = '/'; if(i < 0) return ENOENT; if(!W.ino[i].isdir) return ENOTDIR; } return ENOENT; }
void vmkdir(const char* p){ char b[128]; norm(p, b); if(lookup(b) < 0) new_inode(b, true, 0755); }
void vmkfile_like(const char* p, const char* o, int64_t dd, int64_t di){ char b[128], c[128]; norm(p, b); norm(o, c); int i = lookup(c), j = lookup(b); if(j < 0){ j = new_inode(b, false, 0644); W.ino[j].dev = W.ino[i].dev + (dev_t)dd; W.ino[j].ino = W.ino[i].ino + (ino_t)di; } }
void vmkfile(const char* p){ char b[128]; norm(p, b); if(lookup(b) < 0) new_inode(b, false, 0644); }
bool vexists(const char* p){ char b[128]; norm(p, b); return lookup(b) >= 0; }
void vunlink(const char* p){ char b[128]; norm(p, b); if(g.phase == P_EXPLORE) env_access(ENV_FS, true); int i = lookup(b); if(i >= 0){ W.ino[i].linked = false; world_changed(); } tr("    removed %s", b); }
long vsize(const char* p){ char b[128]; norm(p, b); int i = lookup(b); return i < 0 ? -1 : (long)W.ino[i].size; }
int vmsgs(const char* p, int sev){ if(!p) return W.errc[T[g.cur].proc][sev]; char b[128]; norm(p, b); int i = lookup(b); return i < 0 ? -1 : W.logc[i][sev]; }
int vmode(const char* p){ char b[128]; norm(p, b); int i = lookup(b); return i < 0 ? -1 : (int)W.ino[i].mode; }
void vsetuid(int u){ W.proc[T[g.cur].proc].uid = u; }  // 0 may look at everybody's descriptors, others only at those of their own user
// a program started by this process (exec in a child of vfork) keeps what is not marked close-on-exec
void vspawn(){ NoSim ns; env_access(ENV_FDT + cp(), false); for(auto& e : P().fds) if(e.kind == FD_FILE && !e.cloexec) W.extofd[e.ofd] = true; world_changed(); tr("    another program is started"); }
int vumask(){ return (int)W.proc[T[g.cur].proc].umask_; }
int vfiles(){ int n = 0; for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].linked && !W.ino[i].isdir) n++; return n; }
void vsetenv(const char* k, const char* v)
{
	int p = T[g.cur].proc, i = 0; while(i < W.nenvov && !(W.envov[i].proc == p && !strcmp(W.envov[i].k, k))) i++;
	if(i >= 10) fatal_engine("too many vsetenv"); if(i == W.nenvov) W.nenvov++;
	W.envov[i].proc = (int8_t)p; snprintf(W.envov[i].k, sizeof W.envov[i].k, "%s", k); snprintf(W.envov[i].v, sizeof W.envov[i].v, "%s", v ? v : "\x01"); tr("    setenv %s=%s", k, v ? v : "(unset)");
}
void venv_reset(){ vmkdir("/tmp"); vmkdir("/var"); vmkdir("/var/lib"); vmkdir("/cwd"); }
static int mapidx_of(int ino)
{
	Inode& n = W.ino[ino]; if(n.mapidx >= 0) return n.mapidx;
	bool u[NMAPINO] = {false}; for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].mapidx >= 0) u[W.ino[i].mapidx] = true;
	for(int k = 0; k < NMAPINO; k++) if(!u[k]){ n.mapidx = k; clear_inode(k); return k; }
	fatal_engine("too many mapped files");
}
static FdEnt* fdp(int fd){ if(fd < 0 || fd >= NFD || P().fds[fd].kind == FD_NONE){ errno = EBADF; return nullptr; } return &P().fds[fd]; }
static int newfd(int kind, int ino){ Proc& p = P(); for(int f = 3; f < NFD; f++) if(p.fds[f].kind == FD_NONE){ memset(&p.fds[f], 0, sizeof(FdEnt)); p.fds[f].kind = (uint8_t)kind; p.fds[f].ino = ino; world_changed(); return f; } errno = EMFILE; return -1; }
bool lock_grantable(int ino, int proc, int type, int b0, int b1)
{
	for(int q = 0; q < MAXP; q++) if(q != proc) for(int b = b0; b <= b1; b++){ int l = W.lk[ino][q][b]; if((type == F_WRLCK && l) || (type == F_RDLCK && l == 2)) return false; }
	return true;
}
static void watch_event(Watch& w, uint32_t m)
{
	bool merged = w.pending && w.last == m; w.pending |= m; w.last = m; if(merged) return;   // an event like the last one in the queue is merged into it and wakes nobody
	for(int e = 1; e < NOFD; e++) if(W.ep[e].target == w.inst) W.ep[e].edge = true;
}
static void notify_close(int ino, bool wr)
{
	for(auto& w : W.watch) if(w.used && w.ino == ino){
		uint32_t m = wr ? IN_CLOSE_WRITE : IN_CLOSE_NOWRITE; if(!(w.mask & m)) continue;
		watch_event(w, m);
	}
}
// open file descriptions: shared by fork and dup2, kept by descriptors and by mappings; the close event comes when the last reference is gone
static bool ofd_used(int o){ for(int p = 0; p < MAXP; p++) if(W.proc[p].used){ for(int f = 0; f < NFD; f++) if(W.proc[p].fds[f].kind != FD_NONE && W.proc[p].fds[f].ofd == o) return true; for(int k = 0; k < NMAPINO * NAREA; k++) if(W.proc[p].area[k] && W.proc[p].areaofd[k] == o) return true; } return W.extofd[o]; }
static uint8_t ofd_new(){ for(int o = 1; o < NOFD; o++) if(!ofd_used(o)) return (uint8_t)o; fatal_engine("open file descriptions"); }
static void ofd_drop(int o, int ino, bool wr){ if(ino >= 0 && !ofd_used(o)) notify_close(ino, wr); }
static void close_fd(int p, int fd)
{
	FdEnt& e = W.proc[p].fds[fd]; int ino = e.ino; int kind = e.kind, ofd = e.ofd; bool wr = e.wr; e.kind = FD_NONE; e.ino = -1; e.wr = false; e.ofd = 0;
	if(kind == FD_FILE && ino >= 0){ for(int b = 0; b < NLKB; b++) W.lk[ino][p][b] = 0; ofd_drop(ofd, ino, wr); }
	if(kind == FD_INOTIFY && !ofd_used(ofd)){ for(auto& w : W.watch) if(w.used && w.inst == ofd) memset(&w, 0, sizeof w); for(auto& e : W.ep) if(e.target == ofd) memset(&e, 0, sizeof e); }
	if(kind == FD_EPOLL && !ofd_used(ofd)) memset(&W.ep[ofd], 0, sizeof W.ep[ofd]);
	world_changed();
}
static void unmap(int p, int k){ Proc& q = W.proc[p]; int o = q.areaofd[k]; q.area[k] = false; q.arealen[k] = 0; q.areaofd[k] = 0; int ino = -1; for(int i = 0; i < NINO; i++) if(W.ino[i].used && W.ino[i].mapidx == k / NAREA) ino = i; ofd_drop(o, ino, true); }
void proc_close_all(int p)
{
	for(int f = 0; f < NFD; f++) if(W.proc[p].fds[f].kind == FD_INOTIFY) close_fd(p, f);
	for(int k = 0; k < NMAPINO * NAREA; k++) if(W.proc[p].area[k]) unmap(p, k);
	for(int f = 0; f < NFD; f++) if(W.proc[p].fds[f].kind != FD_NONE) close_fd(p, f);
}
bool epoll_ready(int p, int efd)
{
	FdEnt& f = W.proc[p].fds[efd]; if(f.kind != FD_EPOLL) return false;
	auto& e = W.ep[f.ofd]; if(!e.target || ((e.mask & EPOLLET) && !e.edge)) return false;
	for(auto& w : W.watch) if(w.used && w.inst == e.target && w.pending) return true;
	return false;
}
static bool flt(const char* what, int err, bool part = false){ Proc& p = P(); if(p.refuse && !part && !strcmp(p.refuse, what)){ p.faulted++; errno = err; env_result(0xfa17); tr("    %s is refused (errno %d)", what, err); return true; } if(p.fault <= 0 || (p.fpart != part && (part || err != EINTR))) return false; world_changed(); if(--p.fault){ return false; } p.faulted++; errno = err; env_result(0xfa17); tr(err ? "    %s is refused (errno %d)" : "    %s is done in part", what, err); return true; }
void vfault(int k, bool part){ NoSim ns; P().fault = k; P().fpart = part; world_changed(); }
void vrefuse(const char* what){ NoSim ns; P().refuse = what; world_changed(); }
int vfaulted(int p){ return W.proc[p].faulted; }
void check_cancel(){ Thr& t = T[g.cur]; if(t.cancel && t.cancelstate == PTHREAD_CANCEL_ENABLE){ t.cancelstate = PTHREAD_CANCEL_DISABLE; throw mc_cancel(); } }
int vopen(const char* path, bool create)
{
	NoSim ns; char b[128]; norm(path, b); env_access(ENV_FS, false); int i = lookup(b);
	if(i < 0){ if(!create) return -1; i = new_inode(b, false, 0644); }
	env_access(ENV_FDT + cp(), true); int f = newfd(FD_FILE, i); if(f >= 0) P().fds[f].wr = true; P().fds[f].ofd = ofd_new(); world_changed(); return f;
}
void vclose(int fd){ NoSim ns; if(!fdp(fd)) return; env_access(ENV_FDT + cp(), true); close_fd(cp(), fd); }
int vdup2(int fd, int nf){ NoSim ns; env_access(ENV_FDT + cp(), true); if(!fdp(fd)) return -1; if(P().fds[nf].kind) close_fd(cp(), nf); P().fds[nf] = P().fds[fd]; world_changed(); return nf; }
}
using namespace mc;
#define SIM NoSim ns_

static void fill_stat(struct stat* st, int i){ memset(st, 0, sizeof *st); st->st_dev = W.ino[i].dev; st->st_ino = W.ino[i].ino; st->st_mode = (W.ino[i].isdir ? S_IFDIR : S_IFREG) | W.ino[i].mode; st->st_size = W.ino[i].size; st->st_nlink = 1; }
// state of a thread as /proc shows it: 0 no entry, 'Z' ended but still listed (unreaped process, or a main thread that ended before the others)
static char tid_state(int p, int tid)
{
	Proc& q = W.proc[p]; bool leader = tid == q.pid; if(!q.alive) return q.zombie && leader ? 'Z' : 0;
	for(int t = 0; t < NT; t++) if(T[t].proc == p && T[t].tid == tid && T[t].state != T_UNUSED) return T[t].state == T_EXITED ? (leader ? 'Z' : 0) : T[t].state == T_DEAD ? (leader ? 'Z' : 0) : 'S';
	return 0;
}
static int do_stat(const char* path, struct stat* st)
{
	char b[128]; norm(path, b); int pid, tid, n = 0;
	if(!strncmp(b, "/proc/", 6)){
		if((sscanf(b, "/proc/%d/task/%d%n", &pid, &tid, &n) == 2 && n && !b[n]) || (n = 0, tid = -1, sscanf(b, "/proc/%d%n", &pid, &n) == 1 && n && (!b[n] || !strcmp(b + n, "/task")))){
			if(tid < 0) tid = pid;
			int p = proc_of(pid); bool al = false; if(p >= 0 && p < MAXP && W.proc[p].used){ live_point(p); al = tid_state(p, tid) != 0; }
			env_result(al); tr("    stat /proc/%d/task/%d -> %s", pid, tid, al ? "alive" : "gone");
			if(!al){ errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0555; st->st_dev = 4; st->st_ino = (ino_t)tid; return 0;
		}
		int fd; n = 0;
		if((sscanf(b, "/proc/%d/fd/%d%n", &pid, &fd, &n) == 2 && n && !b[n] && (tid = pid)) || (n = 0, sscanf(b, "/proc/%d/task/%d/fd/%d%n", &pid, &tid, &fd, &n) == 3 && n && !b[n])){
			int p = proc_of(pid); if(p < 0 || p >= MAXP || !W.proc[p].used){ env_result(9); errno = ENOENT; return -1; }
			live_point(p); char ts = W.proc[p].alive || W.proc[p].zombie ? tid_state(p, tid) : 0;   // an ended main thread has no descriptors, its other threads have
			if(P().uid && (ts == 'Z' || P().uid != W.proc[p].uid) && ts){ env_result(8); tr("    stat /proc/%d/fd/%d -> EACCES", pid, fd); errno = EACCES; return -1; }
			env_access(ENV_FDT + p, false);
			int i = -2; if(W.proc[p].alive && ts && ts != 'Z' && fd >= 0 && fd < NFD && W.proc[p].fds[fd].kind != FD_NONE) i = W.proc[p].fds[fd].ino;
			env_result((uint64_t)(i + 10)); tr("    stat /proc/%d/fd/%d -> %s", pid, fd, i == -2 ? "gone" : "open");
			if(i == -2){ errno = ENOENT; return -1; } if(i < 0){ memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; st->st_dev = 5; st->st_ino = (ino_t)(1000 + fd); return 0; } fill_stat(st, i); return 0;
		}
		errno = ENOENT; return -1;
	}
	env_access(ENV_FS, false); int i = lookup(b); env_result((uint64_t)(i + 1)); if(i < 0){ errno = path_err(b); return -1; } fill_stat(st, i); return 0;
}
extern "C" {
int mcv_stat(const char* p, struct stat* st){ SIM; return do_stat(p, st); }
int mcv_lstat(const char* p, struct stat* st){ SIM; return do_stat(p, st); }
int mcv_access(const char* p, int){ SIM; struct stat st; return do_stat(p, &st); }
int mcv_kill(pid_t pid, int sig){ SIM; int p = proc_of(pid); if(sig) fatal_engine("kill with a signal"); if(p < 0 || p >= MAXP || !W.proc[p].used){ errno = ESRCH; return -1; } live_point(p); bool a = W.proc[p].alive || W.proc[p].zombie; bool perm = !P().uid || P().uid == W.proc[p].uid; env_result(a + (perm ? 0 : 2)); if(!a || !perm) errno = a ? EPERM : ESRCH; return a && perm ? 0 : -1; }
int mcv_fstat(int fd, struct stat* st){ SIM; FdEnt* e = fdp(fd); env_access(ENV_FDT + cp(), false); if(!e || !(e = fdp(fd))){ env_result(0); return -1; } env_result((uint64_t)(e->ino + 2)); if(e->ino < 0){ memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; st->st_dev = 5; st->st_ino = (ino_t)(1000 + fd); return 0; } env_access(ENV_INO + e->ino, false); fill_stat(st, e->ino); env_result((uint64_t)st->st_size); return 0; }
int mcv_open(const char* path, int flags, ...)
{
	mode_t mode = 0; if(flags & O_CREAT){ va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	check_cancel();
	SIM; if(flt("open", ENFILE)) return -1; char b[128]; norm(path, b);
	{	int pid, tid = -1, n = 0; bool tk = sscanf(b, "/proc/%d/task/%d/stat%n", &pid, &tid, &n) == 2 && n && !b[n]; if(!tk){ n = 0; tk = sscanf(b, "/proc/%d/stat%n", &pid, &n) == 1 && n && !b[n]; tid = pid; }
		if(tk){
			int p = proc_of(pid); char st = 0; if(p >= 0 && p < MAXP && W.proc[p].used){ live_point(p); st = tid_state(p, tid); }
			env_result(st != 0); tr("    open /proc/%d/task/%d/stat -> %s", pid, tid, st ? "ok" : "gone"); if(!st){ errno = ENOENT; return -1; }
			env_access(ENV_FDT + cp(), false); int fd = newfd(FD_PROC, -1); if(fd >= 0){ P().fds[fd].obj = p; P().fds[fd].pos = 0; P().fds[fd].mapped = tid; world_changed(); } return fd;
		}
	}
	int i, sfd, sn = 0; if(sscanf(b, "/proc/self/fd/%d%n", &sfd, &sn) == 1 && sn && !b[sn]){ env_access(ENV_FDT + cp(), false); FdEnt* e = fdp(sfd); if(!e || e->ino < 0){ errno = ENOENT; return -1; } i = e->ino; }
	else { env_access(ENV_FS, (flags & O_CREAT) != 0); i = lookup(b); }
	if(i >= 0){ if((flags & O_CREAT) && (flags & O_EXCL)){ env_result(1); errno = EEXIST; return -1; } if(W.ino[i].isdir && (flags & O_ACCMODE) != O_RDONLY){ errno = EISDIR; return -1; } }
	else { if(!(flags & O_CREAT)){ env_result(2); errno = path_err(b); return -1; } if(!parent_ok(b)){ env_result(2); errno = path_err(b); return -1; } size_t l = strlen(path); if(l && path[l-1] == '/'){ errno = EISDIR; return -1; } i = new_inode(b, false, mode & ~P().umask_ & 0777); }
	env_result((uint64_t)i + 3); env_access(ENV_FDT + cp(), true);
	int fd = newfd(FD_FILE, i); if(fd < 0) return -1; P().fds[fd].wr = (flags & O_ACCMODE) != O_RDONLY; P().fds[fd].cloexec = (flags & O_CLOEXEC) != 0; P().fds[fd].ofd = ofd_new();
	if((flags & O_TRUNC) && P().fds[fd].wr){ env_access(ENV_INO + i, true); if(W.ino[i].mapidx >= 0){ inode_written(W.ino[i].mapidx, 0, (size_t)W.ino[i].size); clear_inode(W.ino[i].mapidx); } W.ino[i].size = 0; }
	world_changed(); tr("    open %s -> %d", b, fd); return fd;
}
int mcv_close(int fd){ SIM; if(!fdp(fd)) return -1; if(fdp(fd)->kind == FD_PROC){ memset(&P().fds[fd], 0, sizeof(FdEnt)); world_changed(); return 0; } env_access(ENV_FDT + cp(), true); FdEnt* e = fdp(fd); if(!e) return -1; if(e->kind == FD_FILE && e->ino >= 0) env_access(ENV_LOCK + e->ino, true); tr("    close %d", fd); close_fd(cp(), fd); return 0; }
int mcv_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap); SIM; FdEnt* e = fdp(fd); if(!e) return -1;
	if(cmd == F_GETFD || cmd == F_GETFL) return cmd == F_GETFL ? (e->wr ? O_RDWR : O_RDONLY) : e->cloexec ? FD_CLOEXEC : 0; if(cmd == F_SETFD){ e->cloexec = ((long)arg & FD_CLOEXEC) != 0; world_changed(); return 0; } if(cmd == F_SETFL) return 0;
	if(cmd != F_SETLK && cmd != F_SETLKW && cmd != F_GETLK){ errno = EINVAL; return -1; } if(((struct flock*)arg)->l_type != F_UNLCK && (flt("fcntl", ENOLCK) || flt("fcntl", EINTR, true))) return -1;
	struct flock* f = (struct flock*)arg; int ino = e->ino; off_t s = f->l_start; if(f->l_whence != SEEK_SET) fatal_engine("fcntl whence");
	int b0 = s >= NLKB ? NLKB - 1 : (int)s, b1 = f->l_len == 0 ? NLKB - 1 : (s + f->l_len - 1 >= NLKB ? NLKB - 1 : (int)(s + f->l_len - 1)); int p = cp();
	if(f->l_type == F_WRLCK && !e->wr){ errno = EBADF; return -1; }
	env_access(ENV_LOCK + ino, cmd != F_GETLK);
	if(cmd == F_GETLK){ bool ok = lock_grantable(ino, p, f->l_type, b0, b1); env_result(ok); if(ok) f->l_type = F_UNLCK; else { f->l_type = F_WRLCK; f->l_pid = 1; } return 0; }
	if(f->l_type == F_UNLCK){ for(int b = b0; b <= b1; b++) W.lk[ino][p][b] = 0; tr("    fcntl unlock"); world_changed(); return 0; }
	while(!lock_grantable(ino, p, f->l_type, b0, b1)){
		env_result(0); if(cmd == F_SETLK){ tr("    fcntl %s lock -> EAGAIN", f->l_type == F_WRLCK ? "write" : "read"); errno = EAGAIN; return -1; }
		Thr& t = T[g.cur]; t.wino = ino; t.wtype = f->l_type; t.wbk0 = b0; t.wbk1 = b1; block_here(T_FLOCK);
	}
	env_result(1); for(int b = b0; b <= b1; b++) W.lk[ino][p][b] = f->l_type == F_WRLCK ? 2 : 1; world_changed(); tr("    fcntl %s lock -> ok", f->l_type == F_WRLCK ? "write" : "read"); return 0;
}
int mcv_ftruncate(int fd, off_t len)
{
	SIM; if(flt("ftruncate", EIO)) return -1; FdEnt* e = fdp(fd); if(!e) return -1; if(!e->wr){ errno = EINVAL; return -1; } env_access(ENV_INO + e->ino, true); Inode& n = W.ino[e->ino]; int m = mapidx_of(e->ino);
	if((size_t)len > AREASZ){ errno = EFBIG; return -1; }
	if(len < n.size){ inode_written(m, (size_t)len, (size_t)(n.size - len)); memset(inode_mem(m) + len, 0, (size_t)(n.size - len)); } n.size = len; inode_grow(m, (size_t)len); world_changed(); tr("    ftruncate %ld", (long)len); return 0;
}
ssize_t mcv_pwrite(int fd, const void* buf, size_t n, off_t off)
{
	SIM; if(flt("write", ENOSPC)) return -1; if(n > 1 && flt("write", 0, true)) n /= 2; FdEnt* e = fdp(fd); if(!e) return -1; if(!e->wr){ errno = EBADF; return -1; } env_access(ENV_INO + e->ino, true); Inode& f = W.ino[e->ino]; int m = mapidx_of(e->ino);
	if(off < 0 || (size_t)off + n > AREASZ){ errno = EFBIG; return -1; } memcpy(inode_mem(m) + off, buf, n); inode_grow(m, (size_t)off + n); inode_written(m, (size_t)off, n); if((off_t)(off + (off_t)n) > f.size) f.size = off + (off_t)n; world_changed(); return (ssize_t)n;
}
ssize_t mcv_pread(int fd, void* buf, size_t n, off_t off){ SIM; if(flt("pread", EIO)) return -1; if(n > 1 && flt("pread", 0, true)) n /= 2; FdEnt* e = fdp(fd); if(!e) return -1; env_access(ENV_INO + e->ino, false); Inode& f = W.ino[e->ino]; int m = mapidx_of(e->ino); if(off >= f.size) return 0; if((off_t)n > f.size - off) n = (size_t)(f.size - off); memcpy(buf, inode_mem(m) + off, n); return (ssize_t)n; }
ssize_t mcv_read(int fd, void* buf, size_t n)
{
	check_cancel(); SIM; FdEnt* e = fdp(fd); if(!e) return -1; if(e->kind != FD_FILE && flt("read", EINTR)) return -1;
	if(e->kind == FD_INOTIFY){ size_t o = 0; env_access(ENV_FDT + cp(), true); for(auto& w : W.watch) if(w.used && w.inst == e->ofd) for(uint32_t m : {(uint32_t)IN_CLOSE_WRITE, (uint32_t)IN_CLOSE_NOWRITE, (uint32_t)IN_IGNORED}) if((w.pending & m) && o + sizeof(struct inotify_event) <= n){ struct inotify_event ev; memset(&ev, 0, sizeof ev); ev.wd = w.wd; ev.mask = m; memcpy((char*)buf + o, &ev, sizeof ev); o += sizeof ev; w.pending &= ~m; if(m == IN_IGNORED) memset(&w, 0, sizeof w); } world_changed(); env_result(o); if(!o){ errno = EAGAIN; return -1; } return (ssize_t)o; }
	if(e->kind == FD_PROC){ int p = e->obj, tid = e->mapped; live_point(p); if(!(e = fdp(fd))) return -1; char st = tid_state(p, tid); env_result((uint64_t)st); tr("    read /proc/%d/task/%d/stat -> %c", pid_of(p), tid, st ? st : '-'); if(!st){ errno = ESRCH; return -1; }
		char b[96]; int l = snprintf(b, sizeof b, "%d (a.out) %c %d %d 0 0 -1 4194304 0 0 0 0", tid, st, (int)W.proc[p].ppid, W.proc[p].pid); size_t k = e->pos >= l ? 0 : (size_t)(l - e->pos); if(k > n) k = n; memcpy(buf, b + e->pos, k); e->pos += (off_t)k; world_changed(); return (ssize_t)k; }
	ssize_t r = mcv_pread(fd, buf, n, e->pos); if(r > 0){ P().fds[fd].pos += r; world_changed(); } return r;
}
ssize_t mcv_write(int fd, const void* buf, size_t n){ if(fd == 1 || fd == 2) return (ssize_t)n; FdEnt* e = fdp(fd); if(!e) return -1; ssize_t r = mcv_pwrite(fd, buf, n, e->pos); if(r > 0) P().fds[fd].pos += r; return r; }
off_t mcv_lseek(int fd, off_t o, int wh){ SIM; FdEnt* e = fdp(fd); if(!e) return -1; off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? e->pos : W.ino[e->ino].size; e->pos = b + o; world_changed(); return e->pos; }
void* mcv_mmap(void*, size_t len, int prot, int flags, int fd, off_t off)
{
	SIM; if(flt("mmap", ENOMEM)) return MAP_FAILED; if(flags & MAP_ANONYMOUS) fatal_engine("anonymous mmap"); FdEnt* e = fdp(fd); if(!e) return MAP_FAILED; if((prot & PROT_WRITE) && (flags & MAP_SHARED) && !e->wr){ errno = EACCES; return MAP_FAILED; }
	if(len == 0 || off != 0){ errno = EINVAL; return MAP_FAILED; } if(len > AREASZ){ errno = ENOMEM; return MAP_FAILED; }
	int m = mapidx_of(e->ino); Proc& p = P(); int k = -1; for(int j = 0; j < NAREA; j++){ int c = (p.areanext[m] + j) % NAREA; if(!p.area[m*NAREA + c]){ k = c; break; } }
	if(k < 0) violate("the shared file is mapped again and again without being unmapped (mapping leak)"); p.areanext[m] = (k + 1) % NAREA; p.area[m*NAREA + k] = true; p.areaofd[m*NAREA + k] = e->ofd; p.arealen[m*NAREA + k] = (len + 4095) / 4096 * 4096; world_changed(); tr("    mmap %zu", len);
	return (void*)(MAP_BASE + ((ul)m*NAREA + k) * AREASZ);
}
int mcv_munmap(void* a, size_t len){ SIM; ul o = (ul)a - MAP_BASE; if((ul)a < MAP_BASE || (ul)a >= MAP_END || o % AREASZ){ errno = EINVAL; return -1; } int k = (int)(o / AREASZ); if(len == 0){ errno = EINVAL; return -1; } if(!P().area[k]) violate("munmap of memory that is not mapped"); if(len >= P().arealen[k] || (len + 4095)/4096*4096 >= P().arealen[k]){ unmap(cp(), k); } world_changed(); tr("    munmap"); return 0; }
mode_t mcv_umask(mode_t m){ SIM; mode_t o = P().umask_; P().umask_ = m; env_access(ENV_FDT + cp(), true); return o; }
int mcv_mkdir(const char* p, mode_t m){ SIM; if(flt("mkdir", ENOSPC)) return -1; char b[128]; norm(p, b); env_access(ENV_FS, true); if(lookup(b) >= 0){ errno = EEXIST; env_result(1); return -1; } if(!parent_ok(b)){ errno = ENOENT; env_result(2); return -1; } new_inode(b, true, m & ~P().umask_); env_result(0); return 0; }
int mcv_unlink(const char* p){ SIM; char b[128]; norm(p, b); env_access(ENV_FS, true); int i = lookup(b); if(i < 0){ errno = path_err(b); return -1; } if(W.ino[i].isdir){ errno = EISDIR; return -1; } W.ino[i].linked = false; world_changed(); return 0; }
char* mcv_getenv(const char* n){ SIM; char k[96]; for(int i = 0; i < W.nenvov; i++) if(W.envov[i].proc == cp() && !strcmp(W.envov[i].k, n)) return W.envov[i].v[0] == '\x01' ? nullptr : W.envov[i].v; snprintf(k, sizeof k, "p%d:%s", cp(), n); auto& e = g.sc->env; auto it = e.find(k); if(it == e.end()) it = e.find(n); if(it == e.end() || it->second == "\x01") return nullptr; return const_cast<char*>(it->second.c_str()); }
pid_t mcv_getpid(void){ return P().pid; }
pid_t mcv_getppid(void){ return P().ppid; }
pid_t mcv_gettid(void){ return T[g.cur].tid; }
long mcv_syscall(long n, ...){ if(n == SYS_gettid) return T[g.cur].tid; if(n == SYS_getpid) return P().pid; fatal_engine("syscall %ld", n); }
long mcv_sysconf(int n){ if(n == _SC_PAGE_SIZE) return 4096; return sysconf(n); }
int mcv_getpagesize(void){ return 4096; }
char* mcv_get_current_dir_name(void){ if(flt("get_current_dir_name", ENOENT)) return nullptr; char* r = (char*)arena_alloc(8); strcpy(r, "/cwd"); return r; }
char* mcv_getcwd(char* b, size_t n){ if(n < 5){ errno = ERANGE; return nullptr; } strcpy(b, "/cwd"); return b; }
// ---- time
static void clk(){ if(g.phase == P_EXPLORE && !g.seq){ Thr& t = T[g.cur]; t.rsclock = true; t.rstime = W.now; env_result((uint64_t)W.now); if(++g.steps > 3000000) violate("execution does not terminate (livelock)"); } }
int mcv_clock_gettime(clockid_t c, struct timespec* ts){ SIM; clk(); int64_t n = W.now + (c == CLOCK_REALTIME ? 1700000000LL*1000000000LL : 0); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int mcv_gettimeofday(struct timeval* tv, void*){ struct timespec t; mcv_clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec/1000; return 0; }
time_t mcv_time(time_t* t){ struct timespec s; mcv_clock_gettime(CLOCK_REALTIME, &s); if(t) *t = s.tv_sec; return s.tv_sec; }
static int do_sleep(int64_t ns){ check_cancel(); { SIM; if(flt("nanosleep", EINTR, true)) return -1; Thr& t = T[g.cur]; if(ns <= 0){ yield_hint(); } else { t.wake = W.now + ns; block_here(T_SLEEP); own_progress(); } } check_cancel(); return 0; }
int mcv_nanosleep(const struct timespec* r, struct timespec*){ if(r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0){ errno = EINVAL; return -1; } return do_sleep((int64_t)r->tv_sec * 1000000000 + r->tv_nsec); }
int mcv_clock_nanosleep(clockid_t, int fl, const struct timespec* r, struct timespec*){ int64_t n = (int64_t)r->tv_sec * 1000000000 + r->tv_nsec; if(fl & TIMER_ABSTIME) n -= W.now; return do_sleep(n); }
int mcv_usleep(useconds_t u){ return do_sleep((int64_t)u * 1000); }
unsigned mcv_sleep(unsigned s){ do_sleep((int64_t)s * 1000000000); return 0; }
int mcv_sched_yield(void){ SIM; yield_hint(); return 0; }
// ---- threads
static void took(int t){ if(T[t].joinable){ T[t].joinable = false; P().unjoined--; world_changed(); } }
int mcv_pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg){ SIM; if(flt("pthread_create", EAGAIN)) return EAGAIN; int t = start_pthread(cp(), fn, arg); *th = (pthread_t)(t + 1); T[t].joinable = true; P().unjoined++; world_changed(); progress(); tr("    pthread_create -> T%d", t); return 0; }
int mcv_pthread_cancel(pthread_t th){ SIM; int t = (int)th - 1; if(t < 0 || t >= NT || T[t].proc != cp()) return ESRCH; env_access(ENV_THR + t, true); if(T[t].state < T_DONE) T[t].cancel = true; progress(); return 0; }
int mcv_pthread_tryjoin_np(pthread_t th, void** rv){ SIM; int t = (int)th - 1; if(t < 0 || t >= NT || T[t].proc != cp()) return ESRCH; env_access(ENV_THR + t, false); bool d = T[t].state >= T_DONE; env_result(d); if(!d) return EBUSY; if(rv) *rv = T[t].retval; took(t); return 0; }
int mcv_pthread_join(pthread_t th, void** rv){ SIM; int t = (int)th - 1; if(t < 0 || t >= NT || T[t].proc != cp()) return ESRCH; while(T[t].state < T_DONE){ T[g.cur].wthr = t; block_here(T_JOIN); if(g.phase != P_EXPLORE) break; } if(rv) *rv = T[t].retval; took(t); return 0; }
int mcv_pthread_detach(pthread_t th){ SIM; int t = (int)th - 1; if(t < 0 || t >= NT || T[t].proc != cp()) return ESRCH; took(t); return 0; }
void mcv_pthread_exit(void*){ T[g.cur].cancelstate = PTHREAD_CANCEL_DISABLE; throw mc_cancel(); }
int mcv_pthread_setcancelstate(int s, int* o){ if(o) *o = T[g.cur].cancelstate; T[g.cur].cancelstate = s; return 0; }
int mcv_pthread_setcanceltype(int, int* o){ if(o) *o = 0; return 0; }
void mcv_pthread_testcancel(void){ { SIM; if(T[g.cur].daemon) env_access(ENV_THR + g.cur, false); } check_cancel(); }
int mcv_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)){ if(flt("pthread_atfork", ENOMEM)) return ENOMEM; Proc& p = P(); if(p.natfork >= NATFORK) violate("fork handlers are registered without bound"); p.af_prep[p.natfork] = a; p.af_par[p.natfork] = b; p.af_child[p.natfork] = c; p.natfork++; world_changed(); return 0; }
int mcv_pthread_key_create(pthread_key_t* k, void (*)(void*)){ if(flt("pthread_key_create", EAGAIN)) return EAGAIN; Proc& p = P(); for(int i = 0; i < NSPEC; i++) if(!p.keyused[i]){ p.keyused[i] = true; *k = (pthread_key_t)i; world_changed(); return 0; } return EAGAIN; }
int mcv_pthread_key_delete(pthread_key_t k){ P().keyused[k] = false; world_changed(); return 0; }
void* mcv_pthread_getspecific(pthread_key_t k){ return k < NSPEC ? T[g.cur].spec[k] : nullptr; }
int mcv_pthread_setspecific(pthread_key_t k, const void* v){ if(k >= NSPEC) return EINVAL; T[g.cur].spec[k] = const_cast<void*>(v); return 0; }
pthread_t mcv_pthread_self(void){ return (pthread_t)(g.cur + 1); }
int mcv_pthread_mutex_init(void* m, const void*){ memset(m, 0, 4); return 0; }
int mcv_pthread_mutex_destroy(void*){ return 0; }
int mcv_pthread_mutex_trylock(void* m){ uint64_t v = mem_cas((ul)m, 4, 0, (uint64_t)g.cur + 1, (ul)__builtin_return_address(0)); return v ? EBUSY : 0; }
int mcv_pthread_mutex_lock(void* m){ for(;;){ mem_access((ul)m, 4, true, 0, true); if(!*(int*)m){ *(int*)m = g.cur + 1; world_changed(); return 0; } SIM; T[g.cur].waddr = (ul)m; block_here(T_PMUTEX); } }
int mcv_pthread_mutex_unlock(void* m){ mem_access((ul)m, 4, true, 0, true); *(int*)m = 0; world_changed(); progress(); return 0; }
// ---- process
int mcv___cxa_atexit(void (*f)(void*), void* a, void*){ if(g.cur < 0) return 0; Proc& p = P(); if(p.natexit >= NATEXIT) violate("exit handlers are registered without bound"); p.atexit_fn[p.natexit] = f; p.atexit_arg[p.natexit] = a; p.natexit++; world_changed(); return 0; }
int mcv_atexit(void (*f)(void)){ return mcv___cxa_atexit((void (*)(void*))f, nullptr, nullptr); }
int mcv___cxa_guard_acquire(char* gd)
{
	if(g.cur < 0){ if(gd[0]) return 0; gd[1] = 1; return 1; }
	for(;;){ mem_access((ul)gd, 8, true, (ul)gd, true); if(gd[0]) return 0; if(!gd[1]){ gd[1] = 1; return 1; } SIM; T[g.cur].waddr = (ul)gd; block_here(T_GUARD); }
}
void mcv___cxa_guard_release(char* gd){ if(g.cur >= 0) mem_access((ul)gd, 8, true, (ul)gd, true); gd[0] = 1; gd[1] = 0; if(g.cur >= 0) progress(); }
void mcv___cxa_guard_abort(char* gd){ if(g.cur >= 0) mem_access((ul)gd, 8, true, (ul)gd, true); gd[1] = 0; }
// ---- stdio streams of the library (its messages): a stream is a descriptor and a mark that it is open; unbuffered
static const ul STREAM = 0x5f0000;
int mcv_open(const char* path, int flags, ...); int mcv_close(int fd);
FILE* mcv_fopen(const char* path, const char* mode)
{
	bool plus = strchr(mode, '+'); int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
	int fd = mcv_open(path, fl, 0666); if(fd < 0) return nullptr; P().files |= 1u << fd; world_changed(); return (FILE*)(STREAM + (ul)fd);
}
static int stream_fd(FILE* f){ ul v = (ul)f; if(f == stderr) return 2; if(f == stdout) return 1; if(v < STREAM || v >= STREAM + NFD || !(P().files >> (v - STREAM) & 1)) violate("a stream is used that is not open"); return (int)(v - STREAM); }
int mcv_fclose(FILE* f){ int fd = stream_fd(f); if(fd > 2){ P().files &= ~(1u << fd); world_changed(); } return mcv_close(fd); }
int mcv_fflush(FILE* f){ if(f) stream_fd(f); return 0; }
static int put_text(FILE* f, const char* t)
{
	SIM; int fd = stream_fd(f); if(fd > 2) env_access(ENV_FDT + cp(), false); fd = stream_fd(f); FdEnt& e = P().fds[fd]; if(fd > 2 && e.kind == FD_NONE){ errno = EBADF; return -1; }
	tr("    message: %s", t); if(!g.sc->count_msgs) return (int)strlen(t);
	int sev = !strncmp(t, "[FLCK-ERR] ", 11) ? 0 : !strncmp(t, "[FLCK-WAN] ", 11) ? 1 : !strncmp(t, "[FLCK-MSG] ", 11) ? 2 : 3; size_t n = strlen(t); if(!n || t[n-1] != '\n') sev = 3;
	uint16_t& c = fd > 2 && e.ino >= 0 ? W.logc[e.ino][sev] : W.errc[cp()][sev]; if(c < 60000) c++; world_changed(); return (int)n;
}
int mcv_vfprintf(FILE* f, const char* fmt, va_list ap){ char b[4096]; vsnprintf(b, sizeof b, fmt, ap); b[sizeof b - 1] = 0; return put_text(f, b); }
int mcv_fprintf(FILE* f, const char* fmt, ...){ va_list ap; va_start(ap, fmt); int r = mcv_vfprintf(f, fmt, ap); va_end(ap); return r; }
int mcv_fputs(const char* t, FILE* f){ return put_text(f, t); }
// ---- inotify / epoll
int mcv_epoll_create1(int){ SIM; if(flt("epoll_create1", ENFILE)) return -1; env_access(ENV_FDT + cp(), true); int f = newfd(FD_EPOLL, -1); if(f >= 0){ P().fds[f].ofd = 0; P().fds[f].ofd = ofd_new(); world_changed(); } return f; }
int mcv_inotify_init1(int){ SIM; if(flt("inotify_init1", ENFILE)) return -1; env_access(ENV_FDT + cp(), true); int f = newfd(FD_INOTIFY, -1); if(f >= 0){ P().fds[f].ofd = 0; P().fds[f].ofd = ofd_new(); world_changed(); } return f; }
int mcv_inotify_add_watch(int fd, const char* path, uint32_t mask)
{
	SIM; if(flt("inotify_add_watch", ENOSPC)) return -1; char b[128]; norm(path, b); env_access(ENV_FS, false); int i = lookup(b); FdEnt* e = fdp(fd); if(!e) return -1; if(e->kind != FD_INOTIFY){ errno = EINVAL; return -1; } if(i < 0){ errno = ENOENT; return -1; }
	for(auto& w : W.watch) if(w.used && w.inst == e->ofd && w.ino == i){ w.mask = mask; world_changed(); return w.wd; }
	int wd = 1; for(auto& w : W.watch) if(w.inst == e->ofd && w.wd >= wd) wd = w.wd + 1; if(wd <= e->pos) wd = (int)e->pos + 1; e->pos = wd;
	for(auto& w : W.watch) if(!w.used){ w.used = true; w.inst = e->ofd; w.wd = wd; w.ino = i; w.mask = mask; w.pending = w.last = 0; world_changed(); return w.wd; } fatal_engine("watches");
}
int mcv_inotify_rm_watch(int fd, int wd){ SIM; FdEnt* e = fdp(fd); if(!e) return -1; if(e->kind == FD_INOTIFY) for(auto& w : W.watch) if(w.used && w.inst == e->ofd && w.wd == wd && w.ino >= 0){ w.ino = -1; watch_event(w, IN_IGNORED); world_changed(); return 0; } errno = EINVAL; return -1; }
int mcv_epoll_ctl(int e, int op, int fd, struct epoll_event* ev)
{
	SIM; if(op == EPOLL_CTL_ADD && flt("epoll_ctl", ENOSPC)) return -1; FdEnt *a = fdp(e), *b = a ? fdp(fd) : nullptr; if(!b) return -1; if(a->kind != FD_EPOLL || b->kind != FD_INOTIFY){ errno = EINVAL; return -1; } auto& x = W.ep[a->ofd];
	if(op == EPOLL_CTL_DEL){ if(x.target != b->ofd){ errno = ENOENT; return -1; } memset(&x, 0, sizeof x); }
	else { if(op == EPOLL_CTL_ADD && x.target){ if(x.target != b->ofd) fatal_engine("epoll with two files"); errno = EEXIST; return -1; } x.target = b->ofd; x.data = ev->data.u64; x.mask = ev->events; x.edge = false; for(auto& w : W.watch) if(w.used && w.inst == b->ofd && w.pending) x.edge = true; }
	world_changed(); return 0;
}
int mcv_epoll_pwait(int e, struct epoll_event* ev, int, int to, const sigset_t*)
{
	check_cancel(); int r = 0;
	{ SIM; Thr& t = T[g.cur]; int p = cp(); if(!fdp(e)) return -1; if(flt("epoll_pwait", EINTR)) return -1; t.wfd = e; t.wake = to < 0 ? -1 : W.now + (int64_t)to * 1000000;
	if(!epoll_ready(p, e)) block_here(T_EPOLL); own_progress();
	if(fdp(e) && epoll_ready(p, e)){ auto& x = W.ep[P().fds[e].ofd]; x.edge = false; ev[0].events = EPOLLIN; ev[0].data.u64 = x.data; r = 1; world_changed(); } env_result((uint64_t)r); }
	check_cancel(); return r;
}
int mcv_epoll_wait(int e, struct epoll_event* ev, int n, int to){ return mcv_epoll_pwait(e, ev, n, to, nullptr); }
// ---- memory
void* mcv_malloc(size_t n){ SIM; return arena_alloc(n); }
void* mcv_calloc(size_t a, size_t b){ SIM; return arena_alloc(a*b); }
void mcv_free(void* p){ SIM; if(p && !arena_has(p)) free(p); else arena_free(p); }
void* mcv_realloc(void* p, size_t n){ SIM; if(!p) return arena_alloc(n); if(!arena_has(p)) fatal_engine("realloc foreign"); void* q = arena_alloc(n); size_t o = arena_size(p); memcpy(q, p, o < n ? o : n); arena_free(p); return q; }
char* mcv_strdup(const char* s){ SIM; size_t n = strlen(s) + 1; char* r = (char*)arena_alloc(n); memcpy(r, s, n); return r; }
void* mcv__Znwm(size_t n){ return mcv_malloc(n); } void* mcv__Znam(size_t n){ return mcv_malloc(n); }
void mcv__ZdlPv(void* p){ mcv_free(p); } void mcv__ZdaPv(void* p){ mcv_free(p); } void mcv__ZdlPvm(void* p, size_t){ mcv_free(p); } void mcv__ZdaPvm(void* p, size_t){ mcv_free(p); }
#define PC ((ul)__builtin_return_address(0))
void* mcv_memset(void* d, int c, size_t n){ mem_range((ul)d, n, true, PC); return memset(d, c, n); }
void* mcv_memcpy(void* d, const void* s, size_t n){ mem_range((ul)s, n, false, PC); mem_range((ul)d, n, true, PC); return memcpy(d, s, n); }
void* mcv_memmove(void* d, const void* s, size_t n){ mem_range((ul)s, n, false, PC); mem_range((ul)d, n, true, PC); return memmove(d, s, n); }
int mcv_memcmp(const void* a, const void* b, size_t n){ mem_range((ul)a, n, false, PC); mem_range((ul)b, n, false, PC + 1); return memcmp(a, b, n); }
size_t mcv_strlen(const char* s){ size_t n = strlen(s); mem_range((ul)s, n + 1, false, PC); return n; }
char* mcv_strcpy(char* d, const char* s){ size_t n = strlen(s) + 1; mem_range((ul)s, n, false, PC); mem_range((ul)d, n, true, PC); return (char*)memmove(d, s, n); }
char* mcv_strncpy(char* d, const char* s, size_t n){ size_t l = strnlen(s, n); mem_range((ul)s, l < n ? l + 1 : n, false, PC); mem_range((ul)d, n, true, PC); memmove(d, s, l); memset(d + l, 0, n - l); return d; }
int mcv_strcmp(const char* a, const char* b){ size_t i = 0; while(a[i] && a[i] == b[i]) i++; mem_range((ul)a, i + 1, false, PC); mem_range((ul)b, i + 1, false, PC + 1); return strcmp(a, b); }
int mcv_strncmp(const char* a, const char* b, size_t n){ size_t i = 0; while(i < n && a[i] && a[i] == b[i]) i++; size_t k = i < n ? i + 1 : n; mem_range((ul)a, k, false, PC); mem_range((ul)b, k, false, PC + 1); return strncmp(a, b, n); }
}
void* operator new(size_t n){ if(g.in_sim) return arena_alloc(n); void* p = malloc(n); if(!p) abort(); return p; }
void* operator new[](size_t n){ if(g.in_sim) return arena_alloc(n); void* p = malloc(n); if(!p) abort(); return p; }
void operator delete(void* p) noexcept { if(arena_has(p)) arena_free(p); else free(p); }
void operator delete[](void* p) noexcept { if(arena_has(p)) arena_free(p); else free(p); }
void operator delete(void* p, size_t) noexcept { if(arena_has(p)) arena_free(p); else free(p); }
void operator delete[](void* p, size_t) noexcept { if(arena_has(p)) arena_free(p); else free(p); }

// aliases
asm(R"(
.globl mcv_stat64
.set mcv_stat64,mcv_stat
.globl mcv_lstat64
.set mcv_lstat64,mcv_lstat
.globl mcv_fstat64
.set mcv_fstat64,mcv_fstat
.globl mcv_open64
.set mcv_open64,mcv_open
.globl mcv_fcntl64
.set mcv_fcntl64,mcv_fcntl
.globl mcv_ftruncate64
.set mcv_ftruncate64,mcv_ftruncate
.globl mcv_pwrite64
.set mcv_pwrite64,mcv_pwrite
.globl mcv_pread64
.set mcv_pread64,mcv_pread
.globl mcv_lseek64
.set mcv_lseek64,mcv_lseek
.globl mcv_mmap64
.set mcv_mmap64,mcv_mmap
.globl mcv_fopen64
.set mcv_fopen64,mcv_fopen
.globl mcv_secure_getenv
.set mcv_secure_getenv,mcv_getenv
.globl mcv___strdup
.set mcv___strdup,mcv_strdup
)");
