#include "common.h"
Api A;
template<class F> static void L(F& f, const char* n){ f = (F)lib_sym(n); }
void load_api()
{
	L(A.no_robust, "fullock_set_no_robust"); L(A.low_robust, "fullock_set_low_robust"); L(A.high_robust, "fullock_set_high_robust");
	L(A.allow_nr, "fullock_set_noretry_allow_nomap"); L(A.deny_nr, "fullock_set_noretry_deny_nomap"); L(A.allow_r, "fullock_set_retry_allow_nomap"); L(A.deny_r, "fullock_set_retry_deny_nomap");
	L(A.free_no, "fullock_set_no_freeunit"); L(A.free_fd, "fullock_set_fd_freeunit"); L(A.free_off, "fullock_set_offset_freeunit");
	L(A.chkcnt, "fullock_set_robust_check_count"); L(A.reinit, "fullock_reinitialize"); L(A.reinit_ex, "fullock_reinitialize_ex");
	L(A.m_lock, "fullock_mutex_lock"); L(A.m_try, "fullock_mutex_trylock"); L(A.m_timed, "fullock_mutex_timedlock"); L(A.m_unlock, "fullock_mutex_unlock");
	L(A.r_rd, "fullock_rwlock_rdlock"); L(A.r_tryrd, "fullock_rwlock_tryrdlock"); L(A.r_trd, "fullock_rwlock_timedrdlock");
	L(A.r_wr, "fullock_rwlock_wrlock"); L(A.r_trywr, "fullock_rwlock_trywrlock"); L(A.r_twr, "fullock_rwlock_timedwrlock");
	L(A.r_un, "fullock_rwlock_unlock"); L(A.r_is, "fullock_rwlock_islocked");
	L(A.c_twait, "fullock_cond_timedwait"); L(A.c_wait, "fullock_cond_wait"); L(A.c_signal, "fullock_cond_signal"); L(A.c_bcast, "fullock_cond_broadcast");
	L(A.x_new, "shim_rcsv_new"); L(A.x_newl, "shim_rcsv_new_lock"); L(A.x_del, "shim_rcsv_del"); L(A.x_rd, "shim_rcsv_rd"); L(A.x_wr, "shim_rcsv_wr"); L(A.x_un, "shim_rcsv_un"); L(A.x_lk, "shim_rcsv_lk"); L(A.x_set, "shim_rcsv_set");
}
void base_env(Scenario& s)
{
	auto& e = s.env; e["FLCKDIRPATH"] = "/tmp/fl"; e["FLCKFILENAME"] = "shm"; e["FLCKROBUSTMODE"] = "NO"; e["FLCKFREEUNITMODE"] = "OFFSET";
	e["FLCKFILECNT"] = "4"; e["FLCKOFFETCNT"] = "6"; e["FLCKLOCKERCNT"] = "8"; e["FLCKNMTXCNT"] = "4"; e["FLCKNCONDCNT"] = "4"; e["FLCKWAITERCNT"] = "6";
}
int seq_left;
Scenario& mk(const char* prop, const char* name, int np, int qp, int tp, double qs, double ts)
{
	Scenario& s = add(prop, name); base_env(s); s.nproc = np; s.quick.preempt = qp; s.thorough.preempt = tp; s.quick.max_sec = qs; s.thorough.max_sec = ts; s.quick.max_exec = s.thorough.max_exec = 1000000000;
	if(qp < 0) s.in_quick = false;
	return s;
}
