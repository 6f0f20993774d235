#pragma once
#include "mc.h"
#include <errno.h>
#include <string.h>
#include <stdio.h>
using namespace mc;
struct Api {
	bool (*no_robust)(void); bool (*low_robust)(void); bool (*high_robust)(void);
	bool (*allow_nr)(void); bool (*deny_nr)(void); bool (*allow_r)(void); bool (*deny_r)(void);
	bool (*free_no)(void); bool (*free_fd)(void); bool (*free_off)(void);
	bool (*chkcnt)(int); bool (*reinit)(const char*, const char*); bool (*reinit_ex)(const char*, const char*, size_t, size_t, size_t, size_t, size_t, size_t);
	int (*m_lock)(const char*); int (*m_try)(const char*); int (*m_timed)(const char*, time_t); int (*m_unlock)(const char*);
	int (*r_rd)(int, off_t, size_t); int (*r_tryrd)(int, off_t, size_t); int (*r_trd)(int, off_t, size_t, time_t);
	int (*r_wr)(int, off_t, size_t); int (*r_trywr)(int, off_t, size_t); int (*r_twr)(int, off_t, size_t, time_t);
	int (*r_un)(int, off_t, size_t); bool (*r_is)(int, off_t, size_t);
	int (*c_twait)(const char*, const char*, time_t); int (*c_wait)(const char*, const char*); int (*c_signal)(const char*); int (*c_bcast)(const char*);
	void* (*x_new)(int, long, unsigned long); void* (*x_newl)(int, long, unsigned long, int); void (*x_del)(void*);
	int (*x_rd)(void*); int (*x_wr)(void*); int (*x_un)(void*); int (*x_lk)(void*, int); int (*x_set)(void*, int, long, unsigned long, int);
};
extern Api A;
void load_api();
void base_env(Scenario& s);
static inline void dl(long us){ if(us > 0 && us < 5000000) add_deadline(now() + us * 1000); }
#define OPB(...) op_begin(__VA_ARGS__); sim_enter()
#define OPE(r) sim_leave(); op_end((long)(r))
static inline int m_lock(const char* n){ OPB("mutex_lock(%s)", n ? n : "NULL"); int r = A.m_lock(n); OPE(r); return r; }
static inline int m_try(const char* n){ OPB("mutex_trylock(%s)", n); int r = A.m_try(n); OPE(r); return r; }
static inline int m_timed(const char* n, long us){ dl(us); OPB("mutex_timedlock(%s,%ldus)", n, us); int r = A.m_timed(n, us); OPE(r); return r; }
static inline int m_unlock(const char* n){ OPB("mutex_unlock(%s)", n); int r = A.m_unlock(n); OPE(r); return r; }
static inline int r_rd(int f, long o, size_t l){ OPB("rdlock(%d,%ld,%zu)", f, o, l); int r = A.r_rd(f, o, l); OPE(r); return r; }
static inline int r_wr(int f, long o, size_t l){ OPB("wrlock(%d,%ld,%zu)", f, o, l); int r = A.r_wr(f, o, l); OPE(r); return r; }
static inline int r_tryrd(int f, long o, size_t l){ OPB("tryrdlock(%d,%ld,%zu)", f, o, l); int r = A.r_tryrd(f, o, l); OPE(r); return r; }
static inline int r_trywr(int f, long o, size_t l){ OPB("trywrlock(%d,%ld,%zu)", f, o, l); int r = A.r_trywr(f, o, l); OPE(r); return r; }
static inline int r_trd(int f, long o, size_t l, long us){ dl(us); OPB("timedrdlock(%d,%ld,%zu,%ldus)", f, o, l, us); int r = A.r_trd(f, o, l, us); OPE(r); return r; }
static inline int r_twr(int f, long o, size_t l, long us){ dl(us); OPB("timedwrlock(%d,%ld,%zu,%ldus)", f, o, l, us); int r = A.r_twr(f, o, l, us); OPE(r); return r; }
static inline int r_un(int f, long o, size_t l){ OPB("rwunlock(%d,%ld,%zu)", f, o, l); int r = A.r_un(f, o, l); OPE(r); return r; }
static inline int r_is(int f, long o, size_t l){ OPB("islocked(%d,%ld,%zu)", f, o, l); int r = A.r_is(f, o, l); OPE(r); return r; }
static inline int c_twait(const char* c, const char* m, long us){ dl(us); OPB("cond_timedwait(%s,%s,%ldus)", c, m, us); int r = A.c_twait(c, m, us); OPE(r); return r; }
static inline int c_wait(const char* c, const char* m){ OPB("cond_wait(%s,%s)", c, m); int r = A.c_wait(c, m); OPE(r); return r; }
static inline int c_signal(const char* c){ OPB("cond_signal(%s)", c); int r = A.c_signal(c); OPE(r); return r; }
static inline int c_bcast(const char* c){ OPB("cond_broadcast(%s)", c); int r = A.c_bcast(c); OPE(r); return r; }
static inline void* x_new(int f, long o, size_t l){ OPB("FLRwlRcsv(%d,%ld,%zu)", f, o, l); void* p = A.x_new(f, o, l); OPE(0); return p; }
static inline void* x_newl(int f, long o, size_t l, bool rd){ OPB("FLRwlRcsv(%d,%ld,%zu,%s)", f, o, l, rd ? "read" : "write"); void* p = A.x_newl(f, o, l, rd); OPE(0); return p; }
static inline int x_set(void* p, int f, long o, size_t l, bool rd){ OPB("Lock(%d,%ld,%zu,%s)", f, o, l, rd ? "read" : "write"); int r = A.x_set(p, f, o, l, rd); OPE(r); return r; }
static inline void x_del(void* p){ OPB("~FLRwlRcsv"); A.x_del(p); OPE(0); }
static inline int x_lk(void* p, int how){ OPB("Lock(%s)", how == 2 ? "" : how ? "read" : "write"); int r = A.x_lk(p, how); OPE(r); return r; }
static inline int x_rd(void* p){ OPB("ReadLock"); int r = A.x_rd(p); OPE(r); return r; }
static inline int x_wr(void* p){ OPB("WriteLock"); int r = A.x_wr(p); OPE(r); return r; }
static inline int x_un(void* p){ OPB("Unlock"); int r = A.x_un(p); OPE(r); return r; }
static inline bool b_call(bool (*f)(void), const char* n){ OPB("%s()", n); bool r = f(); OPE(r); return r; }
static inline bool reinit(const char* d, const char* f){ OPB("reinitialize(%s,%s)", d ? d : "NULL", f ? f : "NULL"); bool r = A.reinit(d, f); OPE(r); return r; }
static inline bool reinit_ex(const char* d, const char* f, size_t a, size_t b, size_t c, size_t e, size_t h, size_t i){ OPB("reinitialize_ex(%s,%s,%zu,%zu,%zu,%zu,%zu,%zu)", d ? d : "NULL", f ? f : "NULL", a, b, c, e, h, i); bool r = A.reinit_ex(d, f, a, b, c, e, h, i); OPE(r); return r; }
#define REQUIRE(c, ...) do{ if(!(c)) mc::fail(__VA_ARGS__); }while(0)
#define EXPECT(e, v) do{ long got_ = (long)(e); if(got_ != (long)(v)) mc::fail("%s returned %ld, expected %ld (line %d)", #e, got_, (long)(v), __LINE__); }while(0)
// exclusion monitor: readers/writer counts per named resource
struct Mon { int8_t w[8], r[8]; int8_t x[64]; };
static inline Mon& mon(){ return ghost<Mon>(); }
static inline void enter_w(int k, const char* what){ Mon& m = mon(); if(m.w[k] || m.r[k]) mc::fail("mutual exclusion broken: %s entered while %d writer(s)/owner(s) and %d reader(s) are inside", what, m.w[k], m.r[k]); m.w[k]++; }
static inline void leave_w(int k){ mon().w[k]--; }
static inline void enter_r(int k, const char* what){ Mon& m = mon(); if(m.w[k]) mc::fail("mutual exclusion broken: reader %s entered while a writer is inside", what); m.r[k]++; }
static inline void leave_r(int k){ mon().r[k]--; }
// ---- sequential histories: agents (threads) take turns; every sequence of `depth` steps is explored, states matched exactly
struct SeqG { int8_t turn, done; };
struct SeqDef { int agents, depth; };
template<class GT> static inline void seq_agent(int me, const SeqDef& d, const std::function<void(int)>& step)
{
	GT& g = ghost<GT>(); SeqG& q = g.seq; extern int seq_left;
	if(me == 0){ seq_left = d.depth; q.turn = (int8_t)(1 + choose_state(d.agents, "agent", d.depth)); }
	for(;;){
		gate([me, &q]{ return q.done || q.turn == me + 1; });
		if(q.done) return;
		step(me); q.turn = 0;
		if(--seq_left <= 0){ q.done = 1; return; }
		q.turn = (int8_t)(1 + choose_state(d.agents, "agent", seq_left));
	}
}
// one scenario with tiers differing in depth
static inline void warm(int np){ for(int p = 0; p < np; p++) in_proc(p, []{ m_unlock("warm"); }); }
static inline void warm_high(int np, int cnt = 50){ for(int p = 0; p < np; p++) in_proc(p, [cnt]{ m_unlock("warm"); b_call(A.high_robust, "set_high_robust"); sim_enter(); A.chkcnt(cnt); sim_leave(); }); }
enum { KIND_LOCK = 0, KIND_TRY, KIND_TIMED };
Scenario& mk(const char* prop, const char* name, int np, int qp, int tp, double qs = 60, double ts = 700);
