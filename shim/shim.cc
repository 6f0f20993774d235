// Compiled (instrumented) into the library under test: C entry points for the public C++ class.
#include "flckcommon.h"
#include "flckutil.h"
#include "rwlockrcsv.h"
char fullock_commit_hash[] = "mc";
extern "C" {
void* shim_rcsv_new(int fd, long off, unsigned long len){ return new FLRwlRcsv(fd, off, len); }
void* shim_rcsv_new_lock(int fd, long off, unsigned long len, int rd){ return new FLRwlRcsv(fd, off, len, rd != 0); }
void shim_rcsv_del(void* p){ delete static_cast<FLRwlRcsv*>(p); }
int shim_rcsv_rd(void* p){ return static_cast<FLRwlRcsv*>(p)->ReadLock(); }
int shim_rcsv_wr(void* p){ return static_cast<FLRwlRcsv*>(p)->WriteLock(); }
int shim_rcsv_lk(void* p, int how){ FLRwlRcsv* o = static_cast<FLRwlRcsv*>(p); return how == 2 ? o->Lock() : o->Lock(how != 0); }
int shim_rcsv_un(void* p){ return static_cast<FLRwlRcsv*>(p)->Unlock(); }
int shim_rcsv_set(void* p, int fd, long off, unsigned long len, int rd){ return static_cast<FLRwlRcsv*>(p)->Lock(fd, off, len, rd != 0); }
}
