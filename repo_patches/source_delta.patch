From ee7b8512c26475fee1139f6c52d78955d64a82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 01/35] fix: unlocking a recursively locked mutex releases only
 one level

---
 lib/flckbaselist.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..4c085fb 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -393,6 +393,9 @@ namespace fullock
 					}
 					// why? but do recover
 					__sync_fetch_and_add(plockcnt, 1);						// not check result
+				}else{
+					// still locked by other count of this owner
+					break;
 				}
 			}
 		}while(-1 <= sched_yield());
-- 
2.43.0


From 1409560a294f87010b4eb7ec179eb849471ccd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 02/35] fix: elapsed time is computed one second short when
 nanoseconds borrow

---
 lib/flckutil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..cf106e1 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -204,7 +204,7 @@ inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* en
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From ecd62b7cc6d26a2123cb29a874f5be714c04d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 03/35] fix: tryrdlock reports EBUSY although only readers hold
 the lock

---
 lib/flckbaselist.tcc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4c085fb..246c864 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -161,14 +161,18 @@ namespace fullock
 
 	inline int fl_tryrdlock_rwlock(flck_rwlock_t* plockval)
 	{
-		flck_rwlock_t	beforeval	= *plockval;
-		flck_rwlock_t	newval		= beforeval + 1;
-		if(FLCK_RWLOCK_UNLOCK > beforeval){
-			return EBUSY;
-		}
-		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
-			return EBUSY;
-		}
+		flck_rwlock_t	newval;
+		flck_rwlock_t	beforeval;
+		do{
+			// [NOTE]
+			// retry while only other readers changed the value, it is not busy.
+			//
+			beforeval	= *plockval;
+			newval		= beforeval + 1;
+			if(FLCK_RWLOCK_UNLOCK > beforeval){
+				return EBUSY;
+			}
+		}while(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval));
 		return 0;
 	}
 
-- 
2.43.0


From 67308fb540d8a2bf53e1e64875f99ac3aef776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 04/35] fix: fullock_rwlock_islocked ignores offset and length

---
 lib/flcklistfilelock.cc | 22 ++++++++++++++++++++++
 lib/flcklistfilelock.h  |  1 +
 lib/flckshm.cc          |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..6c61341 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -213,6 +213,28 @@ bool FlListFileLock::is_locked(void) const
 	return false;
 }
 
+//
+// Need to lock list before calling this.
+//
+bool FlListFileLock::is_locked(off_t offset, size_t length) const
+{
+	if(!pcurrent){
+		return false;
+	}
+	// check only offset locks which overlap the range
+	for(PFLOFFLOCK preltop = pcurrent->offset_lock_list; preltop; ){
+		FlListOffLock	tmpobj;
+		if(!tmpobj.find(offset, length, preltop)){
+			break;
+		}
+		if(tmpobj.is_locked()){
+			return true;
+		}
+		preltop = tmpobj.rel_next();
+	}
+	return false;
+}
+
 bool FlListFileLock::free_offset_lock_list(void)
 {
 	if(!pcurrent){
diff --git a/lib/flcklistfilelock.h b/lib/flcklistfilelock.h
index 0d9dfa9..7574051 100644
--- a/lib/flcklistfilelock.h
+++ b/lib/flcklistfilelock.h
@@ -69,6 +69,7 @@ class FlListFileLock : public fllistbasefilelock
 		}
 
 		bool is_locked(void) const;
+		bool is_locked(off_t offset, size_t length) const;
 		inline void set_protect(void) { if(pcurrent){ pcurrent->protect = true; } }
 		bool free_offset_lock_list(void);
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..23f9b42 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -864,7 +864,7 @@ bool FlShm::IsLocked(int fd, off_t offset, size_t length)
 		return false;
 	}
 
-	bool	result = tglistobj.is_locked();
+	bool	result = tglistobj.is_locked(offset, length);
 	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
 
 	return result;
-- 
2.43.0


From 122534c9a25fbadd1dcd3311f786f9646d8496ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 05/35] fix: a refused lock leaves its file and range locked
 forever

---
 lib/flcklistfilelock.cc | 2 ++
 lib/flcklistofflock.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 6c61341..a9709b5 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -104,6 +104,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;										// clear protect flag(set by caller)
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
@@ -117,6 +118,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 				if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
 					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
 				}
+				pcurrent->protect = false;										// clear protect flag(set by caller)
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..7575e9f 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;											// clear protect flag(set by caller)
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
@@ -130,6 +131,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
 				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
 			}
+			pcurrent->protect = false;											// clear protect flag(set by caller)
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
-- 
2.43.0


From 6aed9719249c4af54dc2546e043fa1a952ec67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 06/35] fix: removing a file entry loses a range entry of a
 call that is being refused

---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 23f9b42..f7e7fa4 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -768,6 +768,9 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t offset, size_t length, t
 		// check free
 		if(FlShm::IsFreeUnitFd()){
 			if(!tglistobj.is_locked()){
+				// free all(a failed lock call may not have freed its offset lock yet)
+				tglistobj.free_offset_lock_list();
+
 				// retrieve target list
 				if(tglistobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
 					// return object to free list
-- 
2.43.0


From a01ed56b8497fcf0801492234d4efa110529ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 07/35] fix: range lock of a terminated thread is never
 released

---
 lib/flckutil.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..9aef0f9 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -321,8 +321,9 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 	}else{
 		char	szPath[PATH_MAX];
 		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
-		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
-			// Need to check thread(process) running.
+		result = GetFileDevNode(szPath, devid, inodeid);
+		if(0 == result || EACCES == result){
+			// Need to check thread(process) running, because the fd is shared by all threads in process.
 			//
 			struct stat	st;
 			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-- 
2.43.0


From f917e572556d488c562447362f4b182edb00ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 08/35] fix: a terminated thread is taken for alive while its
 entry in /proc remains

---
 lib/flckutil.cc | 57 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 9aef0f9..2bdd7f0 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -50,6 +50,7 @@ typedef std::vector<std::string>				strlist_t;
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
 #define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
+#define	FLCK_PROC_STAT_PATH_FORM				"/proc/%d/task/%d/stat"
 
 //---------------------------------------------------------
 // Macros
@@ -241,6 +242,40 @@ bool MakeWorkDirectory(const char* pDirPath)
 // FindThreadProcess and GetFileDevNode functions for the load reduction
 // have the argument fl_pid_cache_map_t for cache.
 //
+
+// [NOTE]
+// The entry under /proc is left until the parent process waits for the terminated
+// process, and the entry of main thread is left until all other threads are terminated.
+// So that need to check the status of thread(zombie or dead).
+//
+static bool IsRunningThread(pid_t pid, tid_t tid)
+{
+	char		szPath[PATH_MAX];
+	struct stat	st;
+	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
+	if(-1 == stat(szPath, &st)){
+		return false;
+	}
+
+	int			fd;
+	sprintf(szPath, FLCK_PROC_STAT_PATH_FORM, pid, tid);
+	if(-1 == (fd = open(szPath, O_RDONLY | O_CLOEXEC))){
+		return (ENOENT != errno && ESRCH != errno);
+	}
+	char		szBuff[128];
+	ssize_t		length = read(fd, szBuff, sizeof(szBuff) - 1);
+	int			readerr= errno;
+	close(fd);
+	if(length <= 0){
+		return (0 == length || ESRCH != readerr);
+	}
+	szBuff[length] = '\0';
+
+	// "pid (command) status ...", and command may include any character.
+	const char*	pstatus = strrchr(szBuff, ')');
+	return (!pstatus || ' ' != pstatus[1] || ('Z' != pstatus[2] && 'X' != pstatus[2]));
+}
+
 bool FindThreadProcess(pid_t pid, tid_t tid, fl_pid_cache_map_t* pcache)
 {
 	bool	is_run = false;
@@ -250,14 +285,7 @@ bool FindThreadProcess(pid_t pid, tid_t tid, fl_pid_cache_map_t* pcache)
 		}
 	}
 
-	char		szPath[PATH_MAX];
-	struct stat	st;
-	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-	if(-1 == stat(szPath, &st)){
-		is_run = false;
-	}else{
-		is_run = true;
-	}
+	is_run = IsRunningThread(pid, tid);
 
 	if(pcache){
 		set_execution_cache(pcache, pid, tid, is_run);
@@ -307,13 +335,10 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		// When fd is FLCK_RWLOCK_NO_FD, it means rwlock with no-fd.
 		// On no fd mode, check only pid/tid.
 		//
-		char		szPath[PATH_MAX];
-		struct stat	st;
-		sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-		if(-1 == stat(szPath, &st)){
+		if(!IsRunningThread(pid, tid)){
 			devid	= FLCK_INVALID_ID;
 			inodeid	= FLCK_INVALID_ID;
-			result	= errno;
+			result	= ENOENT;
 		}else{
 			devid	= FLCK_EACCESS_ID;
 			inodeid	= FLCK_EACCESS_ID;
@@ -325,12 +350,10 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		if(0 == result || EACCES == result){
 			// Need to check thread(process) running, because the fd is shared by all threads in process.
 			//
-			struct stat	st;
-			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-			if(-1 == stat(szPath, &st)){
+			if(!IsRunningThread(pid, tid)){
 				devid	= FLCK_INVALID_ID;
 				inodeid	= FLCK_INVALID_ID;
-				result	= errno;
+				result	= ENOENT;
 			}
 		}
 	}
-- 
2.43.0


From 8b882effcb35eacd6e76e576c3dec242124c8daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 09/35] fix: death of a process is missed when the worker
 thread checks it too early

---
 lib/flckthread.cc | 16 +++++++++++++++-
 lib/flckthread.h  |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..b0def63 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -90,6 +90,7 @@ inline void set_exit_thread_cntrl_flag(volatile FlckThread::THCNTLFLAG* pflag)
 //---------------------------------------------------------
 const int	FlckThread::DEFAULT_INTERVALMS;
 const int	FlckThread::FLCK_WAIT_EVENT_MAX;
+const int	FlckThread::FLCK_RECHECK_COUNT;
 int			FlckThread::InotifyFd			= FLCK_INVALID_HANDLE;
 int			FlckThread::WatchFd				= FLCK_INVALID_HANDLE;
 int			FlckThread::EventFd				= FLCK_INVALID_HANDLE;
@@ -219,6 +220,7 @@ void* FlckThread::WorkerProc(void* param)
 	// do loop
 	struct timespec		sleepms = {(intervalms / 1000), (intervalms % 1000) * 1000 * 1000};
 	struct epoll_event  events[FLCK_WAIT_EVENT_MAX];
+	int					recheckcnt = 0;											// rest count of rechecking after CLOSE event
 	while(FlckThread::FLCK_THCNTL_EXIT > *pThFlag){
 		pthread_testcancel();												// check cancel
 
@@ -249,6 +251,11 @@ void* FlckThread::WorkerProc(void* param)
 						if(!LocalFlShm.CheckProcessDead()){
 							WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
 						}
+						// [NOTE]
+						// The file is closed before the process which is terminating is removed from /proc.
+						// Then it may be found running yet at here, thus it is checked again for a while.
+						//
+						recheckcnt = FlckThread::FLCK_RECHECK_COUNT;
 					}
 				}
 
@@ -260,7 +267,14 @@ void* FlckThread::WorkerProc(void* param)
 				// signal occurred.
 
 			}else{	// 0 == eventcnt
-				// timeouted, nothing to do
+				// timeouted
+				if(0 < recheckcnt){
+					--recheckcnt;
+					FlShm	LocalFlShm;
+					if(!LocalFlShm.CheckProcessDead()){
+						WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+					}
+				}
 			}
 		}
 	}
diff --git a/lib/flckthread.h b/lib/flckthread.h
index 67faf91..8eb009c 100644
--- a/lib/flckthread.h
+++ b/lib/flckthread.h
@@ -48,6 +48,7 @@ class FlckThread
 
 	protected:
 		static const int	FLCK_WAIT_EVENT_MAX	= 32;		// wait event max count
+		static const int	FLCK_RECHECK_COUNT	= 100;		// recheck count(every interval) after CLOSE event
 		static int			InotifyFd;
 		static int			WatchFd;
 		static int			EventFd;
-- 
2.43.0


From 3b1172274518090c9a46ed9f0935a3a1a365fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 10/35] fix: rwlock ranges with huge length are not recognized
 as overlapping

---
 lib/flcklistofflock.h | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/lib/flcklistofflock.h b/lib/flcklistofflock.h
index d12ed8f..354fdfd 100644
--- a/lib/flcklistofflock.h
+++ b/lib/flcklistofflock.h
@@ -106,29 +106,21 @@ class FlListOffLock : public fllistbaseofflock
 // cppcheck-suppress constParameterPointer
 inline int fl_compare_list_base(const PFLOFFLOCK psrc1, const PFLOFFLOCK psrc2)
 {
+	// [NOTE]
+	// Must not add offset and length, because it overflows with the length which means
+	// the end of file or more(SIZE_MAX etc).
+	//
 	int	result = 0;
 	if(psrc1->offset < psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) >= (psrc2->offset + psrc2->length)){
-			// psrc2 is inside the base
-			result = 0;
-		}else if((psrc1->offset + psrc1->length) > static_cast<size_t>(psrc2->offset)){
-			// psrc2 start is inside the base
-			result = 0;
-		}else{
+		if(psrc1->length <= (static_cast<size_t>(psrc2->offset) - static_cast<size_t>(psrc1->offset))){
 			// psrc2 start is outside the base, no overlap
 			result = 1;
 		}
 	}else if(psrc1->offset > psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) <= (psrc2->offset + psrc2->length)){
-			// the base is inside psrc2
-			result = 0;
-		}else if(static_cast<size_t>(psrc1->offset) < (psrc2->offset + psrc2->length)){
-			// the base start is inside psrc2
-			result = 0;
-		}else{
-			// psrc2 start is outside the base, no overlap
+		if(psrc2->length <= (static_cast<size_t>(psrc1->offset) - static_cast<size_t>(psrc2->offset))){
+			// the base start is outside psrc2, no overlap
 			result = -1;
 		}
 	}else{	// psrc1->offset == psrc2->offset
-- 
2.43.0


From b429f58752426f4c637e8582fca44ab8271ac0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 11/35] fix: cond timedwait relocks the mutex without time
 limit

The caller got ETIMEDOUT without owning the mutex when the mutex was
locked by another thread at the deadline.
---
 lib/flcklistwaiter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..b2fc592 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -91,9 +91,9 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 			result = fl_timedwait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP, &timeout);
 		}
 
-		// do lock named mutex
+		// do lock named mutex(caller must always own it after waiting)
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From a433c1360a5f4ba48926831427200d4be28d5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 12/35] fix: a cond waiter which is timed out does not consume
 a signal

The timed out waiter stayed in the list as waiting until it had locked
the mutex again, and a signal in the meantime was lost for the other
waiters.
---
 lib/flcklistwaiter.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index b2fc592..a3938cf 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -89,6 +89,17 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}else{
 			struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};
 			result = fl_timedwait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP, &timeout);
+			if(0 != result){
+				// This waiter must not take a signal from now on. If it has already been signaled, it is waked up by that signal.
+				flckpid_t	flckpid = get_flckpid();
+				fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// lock lockid
+				if(is_wait()){
+					fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
+				}else{
+					result = 0;
+				}
+				fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// unlock lockid
+			}
 		}
 
 		// do lock named mutex(caller must always own it after waiting)
-- 
2.43.0


From 838fc8b9072caf7bff1549b527628c822ba8b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:50 +0000
Subject: [PATCH 13/35] fix: do not use the thread id of the parent process in
 a forked child

---
 lib/flckutil.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 2bdd7f0..06c8d90 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -600,6 +600,21 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+
+				// [NOTE]
+				// The thread which is forking has another thread id in the child process,
+				// then its cached value must be cleared there.
+				//
+				if(0 != (result = pthread_atfork(NULL, NULL, FlTidCache::ForkHandler))){
+					ERR_FLCKPRN("Could not set handler for forking, error code=%d.", result);
+				}
+			}
+		}
+
+		static void ForkHandler(void)
+		{
+			if(FlTidCache::IsInit()){
+				pthread_setspecific(FlTidCache::GetTid(), NULL);
 			}
 		}
 
-- 
2.43.0


From 524214ec6dd041570b0cbc07ba2115895f07bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:31 +0000
Subject: [PATCH 14/35] fix: a forked child locks the shm file, and gets one
 worker thread

---
 lib/flckshm.cc     |  7 +++++--
 lib/flckshminit.cc | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index f7e7fa4..f039f43 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -625,11 +625,14 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //---------------------------------------------------------
 // FlShm : For Forking
 //---------------------------------------------------------
-// When the program which loads this fullock library is forked, we need to start worker thread
-// in child process.
+// When the program which loads this fullock library is forked, we need to lock the shm file
+// (the lock of the parent process is not inherited) and to start worker thread in child process.
 //
 void FlShm::PreforkHandler(void)
 {
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FileReadLock(FlShm::ShmFd, 0L, true)){
+		ERR_FLCKPRN("Could not lock read mode to shm file in child process(%d), but continue...", getpid());
+	}
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..929e604 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -215,14 +215,21 @@ bool FlShm::InitializeShm(void)
 			return false;
 		}
 
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
+	}
+
+	// [NOTE]
+	// When the program which loads this fullock library is forked, the child process must lock
+	// the file too(the lock of file is not inherited), and needs to start worker thread.
+	// Thus we set a handler at forking(only once), and it locks the file, initializes and runs
+	// thread in child process.
+	//
+	static bool	is_set_handler = false;
+	if(!is_set_handler){
 		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
 		if(0 != result){
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			is_set_handler = true;
 		}
 	}
 	return true;
-- 
2.43.0


From 6b969a6cfb1b7b38b5c266f0cd4c3f1b94720a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 15/35] fix: process which created the shm file waits for
 another process which locked it first

---
 lib/flckshminit.cc | 98 +++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 58 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 929e604..378ef23 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -134,69 +134,51 @@ bool FlShm::InitializeShm(void)
 			umask(old_umask);
 			return false;
 		}
-		umask(old_umask);
-
-		// check lock & locking
-		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
-		bool			isSuccess = false;
-		for(int cnt = 0; cnt < 100; cnt++){						// total 1s
-			// try to lock write mode
-			if(FileWriteLock(FlShm::ShmFd, 0L)){
-				// re-initialize file
-				if(!FlShm::InitializeShmFile()){
-					ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					break;
-				}
-				// Change lock mode to read mode
-				if(!FileReadLock(FlShm::ShmFd, 0L)){
-					ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-					break;
-				}
-				isSuccess = true;
+	}
+	umask(old_umask);
+
+	// check lock & locking
+	//
+	// [NOTE]
+	// The process which created the file is not always the first one which locks it.
+	//
+	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};			// 10ms
+	bool			isSuccess = false;
+	for(int cnt = 0; cnt < 100; cnt++){							// total 1s
+		// try to lock write mode
+		if(FileWriteLock(FlShm::ShmFd, 0L)){
+			// (re-)initialize file
+			if(!FlShm::InitializeShmFile()){
+				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
 				break;
+			}
+			// Change lock mode to read mode
+			if(!FileReadLock(FlShm::ShmFd, 0L)){
+				ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
+				break;
+			}
+			isSuccess = true;
+			break;
 
-			}else{
-				// try to lock read mode
-				if(FileReadLock(FlShm::ShmFd, 0L)){
-					// attach
-					if(!FlShm::Attach()){
-						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					}else{
-						isSuccess = true;
-					}
-					break;
+		}else{
+			// try to lock read mode
+			if(FileReadLock(FlShm::ShmFd, 0L)){
+				// attach
+				if(!FlShm::Attach()){
+					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+				}else{
+					isSuccess = true;
 				}
-				MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+				break;
 			}
-			nanosleep(&sleeptime, NULL);
-		}
-		if(!isSuccess){
-			ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
-
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
+			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
+		nanosleep(&sleeptime, NULL);
+	}
+	if(!isSuccess){
+		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
+		FlShm::Detach();
+		return false;
 	}
 
 	// run epoll thread
-- 
2.43.0


From b1d7c1c7bc40db187f1875bcd75242d9a9966896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 16/35] fix: making working directory succeeds when another
 process makes it at the same time

---
 lib/flckutil.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 06c8d90..beaf652 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -220,7 +220,11 @@ bool MakeWorkDirectory(const char* pDirPath)
 			}
 			// Make directory
 			mode_t	old_umask = umask(0);
-			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS)){
+			//
+			// [NOTE]
+			// Another process may make the same directory after above checking.
+			//
+			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS) && (EEXIST != errno || 0 != stat(fullpath.c_str(), &st) || 0 == (st.st_mode & S_IFDIR))){
 				WAN_FLCKPRN("Could not make directory(%s), errno=%d", fullpath.c_str(), errno);
 				umask(old_umask);
 				return false;
-- 
2.43.0


From e4d834b2cf44469b9a275b9ce5e45db3abdb7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:43 +0000
Subject: [PATCH 17/35] fix: do not attach to the shm file whose initialization
 was interrupted

---
 lib/flckshminit.cc | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 378ef23..13cdb7f 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -42,6 +42,23 @@ using namespace fullock;
 //---------------------------------------------------------
 #define	FLCK_SHM_PERMS				(S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
 
+//---------------------------------------------------------
+// Utility
+//---------------------------------------------------------
+// [NOTE]
+// If the process which is initializing file terminates halfway, the file is left incomplete.
+// The length in head is set at the end of initializing.
+//
+static bool IsCompletedShmFile(int fd)
+{
+	struct stat	st;
+	FLHEAD		head;
+	if(0 != fstat(fd, &st) || static_cast<ssize_t>(sizeof(FLHEAD)) != flck_pread(fd, &head, sizeof(FLHEAD), 0)){
+		return false;
+	}
+	return (sizeof(FLHEAD) <= head.flength && head.flength <= static_cast<size_t>(st.st_size));
+}
+
 //---------------------------------------------------------
 // FlShm : Initialize Methods
 //---------------------------------------------------------
@@ -163,13 +180,17 @@ bool FlShm::InitializeShm(void)
 		}else{
 			// try to lock read mode
 			if(FileReadLock(FlShm::ShmFd, 0L)){
-				// attach
-				if(!FlShm::Attach()){
-					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-				}else{
-					isSuccess = true;
+				if(IsCompletedShmFile(FlShm::ShmFd)){
+					// attach
+					if(!FlShm::Attach()){
+						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+					}else{
+						isSuccess = true;
+					}
+					break;
 				}
-				break;
+				// need to initialize, so retry
+				FileUnlock(FlShm::ShmFd, 0L);
 			}
 			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
@@ -267,7 +288,6 @@ bool FlShm::InitializeShmFile(void)
 	strcpy(FlShm::pFlHead->szver, FLCK_FILE_VERSION_STR);
 
 	FlShm::pFlHead->version					= FLCK_FILE_VERSION;
-	FlShm::pFlHead->flength					= sz_total;
 	FlShm::pFlHead->file_lock_lockid		= FLCK_INVALID_ID;
 	FlShm::pFlHead->file_lock_list			= NULL;
 	FlShm::pFlHead->named_mutex_lockid		= FLCK_INVALID_ID;
@@ -287,6 +307,11 @@ bool FlShm::InitializeShmFile(void)
 		FlShm::pFlHead	= NULL;
 		return false;
 	}
+
+	// set length at the end(means completion)
+	__sync_synchronize();
+	FlShm::pFlHead->flength					= sz_total;
+
 	return true;
 }
 
-- 
2.43.0


From 11e7c23495ab1ae93776dfa4a45cd2aab515bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 18/35] fix: fullock_reinitialize failed when it was the first
 call of the library

---
 lib/flckshm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index f039f43..a839201 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -326,6 +326,12 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// [NOTE]
+	// If this is the first call of this library, the singleton object must be made(and be
+	// initialized) before destroying. If not, it is initialized halfway of this method.
+	//
+	FlShm::InitializeSingleton(NULL);
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From ceeb3c19649ff791ce9a24ae36100ed568592d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 19/35] fix: fullock_reinitialize_ex checked the waiter count
 depending on the locker count

---
 lib/flckshm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index a839201..31f0a40 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -298,7 +298,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
-- 
2.43.0


From d568a9bad988d699a193589cdaf13127ae8d4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 20/35] fix: reinitializing did not reset the cond and waiter
 counts to default

---
 lib/flckshm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 31f0a40..ec65081 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -364,6 +364,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From 8c8dcc45d35c3e5f5908e2423cd0399ee1c0cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 21/35] fix: a path with too many .. was not refused

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index beaf652..8517ef0 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -159,7 +159,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From 88d61a30076936db521e62d76bf1c2e0a6e79643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 22/35] fix: an invalid shared file name left the library
 without the shared file

---
 lib/flckshm.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index ec65081..dbc5d1f 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -320,7 +320,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	if(!FLCKEMPTYSTR(filename)){
 		string	filepath = filename;
 		filepath = trim(filepath);
-		if(string::npos != filepath.find('/')){
+		if(filepath.empty() || string::npos != filepath.find('/')){
 			ERR_FLCKPRN("File name(%s) is invalid.", filename);
 			return false;
 		}
@@ -1212,8 +1212,9 @@ bool FlShm::LoadEnv(void)
 	}else{
 		string	filepath = pEnvVal;
 		filepath = trim(filepath);
-		if(string::npos != filepath.find('/')){
-			ERR_FLCKPRN("%s ENV has invalid file name(%s).", FlShm::FLCKFILENAME, pEnvVal);
+		if(filepath.empty() || string::npos != filepath.find('/')){
+			ERR_FLCKPRN("%s ENV has invalid file name(%s), then use default file name.", FlShm::FLCKFILENAME, pEnvVal);
+			FlShm::ShmFileName() = DEFAULT_SHM_FILENAME;
 		}else{
 			FlShm::ShmFileName() = filepath;
 			MSG_FLCKPRN("Set shmfile name(%s) by ENV(%s=%s).", FlShm::ShmFileName().c_str(), FlShm::FLCKFILENAME, pEnvVal);
-- 
2.43.0


From 22747415e40f9e9446131c1c3151dd2c0ea96439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 23/35] fix: in the retry modes only one of some threads could
 attach the shared file

---
 lib/flckshm.cc     | 15 +++++++++++++--
 lib/flckshm.h      |  1 +
 lib/flckshminit.cc |  7 +++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index dbc5d1f..6d5432c 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -188,6 +188,7 @@ size_t				FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
 size_t				FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 int					FlShm::ShmFd				= FLCK_INVALID_HANDLE;
+volatile bool		FlShm::IsAttached			= false;
 std::string*		FlShm::pShmDirPath			= NULL;
 std::string*		FlShm::pShmFileName			= NULL;
 std::string*		FlShm::pShmPath				= NULL;
@@ -656,11 +657,21 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 bool FlShm::CheckAttach(void)
 {
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+	if(FlShm::IsAttached){
 		return true;
 	}
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		if(FlShm::InitializeShm()){
+		// [NOTE]
+		// Some threads come here at the same time, so only one of them initializes
+		// and the others wait for its result.
+		//
+		static pthread_mutex_t	retry_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+		pthread_mutex_lock(&retry_mutex);
+		bool	result = (FlShm::IsAttached || FlShm::InitializeShm());
+		pthread_mutex_unlock(&retry_mutex);
+
+		if(result){
 			// Success to initialize
 			return true;
 		}
diff --git a/lib/flckshm.h b/lib/flckshm.h
index bd5b067..3be61e3 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -88,6 +88,7 @@ class FlShm
 
 		// Shared memory
 		static int				ShmFd;							// shm file descriptor
+		static volatile bool	IsAttached;						// shm file is mapped and usable
 		static std::string*		pShmDirPath;					// flck shm Directory path
 		static std::string*		pShmFileName;					// flck shm file name
 		static std::string*		pShmPath;						// flck shm file path
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 13cdb7f..75f1d9b 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -104,6 +104,8 @@ bool FlShm::Attach(void)
 
 bool FlShm::Detach(void)
 {
+	FlShm::IsAttached = false;
+
 	// munmap
 	if(!FlShm::pShmBase){
 		WAN_FLCKPRN("Already munmap.");
@@ -235,6 +237,11 @@ bool FlShm::InitializeShm(void)
 			is_set_handler = true;
 		}
 	}
+
+	// all members are set, then other threads can use the shm file
+	__sync_synchronize();
+	FlShm::IsAttached = true;
+
 	return true;
 }
 
-- 
2.43.0


From ccf8998508747685ee144bd9f17e391ca5674952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:04 +0000
Subject: [PATCH 24/35] fix: FLRwlRcsv used the global stack without its lock
 when changing the lock type

---
 lib/rwlockrcsv.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e5141a3..2d0f7aa 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -280,6 +280,11 @@ bool FLRwlRcsv::RawReadLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// lock mutex for global stack again(RawUnlock unlocks it when the rwlock is unlocked)
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_READ_LOCK;
 
@@ -368,6 +373,11 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// lock mutex for global stack again(RawUnlock unlocks it when the rwlock is unlocked)
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_WRITE_LOCK;
 
-- 
2.43.0


From a142173a8e3a73a46463cc6c19641625d13c68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:04 +0000
Subject: [PATCH 25/35] fix: FLRwlRcsv hung up when it restored reader locks
 after a failed writer lock

---
 lib/rwlockrcsv.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 2d0f7aa..1518656 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -453,6 +453,11 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				break;
 			}
 		}
+		// unlock mutex for global stack(it is locked in re-locking)
+		if(is_mutex_locked){
+			FLRwlRcsv::StackUnlock();
+			is_mutex_locked = false;
+		}
 		// re-lock pending list(and put into global stack)
 		for(flrwlrcsv_vec_t::iterator iter = PendingStack.begin(); iter != PendingStack.end(); ++iter){
 			(*iter)->has_locker	= false;
-- 
2.43.0


From d22be85d17ad2ebbe3da6c2cd2f96384e98c0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:04 +0000
Subject: [PATCH 26/35] fix: FLRwlRcsv left a destroyed object in the global
 stack when unlocking failed

---
 lib/rwlockrcsv.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 1518656..74c7fc4 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -106,7 +106,21 @@ FLRwlRcsv::FLRwlRcsv(int fd, off_t offset, size_t length, bool is_read) : lock_t
 FLRwlRcsv::~FLRwlRcsv(void)
 {
 	bool	is_mutex_locked = false;
-	RawUnlock(is_mutex_locked);
+	if(!RawUnlock(is_mutex_locked)){
+		// this object must not be left in global stack
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
+		for(flrwlrcsv_vec_t::iterator iter = FLRwlRcsv::Stack().begin(); iter != FLRwlRcsv::Stack().end(); ++iter){
+			// cppcheck-suppress unmatchedSuppression
+			// cppcheck-suppress useStlAlgorithm
+			if(this == (*iter)){
+				FLRwlRcsv::Stack().erase(iter);
+				break;
+			}
+		}
+	}
 
 	if(is_mutex_locked){
 		FLRwlRcsv::StackUnlock();
-- 
2.43.0


From f037f6612fa88d1ee5489a3071180543a8fe5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:27 +0000
Subject: [PATCH 27/35] fix: let a forked process open and map the lock file by
 itself

The file was shared with the parent process, so that it was not closed
when one of them died and no worker thread noticed the death.
---
 lib/flckshm.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 6d5432c..dd6338a 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -26,6 +26,8 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <limits.h>
 
 #include "flckcommon.h"
 #include "flckshm.h"
@@ -637,8 +639,34 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 // When the program which loads this fullock library is forked, we need to lock the shm file
 // (the lock of the parent process is not inherited) and to start worker thread in child process.
 //
+// And the child process must not share the opened file(and its mapping) with the parent process,
+// because the file is not closed(= the event does not occur) until all processes which share it exit.
+//
 void FlShm::PreforkHandler(void)
 {
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+		// open own file and map it again
+		char	szPath[PATH_MAX];
+		int		newfd;
+		sprintf(szPath, "/proc/self/fd/%d", FlShm::ShmFd);
+		if(FLCK_INVALID_HANDLE == (newfd = open(szPath, O_RDWR | O_CLOEXEC))){
+			ERR_FLCKPRN("Could not open shm file(%s) in child process(%d), errno=%d, but continue...", szPath, getpid(), errno);
+		}else{
+			void*	newbase = NULL;
+			if(FlShm::pShmBase && NULL == (newbase = RawMap(newfd, FlShm::pFlHead->flength, 0))){
+				ERR_FLCKPRN("Could not mmap shm file in child process(%d), but continue...", getpid());
+				FLCK_CLOSE(newfd);
+			}else{
+				if(newbase){
+					RawUnmap(FlShm::pShmBase, FlShm::pFlHead->flength);
+					FlShm::pShmBase	= newbase;
+					FlShm::pFlHead	= reinterpret_cast<PFLHEAD>(newbase);
+				}
+				FLCK_CLOSE(FlShm::ShmFd);
+				FlShm::ShmFd = newfd;
+			}
+		}
+	}
 	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FileReadLock(FlShm::ShmFd, 0L, true)){
 		ERR_FLCKPRN("Could not lock read mode to shm file in child process(%d), but continue...", getpid());
 	}
-- 
2.43.0


From f8fd0d71acf5d067d7db25c2ef9c584614f900de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:23 +0000
Subject: [PATCH 28/35] fix: do not pass the opened lock file to programs
 started by the process

A started program kept the file open after the process had died, so that
no worker thread noticed the death.
---
 lib/flckshminit.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 75f1d9b..e7413e6 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -141,14 +141,14 @@ bool FlShm::InitializeShm(void)
 	mode_t	old_umask = umask(FlShm::ShmFileUmask);
 
 	// test by creating
-	if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_EXCL, FLCK_SHM_PERMS))){
+	if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, FLCK_SHM_PERMS))){
 		if(EEXIST != errno){
 			ERR_FLCKPRN("Failed to open(create) %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
 			umask(old_umask);
 			return false;
 		}
 		// already file exists
-		if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR, FLCK_SHM_PERMS))){
+		if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CLOEXEC, FLCK_SHM_PERMS))){
 			ERR_FLCKPRN("Failed to open %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
 			umask(old_umask);
 			return false;
-- 
2.43.0


From 567d7c07e6060f6879990e648c853b9aeace31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 29/35] fix: a wait refused with EPERM could take a signal from
 a waiting thread

The waiter was in the list, marked as waiting, before the named mutex was
unlocked, and the signal was lost when unlocking failed.
---
 lib/flcklistncond.cc  | 11 +++++++++++
 lib/flcklistwaiter.cc | 41 +++++++++++++++++++++++++++++------------
 lib/flcklistwaiter.h  |  1 +
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 372236e..bc1b1ed 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -128,6 +128,17 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 			fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
+		// set wait status and unlock named mutex
+		if(0 != (result = tglistobj.begin_wait())){
+			ERR_FLCKPRN("Failed to begin to wait(error code=%d).", result);
+
+			// for recover
+			if(!tglistobj.cutoff_list(pcurrent->waiter_list) || !tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
+				ERR_FLCKPRN("Failed to insert waiter to free list, but continue...");
+			}
+			fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// unlock lockid
+			return result;
+		}
 		fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);				// unlock lockid
 
 		// do wait
diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index a3938cf..43128e2 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -49,6 +49,35 @@ void FlListWaiter::dump(std::ostream &out, int level) const
 	out << spacer1 << "}" << std::endl;
 }
 
+//
+// Set wait status and unlock named mutex.
+//
+// [NOTE]
+// Must call this method with locking named_cond_lockid, because this waiter
+// must not be signaled if named mutex could not be unlocked.
+//
+int FlListWaiter::begin_wait(void)
+{
+	if(!pcurrent || !pcurrent->named_mutex){
+		ERR_FLCKPRN("Object is not initialized or does not have valid named mutex.");
+		return EINVAL;						// EINVAL
+	}
+	FlListNMtx	tgnmtxobj(to_abs(pcurrent->named_mutex));
+
+	// set lock status to wait
+	fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);						// always returns 0
+
+	// do unlock named mutex
+	int	result;
+	if(0 != (result = tgnmtxobj.unlock())){
+		ERR_FLCKPRN("Could not unlock named mutex(error code=%d) for cond.", result);
+
+		// for recover
+		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
+	}
+	return result;
+}
+
 int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 {
 	if(!pcurrent){
@@ -71,18 +100,6 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 		FlListNMtx	tgnmtxobj(to_abs(pcurrent->named_mutex));
 
-		// set lock status to wait
-		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);					// always returns 0
-
-		// do unlock named mutex
-		if(0 != (result = tgnmtxobj.unlock())){
-			ERR_FLCKPRN("Could not unlock named mutex(error code=%d) for cond.", result);
-
-			// for recover
-			fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
-			return result;
-		}
-
 		// do wait
 		if(FLCK_NO_TIMEOUT == timeout_usec){
 			result = fl_wait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
diff --git a/lib/flcklistwaiter.h b/lib/flcklistwaiter.h
index dd244f7..f3856c5 100644
--- a/lib/flcklistwaiter.h
+++ b/lib/flcklistwaiter.h
@@ -70,6 +70,7 @@ class FlListWaiter : public fllistbasewaiter
 			return fllistbasewaiter::rfind(&tmp, preltop);
 		}
 
+		int begin_wait(void);
 		inline int wait(time_t timeout_usec = FLCK_NO_TIMEOUT) { return rawlock(FLCK_NCOND_WAIT, timeout_usec); }
 		inline int signal(void) { return rawlock(FLCK_NCOND_UP, FLCK_NO_TIMEOUT); }
 
-- 
2.43.0


From 229a7a31eaa34dd5f7d76cb29ee0b6a69b7836c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 30/35] fix: a wait refused with EPERM made the condition
 variable

---
 lib/flcklistnmtx.h | 9 +++++++++
 lib/flckshm.cc     | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/lib/flcklistnmtx.h b/lib/flcklistnmtx.h
index 270e61d..943cfed 100644
--- a/lib/flcklistnmtx.h
+++ b/lib/flcklistnmtx.h
@@ -87,6 +87,15 @@ class FlListNMtx : public fllistbasenmtx
 			return fllistbasenmtx::find(&tmp, preltop);
 		}
 
+		inline bool is_other_owner(flckpid_t flckpid) const
+		{
+			if(!pcurrent){
+				return false;
+			}
+			flck_mutex_t	lockval = pcurrent->lockval;
+			return (FLCK_MUTEX_UNLOCK != lockval && flckpid != lockval);
+		}
+
 		inline int lock(time_t timeout_usec = FLCK_NO_TIMEOUT) { return rawlock(FLCK_NMTX_LOCK, timeout_usec); }
 		inline int unlock(void) { return rawlock(FLCK_UNLOCK, FLCK_NO_TIMEOUT); }
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index dd6338a..99ce650 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -979,6 +979,12 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pcondname, const char* pmu
 			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// unlock mutex lockid
 			return EINVAL;						// EINVAL
 		}
+		if(tglistmtxobj.is_other_owner(flckpid)){
+			// check it before the named cond is made.
+			ERR_FLCKPRN("Named mutex(%s) for named cond(%s) is locked by another thread.", pmutexname, pcondname);
+			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// unlock mutex lockid
+			return EPERM;						// EPERM
+		}
 		fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);			// unlock mutex lockid
 
 		PFLNAMEDMUTEX	abs_nmtx = tglistmtxobj.get();
-- 
2.43.0


From 07f4d1e98668e38fcd6f36f733025f23ace396a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:42 +0000
Subject: [PATCH 31/35] fix: a range lock of a thread was taken away after the
 main thread of its process had ended

/proc/<pid>/fd is empty once the main thread has ended, so the descriptors
have to be looked up through the thread that holds the lock.
---
 lib/flckutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8517ef0..e5fce71 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -48,7 +48,7 @@ typedef std::vector<std::string>				strlist_t;
 // Symbols
 //---------------------------------------------------------
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
-#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/fd/%d"
+#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/task/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
 #define	FLCK_PROC_STAT_PATH_FORM				"/proc/%d/task/%d/stat"
 
@@ -349,7 +349,7 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		}
 	}else{
 		char	szPath[PATH_MAX];
-		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
+		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, tid, fd);
 		result = GetFileDevNode(szPath, devid, inodeid);
 		if(0 == result || EACCES == result){
 			// Need to check thread(process) running, because the fd is shared by all threads in process.
-- 
2.43.0


From 35e32a053d000f708023ef6c960bde572f0b3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:26 +0000
Subject: [PATCH 32/35] fix: FLRwlRcsv objects whose range ends beyond the
 offset type were not recognised as overlapping

The end of the range (offset + length) overflowed for lengths like SIZE_MAX, so a
second object of the same thread waited forever for the lock of the first one.
---
 lib/rwlockrcsv.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 74c7fc4..aace9dd 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -130,12 +130,16 @@ FLRwlRcsv::~FLRwlRcsv(void)
 bool FLRwlRcsv::compare(const FLRwlRcsv& other) const
 {
 	if(lock_tid == other.lock_tid && lock_fd == other.lock_fd){
+		// [NOTE]
+		// Must not add offset and length, because it overflows with the length which means
+		// the end of file or more(SIZE_MAX etc).
+		//
 		if(lock_offset <= other.lock_offset){
-			if(other.lock_offset < (lock_offset + static_cast<off_t>(lock_length))){
+			if((static_cast<size_t>(other.lock_offset) - static_cast<size_t>(lock_offset)) < lock_length){
 				return true;
 			}
 		}else{
-			if(lock_offset < (other.lock_offset + static_cast<off_t>(other.lock_length))){
+			if((static_cast<size_t>(lock_offset) - static_cast<size_t>(other.lock_offset)) < other.lock_length){
 				return true;
 			}
 		}
-- 
2.43.0


From 84904bc546529adededdb7a92c68fe184f388ce5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:20:50 +0000
Subject: [PATCH 33/35] fix: a buffer was lost when the worker thread was
 canceled in reading events

---
 lib/flckthread.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index b0def63..f182048 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -293,11 +293,19 @@ bool FlckThread::CheckEvent(int InotifyFd, int WatchFd)
 		return false;
 	}
 
+	// [NOTE]
+	// This thread can be canceled in reading, then the buffer for events is never freed.
+	// Thus canceling is blocked until it is freed.
+	//
+	int	old_cancel_state = PTHREAD_CANCEL_ENABLE;
+	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old_cancel_state);
+
 	// read inotify event
 	unsigned char*	pevent = NULL;
 	ssize_t			bytes;
 	if(-1 == (bytes = flck_read(InotifyFd, &pevent))){
 		MSG_FLCKPRN("read no inotify event, no more inotify event data.");
+		pthread_setcancelstate(old_cancel_state, NULL);
 		return false;
 	}
 
@@ -323,6 +331,7 @@ bool FlckThread::CheckEvent(int InotifyFd, int WatchFd)
 		}
 	}
 	FLCK_Free(pevent);
+	pthread_setcancelstate(old_cancel_state, NULL);
 
 	return retval;
 }
-- 
2.43.0


From 094c96d3f75b263638736d773c3c0aa1d719b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 34/35] fix: the worker thread which exited by itself was never
 joined

---
 lib/flckthread.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index f182048..04c3604 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -452,22 +452,23 @@ bool FlckThread::Exit(void)
 		ERR_FLCKPRN("No worker thread is initialized, must initialize worker.");
 		return false;
 	}
-	if(FlckThread::FLCK_THCNTL_EXIT <= thflag){
-		MSG_FLCKPRN("Already worker thread exit.");
-		return true;
-	}
 
-	// [NOTE]
-	// At first, send cancel request, next set flag.
-	// Because worker thread blocks cancel event in its loop, and make cancel point after breaking loop.
-	//
 	int	result;
-	if(0 != (result = pthread_cancel(pthreadid))){
-		ERR_FLCKPRN("Could not cancel thread by errno(%d)", result);
-		return false;
+	if(FlckThread::FLCK_THCNTL_EXIT <= thflag){
+		// The worker thread has exited by itself, but it must be joined yet.
+		MSG_FLCKPRN("Already worker thread exit.");
+	}else{
+		// [NOTE]
+		// At first, send cancel request, next set flag.
+		// Because worker thread blocks cancel event in its loop, and make cancel point after breaking loop.
+		//
+		if(0 != (result = pthread_cancel(pthreadid))){
+			ERR_FLCKPRN("Could not cancel thread by errno(%d)", result);
+			return false;
+		}
+		// set flag for exiting
+		set_exit_thread_cntrl_flag(&thflag);
 	}
-	// set flag for exiting
-	set_exit_thread_cntrl_flag(&thflag);
 
 	// loop for joining
 	struct timespec	sleeptime	= {0, 1000 * 1000};		// = 1ms
-- 
2.43.0


From 36b8a75613507852ac8f6118762beb288100bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:54 +0000
Subject: [PATCH 35/35] fix: crash when the current directory could not be
 determined for a relative directory path

---
 lib/flckshm.cc  | 8 ++++----
 lib/flckutil.cc | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 99ce650..3842693 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -307,14 +307,14 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		return false;
 	}
 	// check dirpath
+	string	newdirpath;
 	if(!FLCKEMPTYSTR(dirname)){
-		string	toppath;
-		if(!GetRealPath(dirname, toppath)){
+		if(!GetRealPath(dirname, newdirpath)){
 			ERR_FLCKPRN("Parameter directory path(%s) is invalid.", dirname);
 			return false;
 		}
 		// check & make dir
-		if(!MakeWorkDirectory(toppath.c_str())){
+		if(!MakeWorkDirectory(newdirpath.c_str())){
 			ERR_FLCKPRN("Directory path(%s) is invalid or no such directory(could not make it).", dirname);
 			return false;
 		}
@@ -382,7 +382,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 
 	// overwrite parameters
 	if(!FLCKEMPTYSTR(dirname)){
-		GetRealPath(dirname, FlShm::ShmDirPath());
+		FlShm::ShmDirPath() = newdirpath;
 	}
 	if(!FLCKEMPTYSTR(filename)){
 		FlShm::ShmFileName() = filename;
diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index e5fce71..cca1723 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -129,6 +129,10 @@ bool GetRealPath(const char* pPath, string& strreal)
 	string	tmppath;
 	if('/' != pPath[0]){
 		char*	cur = get_current_dir_name();
+		if(!cur){
+			ERR_FLCKPRN("Could not get current directory(errno=%d) for path(%s).", errno, pPath);
+			return false;
+		}
 		tmppath	= cur;
 		tmppath	+= "/";
 		tmppath	+= pPath;
-- 
2.43.0

