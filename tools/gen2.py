prop("C07", "The locks of a terminated process are given back",
 "When a process that holds named mutexes or range locks terminates outside the library (reaped by its parent or not), a lock call without time limit on any of them (high robust mode) succeeds, whatever the recursion depth, the number of locks and waiters, the entry-freeing mode and the users the processes run as. With robust mode LOW or HIGH set at start the watching thread of any other attached process gives them back by itself (also when a program the dead process had started runs on), so try calls succeed too, and the entries of threads killed while they wait on a condition variable no longer take signals. A waiter whose mutex owner dies returns with the mutex. The entries of the dead process become available again, and recovery never takes away or disturbs a lock of a living thread.",
 ["schedules", "crash points", "histories"], "death of a holder after every history of lock/unlock by 2-3 processes up to a depth, and all interleavings of the death, the waiting calls, the recovery, the watching threads and live holders up to a deviation bound",
 "The tests kill no lock holder; recovery runs at the same time as other processes' calls on the same lists.", ["lib/flckshm.cc", "lib/flcklistofflock.cc", "lib/flcklistlocker.cc", "lib/flcklistnmtx.cc", "lib/flckthread.cc", "lib/flckutil.cc"],
 [("dead-owner scan of all entries", "lib/flckshm.cc CheckProcessDead, CheckFileLockDeadLock, CheckMutexDeadLock"), ("retry loop of robust HIGH lock calls", "lib/flcklistofflock.cc rawlock, lib/flcklistnmtx.cc rawlock"), ("worker thread woken by the closing of the shared file", "lib/flckthread.cc WorkerProc")], ["return values of lock calls after the death; capacity probes"])
prop("C08", "The locks of an ended thread or of a closed descriptor are given back",
 "When a thread ends while it holds named mutexes or range locks (its process lives on), or the descriptor a range lock was taken through is closed or reused for another file, a lock call without time limit by any other thread (high robust mode; for a descriptor: of a process that may look at the holder's descriptors) succeeds. Locks of the other threads of that process and locks taken through other descriptors stay in place.",
 ["schedules", "crash points", "histories"], "end of a thread after every history of lock/unlock by 2-3 threads up to a depth; closing, replacing (dup2) and closing of other descriptors, interleaved with waiting calls and live holders",
 "The tests never end a thread or close a descriptor that holds a lock.", ["lib/flckutil.cc", "lib/flcklistlocker.cc", "lib/flcklistofflock.cc", "lib/flcklistnmtx.cc", "lib/flckpidcache.h"],
 [("/proc/<pid>/task/<tid> and /proc/<pid>/fd/<fd> lookups, with a per-scan cache", "lib/flckutil.cc GetFileDevNode, FindThreadProcess")], ["return values of lock calls after the end of the thread"])
prop("C10", "Condition variables: no lost, doubled or invented wakeup",
 "A thread that waits on a named condition variable gives up the named mutex and begins to wait in one step: a signal or broadcast sent by anybody after that reaches it. One signal releases exactly one of the waiting threads (if there is one), a broadcast releases all of them and nothing else releases any; a signal without waiting thread is not remembered. A released wait returns 0 and its caller owns the mutex again, exclusively. Calls with a NULL name and waits with an unknown mutex (EINVAL) or one owned by another thread (EPERM) are refused and change nothing; waits and signals on differently named condition variables do not affect each other.",
 ["schedules", "programs"], "all interleavings of 1-3 waiting threads with 1-2 signalling or broadcasting threads in 1-3 processes (signals inside or outside the mutex, creation of the condition variable included), up to a deviation bound, with exact accounting of the wakeups",
 "A lost wakeup needs a signal in the few instructions around the start of a wait or between two signals; tests sleep to avoid exactly these schedules.", ["lib/flcklistncond.cc", "lib/flcklistwaiter.cc", "lib/flcklistwaiter.h", "lib/flckshm.cc"],
 [("the waiter entry is queued and marked waiting before the mutex is unlocked", "lib/flcklistncond.cc rawlock, lib/flcklistwaiter.cc rawlock"), ("signal picks one entry still marked waiting, under the condition spin lock", "lib/flcklistncond.cc rawlock")], ["return values of fullock_cond_*"], [("lockstatus", "waiting / released mark of a waiter entry", "lib/flckstructure.h FLWAITER")])
prop("C11", "Timed condition waits: truthful, in time, and always with the mutex",
 "A timed wait that nobody signals returns ETIMEDOUT, not before its timeout has elapsed and, when the mutex is free, not much after it. A timed wait that is signalled while it waits returns 0. In every case its caller owns the mutex when the call returns, also when another thread holds the mutex at the deadline. A wait that returns ETIMEDOUT has not used up a signal: a signal sent while another thread waits then releases that thread.",
 ["schedules", "inputs"], "all interleavings (with an explorer-controlled clock) of timed and untimed waiters with signals, broadcasts and owners of the mutex; timeouts below and above a second with every nanosecond-borrow situation of the clock",
 "The race between timeout and signal, and a busy mutex at the deadline, do not occur in the tests.", ["lib/flcklistwaiter.cc", "lib/flcklistncond.cc", "lib/flckbaselist.tcc", "lib/flckutil.h"],
 [("monotonic-clock waiting loop, then withdrawal from the list of waiting entries", "lib/flckbaselist.tcc fl_timedwait_cond, lib/flcklistwaiter.cc rawlock"), ("relock of the mutex without time limit", "lib/flcklistwaiter.cc rawlock")], ["return values and virtual time of return of fullock_cond_timedwait"])
prop("C13", "Start and end of processes: one common, complete lock area",
 "Processes that use the library for the first time at the same moment (working directory and shared file missing, present, or left behind by processes that died with locks), several threads of one process included, all end up on the same completely formatted lock area: no call fails or runs without a lock because of the race, and locks exclude across all of them. The area is never formatted while another process is attached, so a process that starts later finds the locks of the running ones, whatever sizes it is configured with. A process killed at any point of its start leaves nothing that keeps others from starting. When the last process is gone, the next one starts with every lock free.",
 ["schedules", "crash points", "configurations"], "all interleavings of 2-3 processes (and threads of one process) during their first call, of a start with the end or kill of the last user, and all points of death of a starting process (also struck while another process is in the middle of its own start), up to a deviation bound, for each state of the file left behind",
 "The tests start one process on an idle machine; every failure needs a second process within the same few system calls or a kill inside them.", ["lib/flckshminit.cc", "lib/flckutil.cc", "lib/flckshm.cc"],
 [("write lock of the file while formatting, read lock while attached, with a retry loop", "lib/flckshminit.cc InitializeShm"), ("length in the head set last; incomplete files are formatted again", "lib/flckshminit.cc InitializeShmFile, Attach"), ("creation of the directory", "lib/flckutil.cc MakeWorkDirectory")], ["return values of the first lock calls of every process; exclusion; capacity probes"], [("fcntl lock on the shared file", "who is attached", "lib/flckshminit.cc")])
prop("C14", "Fork: the child is a user of its own",
 "After fork() in a process that uses the library, locks taken by the child exclude and are excluded by everybody else like those of any process, also while others look for dead holders (the child's locks and those of its children are never mistaken for those of a dead thread). The child owns none of the locks its parent holds: it cannot release them (EPERM, EINVAL), gets EBUSY on try calls, and neither its end nor that of the parent releases a lock of the other. The shared file is not formatted again as long as the child uses it, also when its parent is gone. With robust mode LOW or HIGH set at start the child has its own watching thread, exactly one, and gives back locks of processes that die later; a forked process that dies is noticed by the watching threads of its parent, its children and its siblings as well.",
 ["schedules", "histories"], "all interleavings of a forking thread with its child, grandchild, sibling, threads of the child, other processes and newcomers, with end or death of the parent and of the child, up to a deviation bound",
 "One test forks, without a conflict between parent and child or a death.", ["lib/flckutil.cc", "lib/flckshm.cc", "lib/flckshminit.cc", "lib/flckthread.cc"],
 [("fork handlers: file lock, watching thread, cached thread id", "lib/flckshm.cc PreforkHandler, lib/flckthread.cc ReInitializeThread, lib/flckutil.cc get_threadid")], ["return values of lock calls of parent, child and others"])
prop("C16", "Configuration and reinitialisation take effect exactly, or not at all",
 "The sizes, names and modes in force after the first call of the library are those of the FLCK* environment variables, each replaced by its documented default when it is not set or out of its limits; after fullock_reinitialize(_ex) they are those of the parameters, then of the environment at that moment, then the defaults, whatever an earlier initialisation used, and also when this is the first call of the library. Exactly the configured number of each entry is available, the shared file is at the configured (normalised) place with the configured permissions, the entry-freeing and robustness modes are the configured ones. A reinitialisation with a number out of its limits, a file name that contains a slash or only blanks, or a directory that leads above the root or cannot be made returns false and changes nothing: the process stays attached and keeps its locks. After a reinitialisation the process shares its locks with exactly the processes attached to the same file, and leaves the users of the former file undisturbed. With FLCKAUTOINIT=NO no file is made before the reinitialisation.",
 ["inputs", "configurations", "histories"], "every environment variable with unset, empty, malformed, limit, out-of-limit and typical values, at start and at reinitialisation; all combinations of default/valid/invalid parameters and each at its limits; 19 directory forms x 10 file name forms at first call, later, and by environment; all histories of reinitialisations and lock calls of two processes over three files up to a depth; concurrent reinitialisations up to a deviation bound",
 "The tests use one or two configurations; an ignored, stale or half-applied value needs the other combinations and a second process to show.", ["lib/flckshm.cc", "lib/flckutil.cc", "lib/flckshminit.cc", "lib/fullock.cc"],
 [("environment reading", "lib/flckshm.cc LoadEnv"), ("parameter checks, detaching, values reset, attaching", "lib/flckshm.cc ReInitializeObject, InitializeObject"), ("path normalisation and directory creation", "lib/flckutil.cc GetRealPath, MakeWorkDirectory")], ["return values; capacity probes; place, size and permissions of the shared file; lock conflicts with other processes"])
prop("C17", "Without the shared file: every call answers at once as configured, and attaches when allowed",
 "As long as the shared file is not attached (FLCKAUTOINIT=NO, or it cannot be made), every lock, unlock, wait and signal call of the C interface returns at once with the answer of the FLCKNOMAPMODE mode in force (environment or fullock_set_nomap_*): success (0, and 'not locked' from fullock_rwlock_islocked) in the allow modes, ENOLCK (and 'locked') in the deny modes; a NULL mutex name is EINVAL. Once the file can be made, the next call attaches in the retry modes - exactly one attachment per process, also when several threads and processes call at the same moment, and every one of those calls then really locks - while in the other modes nothing is attached before a reinitialisation. A range call with an unusable descriptor gets the same allow or deny answer (islocked: not locked), and changes no lock and leaks no entry.",
 ["schedules", "inputs", "histories"], "all pairs of 18 calls x 10 mode settings x 2 reasons for the missing file x mode set by environment or call; all interleavings of 2-3 threads and processes attaching at the same moment, or while the obstacle is being removed, up to a deviation bound, with and without a watching thread",
 "The tests always have a shared file; concurrent first attachment in a retry mode needs a second thread within the attaching call.", ["lib/flckshm.cc", "lib/flckshminit.cc", "lib/fullock.cc"],
 [("attach on demand, one thread at a time", "lib/flckshm.cc CheckAttach"), ("answers without shared file", "lib/flckshm.cc RawLock, IsLocked")], ["return values of all calls; existence of the shared file; lock conflicts with another process"])
prop("C15", "FLRwlRcsv: recursive reader/writer lock objects",
 "FLRwlRcsv objects that one thread creates for the same range of the same descriptor share one range lock: no sequence of locking, changing between reading and writing, unlocking, re-targeting (Lock(fd, offset, length, type)) and destroying such objects by one thread ever blocks on that thread's own objects. As long as any of them is locked, other threads and processes are kept from write locking the range, and from read locking it as well once one of them was locked for writing (until the last one is unlocked, or the only remaining one is changed to reading); when the last one is unlocked or destroyed the range is free. The whole range of a locked object is protected, also when it overlaps the range of another object of the thread. (Changing from reading to writing gives the read lock up while it waits.) Objects of different threads of a process exclude each other and, on different ranges, do not disturb each other, also when they change type, fail or are destroyed at the same moment. A lock call that fails returns false and neither hangs nor harms other objects; an object whose descriptor was closed or reused can be destroyed safely.",
 ["schedules", "histories"], "every history of creation, locking, type changes, re-targeting, unlocking and destruction of 2-3 objects by one thread and by two threads or processes over one and two ranges up to a depth, against a reference model and an outsider's probes; all interleavings of nested, upgrading and downgrading objects of 2-3 threads and processes up to a deviation bound; failures injected by exhaustion and by closed or reused descriptors",
 "No test uses the class from two threads, or fails a call.", ["lib/rwlockrcsv.cc", "lib/rwlockrcsv.h"],
 [("process-wide list of objects under a spin lock; one master object per thread and range, others pending on it", "lib/rwlockrcsv.cc RawReadLock, RawWriteLock, RawUnlock")], ["return values of the object's methods; conflicts seen by an outsider through fullock_rwlock_try*"], [("Stack", "objects that hold a range lock", "lib/rwlockrcsv.cc")])
prop("C09", "Death inside a library call",
 "A process that is killed at any point inside a mutex, range lock, unlock or condition call - while it creates, queues, waits, takes, times out, fails or gives back - leaves the lock area usable for everybody else (high robust mode): every later lock call without time limit on that and any other object returns, no lock remains held by the dead process, no lock of a live holder is released or shared because of it, and no call of a live process fails, hangs or touches memory outside the lock area.",
 ["schedules", "crash points"], "kill of a process at every scheduling point of mutex, range lock/try/timed/unlock calls (all entry-freeing modes, alone, among other entries, beside one or two processes using the same object, while the lock is held by others) followed by use of the same and other objects by the survivors",
 "A kill inside a call cannot be placed by a test; the dangerous windows are a few instructions long.", ["lib/flckbaselist.tcc", "lib/flcklistofflock.cc", "lib/flcklistfilelock.cc", "lib/flcklistnmtx.cc", "lib/flckshm.cc"],
 [("list locks are taken over from dead owners", "lib/flckbaselist.tcc fl_lock_lockid"), ("entries of dead lockers are removed", "lib/flcklistofflock.cc check_dead_lock"), ("mutexes of dead owners are unlocked", "lib/flcklistnmtx.cc check_dead_lock")], ["return values and progress of the survivors' calls"])
prop("C19", "Diagnostics go where asked, show what is asked for, and never change an outcome",
 "Whatever FLCKDBGMODE (SILENT, ERR, WAN, INFO in any case; anything else is silent) and FLCKDBGFILE (unset, a usable file, a file that cannot be opened) or SetFlckDbgMode, BumpupFlckDbgMode, SetFlckDbgFile, UnsetFlckDbgFile and LoadFlckDbgEnv ask for, every lock, unlock, wait and signal call has the same results and effects as with no diagnostics at all. Only messages of the asked severities are written, only to the debug file (to standard error when there is none or it cannot be opened), never into an application's file; a higher mode shows everything a lower one shows. Mode setters return the previous mode, bumping goes SILENT, ERR, WAN, INFO, SILENT; setting a file that cannot be opened returns false; a replaced or unset debug file is closed exactly once and not written any more.",
 ["inputs", "histories", "schedules"], "all histories of mutex, range lock, condition and object calls, by several threads and processes, run under every mode x destination and compared call by call with the same history without diagnostics; all histories of the diagnostic control calls against a reference model; interleavings of contention, start, recovery, waiting and fork with all messages switched on",
 "The tests run silently; a message that dereferences, formats or locks something, or goes to a closed stream, only matters on the path and in the mode that emits it.", ["lib/flckdbg.cc", "lib/flckdbg.h"],
 [("mode mask compared by message macros", "lib/flckdbg.h"), ("debug file and environment", "lib/flckdbg.cc LoadFlckDbgEnv, SetFlckDbgFile")], ["return values of all calls; number of messages per file and severity; streams used after they were closed"])
prop("C20", "Every waiting call gets through",
 "A lock call without time limit (mutex, read lock, write lock; descriptor or no-descriptor ranges) returns successfully once no other thread holds a conflicting lock: after any history of lock, unlock, timed lock and expiry by the threads of several processes, exactly those calls still wait that conflict with a lock that is held at that moment, several readers are let in together, and every call that may proceed does, in every freeing mode. Timed calls return by the end of their time, unlock calls always return at once, and nobody needs a further call by another thread to notice a release. In the high robust mode the same holds after the death of holders and of waiting processes.",
 ["histories", "crash points"], "all histories of blocking, timed and unlock calls, time expiries and (high robust mode) deaths of processes by three agents in 1-3 processes to a depth; after every step all threads run until none can move, then the set of waiting calls must equal the set of calls that conflict with the model; at the end everything is given back and every call must have returned",
 "Tests have one waiter and one release; a lost wakeup or a lock word that stays off by one shows only in particular histories of waiting callers.", ["lib/flckbaselist.tcc", "lib/flcklistofflock.cc", "lib/flcklistfilelock.cc", "lib/flcklistnmtx.cc", "lib/flckshm.cc"],
 [("lock words of mutexes and range locks", "lib/flckbaselist.tcc fl_lock_mutex, fl_rdlock_rwlock, fl_wrlock_rwlock"), ("looking for dead holders while waiting", "lib/flcklistnmtx.cc rawlock, lib/flcklistofflock.cc rawlock")], ["which calls have returned when no thread can move; return values"])
prop("C21", "Calls leave nothing behind in the process",
 "Repeating calls does not use up the process: whatever calls are made - locks, refused, timed and failed calls, condition waits, FLRwlRcsv objects, reinitialisations that succeed or are refused, changes of the robust mode, threads and forked children that come and go, deaths of lock holders - and whether or not the shared file can be had, making the same calls again leaves the process with as many open descriptors, mappings, threads (running, and ended but never joined), inotify watches, registered handlers (fork, exit, thread keys), files and as much allocated memory as before, and its umask is unchanged. A process whose threads make their first calls at the same time, or while other processes attach and end, holds as many of them as one that attached alone.",
 ["histories", "schedules"], "every history of up to 2-4 calls (22 kinds, in five environments) is run three times over; the resources of the process after the second and the third time must be equal; concurrent attachment and reinitialisation up to a deviation bound",
 "A leak on a rare path (a refused call, an upgrade, a reinitialisation with a running watching thread, a failed attach) never fails a test; it kills a long-running server.", ["lib/flckshm.cc", "lib/flckshminit.cc", "lib/flckthread.cc", "lib/flckutil.cc", "lib/rwlockrcsv.cc"],
 [("attach, detach, error paths", "lib/flckshminit.cc InitializeShm, Detach; lib/flckshm.cc ReInitializeObject"), ("watching thread and its descriptors", "lib/flckthread.cc"), ("work buffers", "lib/flckutil.cc")], ["descriptors, mappings, threads, watches, handlers, files, umask and allocated memory of the process in the virtual kernel"])
prop("C22", "A refused system call does no lasting harm",
 "When the operating system refuses one of the calls the library makes for itself (opening or creating the shared file, its directory or a file of /proc; locking, sizing, writing, reading or mapping it; making a thread, an epoll or inotify descriptor or a watch; an interrupted read) during an attachment, a reinitialisation, a fork, a search for dead holders or the watching of processes, the call in progress either succeeds or answers a documented error, and nothing else happens: the process does not crash or hang, its umask, descriptors, mappings and threads are as without the refusal, the next call works by the retry mode (and works under every mode after a reinitialisation), other processes are not disturbed and meet the process in the same file, exclusion is kept, the lock of a living holder is never taken, and the lock of a dead one is given back all the same.",
 ["crash points", "schedules"], "exactly one refusal at every position of the sequence of system calls (up to 34 positions; every call of the library that can be refused is listed in DESIGN.md), for every robust mode, retry mode, and a file that is new, in use or left behind, with the schedules up to the deviation bound",
 "Descriptor or memory shortage and interrupted calls happen to production servers; no test provokes them at each single call.", ["lib/flckshminit.cc", "lib/flckshm.cc", "lib/flckthread.cc", "lib/flckutil.cc"],
 [("attach and its error paths", "lib/flckshminit.cc InitializeShm, InitializeSheredMemory; lib/flckshm.cc ReInitializeObject"), ("watching thread start and loop", "lib/flckthread.cc InitializeThread, WorkerProc, CheckEvent"), ("search for dead holders", "lib/flckutil.cc, lib/flckthread.cc FindThreadProcess")], ["result of the call and of the next ones, resources of the process, exclusion and recovery after exactly one refused system call"])
NA = []
