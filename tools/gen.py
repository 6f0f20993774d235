#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append((id, dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))))
SCH = "The tests run one or two real schedules on an idle machine; the guarantee is about every interleaving of the instructions of the threads and processes involved."

prop("C01", "Named mutex: mutual exclusion across threads and processes",
 "At any moment at most one thread of all processes attached to the same shared file holds the named mutex of a given name (of any length; names are told apart by their first 63 characters), whichever call (lock, trylock, timedlock, or the relock at the end of a condition wait) granted it. A granted lock stays granted until its holder unlocks it or is gone.",
 ["schedules", "programs"], "all interleavings of up to 3 threads in up to 3 processes using any mix of blocking, try, timed and recursive acquisition, in every robustness mode, up to a deviation bound",
 SCH, ["lib/flckbaselist.tcc", "lib/flcklistnmtx.cc", "lib/flckshm.cc", "lib/flckutil.h"],
 [("compare-and-swap of the packed owner id in the mutex word; recursion counter changed only by the owner", "lib/flckbaselist.tcc fl_*lock_mutex"), ("name lookup/creation under a global spin lock", "lib/flckshm.cc FlShm::RawLock(name)")],
 ["return values of fullock_mutex_*"], [("lockval/lockcnt", "owner id and recursion depth of a named mutex", "lib/flckstructure.h FLNAMEDMUTEX")])
prop("C02", "Named mutex: recursive, and only its owner can release it",
 "A thread that holds a named mutex can acquire it again by any call, and it stays locked against all other threads until it has been unlocked exactly as many times as it was acquired. An unlock by a thread that is not the owner fails with EPERM and changes nothing; an unlock of a free mutex has no effect.",
 ["histories", "schedules"], "all call histories (lock, trylock, timedlock, unlock by 2-3 agents in 1-3 processes) up to a depth, with exact state matching against a reference model, and all interleavings of foreign unlocks with a holder",
 "The tests never lock a mutex recursively and never unlock a mutex they do not hold.", ["lib/flckbaselist.tcc", "lib/flcklistnmtx.cc"],
 [("owner comparison and recursion counter", "lib/flckbaselist.tcc fl_unlock_mutex, fl_lock_mutex")], ["return values of fullock_mutex_*"])
prop("C03", "Range locks: writers exclude everyone, readers share",
 "Two locks on overlapping byte ranges of the same file are never held at the same time unless both are read locks, whatever the processes, threads, descriptors and calls (blocking, try, timed) that obtained them. Any number of read locks can be held together.",
 ["schedules", "programs"], "all interleavings of 2-3 threads in 1-3 processes with every mix of read/write and blocking/try/timed locks over equal, nested and partially overlapping ranges, in each entry-freeing mode and robustness mode, up to a deviation bound",
 SCH, ["lib/flckbaselist.tcc", "lib/flcklistofflock.cc", "lib/flcklistfilelock.cc", "lib/flckshm.cc"],
 [("reader/writer counter word changed by compare-and-swap", "lib/flckbaselist.tcc fl_*_rwlock"), ("range entries shared by overlapping ranges, protected from removal while in use", "lib/flcklistofflock.cc rawlock, lib/flcklistfilelock.cc rawlock")],
 ["return values of fullock_rwlock_*"], [("lockval", "reader count / writer flag", "lib/flckstructure.h FLOFFLOCK")])
prop("C04", "Range locks: unlock releases exactly one own lock",
 "An unlock releases exactly one lock that the calling thread took through the same descriptor on that range, and leaves every other lock in place. If the caller has no such lock the call returns EINVAL and nothing changes.",
 ["histories", "schedules"], "all call histories of read/write lock, try, unlock by 2-3 agents (threads, processes, descriptors, ranges) up to a depth with exact state matching against a reference model, and interleavings of bogus unlocks with holders",
 "The tests pair every lock with one matching unlock; histories with repeated, missing or foreign unlocks are never run.", ["lib/flcklistofflock.cc", "lib/flcklistlocker.h", "lib/flcklistfilelock.cc"],
 [("one locker entry per granted lock, searched by thread, descriptor and locked flag", "lib/flcklistofflock.cc rawlock (unlock), lib/flcklistlocker.h find")], ["return values of fullock_rwlock_unlock and of later lock calls"])
prop("C05", "Locks on different objects are independent",
 "Locks on different mutex names, on different files, on disjoint ranges of one file, and on a condition variable and a mutex with the same name never block, release or fail each other. Descriptors of the same file address the same locks; values made with the no-descriptor macro form one lock space apart from all files.",
 ["histories", "schedules", "inputs"], "all call histories over several files, ranges, names and descriptors up to a depth against a reference model, and all interleavings of two threads working on different objects",
 "The tests use a single file, a single range and a single name at a time.", ["lib/flckutil.cc", "lib/flcklistfilelock.h", "lib/flcklistofflock.h", "lib/flcklistnmtx.h", "lib/flckshm.cc"],
 [("lookup by device and inode, by range overlap, by name", "lib/flcklistfilelock.h find, lib/flcklistofflock.h find, lib/flckutil.cc GetFileDevNode")], ["return values of all lock calls"])
prop("C06", "Try and timed calls return truthfully and in time",
 "A try call returns at once: success if the lock is available, EBUSY only if a conflicting lock is held (or being taken) at some moment during the call. A timed call on a lock that stays unavailable returns ETIMEDOUT, never before its timeout has elapsed and not much after it; on a lock that becomes available in time it succeeds; it never leaves a partial lock behind when it fails.",
 ["schedules", "inputs"], "all interleavings (with an explorer-controlled clock) of try/timed calls against holders that keep, release or are about to take the lock; timeouts below and above a second, with every nanosecond-borrow situation of the clock",
 "The tests check one timeout value on one schedule; wrong elapsed-time arithmetic needs particular clock values.", ["lib/flckbaselist.tcc", "lib/flckutil.h", "lib/flcklistofflock.cc", "lib/flcklistnmtx.cc"],
 [("monotonic-clock waiting loops", "lib/flckbaselist.tcc fl_timed*"), ("timespec subtraction/comparison", "lib/flckutil.h")], ["return values and virtual time of return of try/timed calls"])
prop("C12", "Capacity: entries are neither lost nor leaked, exhaustion is harmless",
 "In every entry-freeing mode, after all locks are released (and after calls that were refused or timed out) the configured number of files, ranges, lock entries, mutex names and condition waiters is available again, except that the modes documented to keep range or file entries keep them. When no entry is left the call returns ENOLCK and changes nothing: locks already held stay held, objects that were not locked stay unlocked, and later calls succeed as soon as entries are free.",
 ["histories", "schedules", "configurations"], "all call histories over configurations with minimal capacities up to a depth against a reference model of the entry counts, and all interleavings of lock, failing try, timed and unlock calls followed by a probe of every capacity",
 "The tests run with thousands of entries and never exhaust any of them, so a leak or a damaged free list stays invisible.", ["lib/flckshm.cc", "lib/flcklistfilelock.cc", "lib/flcklistofflock.cc", "lib/flcklistncond.cc", "lib/flckbaselist.tcc"],
 [("free lists in the shared file; removal of unlocked entries on unlock and after failed calls", "lib/flckshm.cc RawLock, lib/flcklistfilelock.cc rawlock, lib/flcklistofflock.cc rawlock"), ("waiter entries", "lib/flcklistncond.cc")], ["return values of lock calls; capacity probes"])
prop("C18", "islocked reports exactly the locks on the asked range",
 "The is-locked query returns true exactly when some thread holds a lock overlapping the asked range of that file (or a lock call on it is in progress), and never changes any lock. While a lock is held continuously it never reports false for its range, and a range nobody locked is never reported locked.",
 ["histories", "schedules"], "all call histories up to a depth with a query after each step against a reference model, and interleavings of queries with holders and failing callers",
 "The tests never call the query.", ["lib/flckshm.cc", "lib/flcklistfilelock.cc", "lib/flcklistofflock.h"],
 [("scan of overlapping range entries under the file-lock spin lock", "lib/flckshm.cc IsLocked, lib/flcklistfilelock.cc is_locked")], ["return value of fullock_rwlock_islocked"])
exec(open(os.path.join(V, "tools", "gen2.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen2.py")) else None

ASSUME = "Bounded: small thread/process counts and a bound on deviations from run-to-block scheduling (quick 1-4, thorough deeper; per scenario in the evidence). Assumes sequentially consistent memory, the virtual kernel of engine/venv.cc, and scheduling points only at conflicting accesses."
NOTE = {}
for k in ("C02", "C04", "C05", "C07", "C08", "C12", "C15", "C16", "C18"): NOTE[k] = "Explicit-state enumeration of all call histories up to the stated depth on the real code against a reference model (exact whole-state matching), plus exhaustive interleavings. "
TECH = {}
def main():
    P.sort()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for _, p in P: f.write(json.dumps(p) + "\n")
    checks = [dict(property=i, quick_cmd=f"./mc check {i} --tier quick", thorough_cmd=f"./mc check {i} --tier thorough",
      technique=TECH.get(i, "stateless model checking of the compiled library under a controlled scheduler and virtual kernel" + (" + explicit-state enumeration of call histories" if i in NOTE else "")), level="model_checking",
      level_note=NOTE.get(i, "Exhaustive enumeration of schedules of the real compiled code within the bounds. ") + ASSUME) for i, _ in P]
    m = dict(version=1, setup_cmd="./mc build", checks=checks, not_applicable=NA, notes="No hooks in /repo: the checker compiles /repo/lib with clang's thread-sanitizer instrumentation against its own runtime and renames libc symbols to a virtual kernel. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
NA = globals().get("NA", [])
main()
