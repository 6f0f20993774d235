import re,json,os
V='/verif'
d=open(V+'/DESIGN.md').read()
d=d.replace(' (the main thread included: then `/proc/<pid>/fd`\nis gone, see finding 24)',' (the main thread included: then `/proc/<pid>/fd`\nis gone)').replace(', finding 24)',')')
d=d[:d.index('@@FINDINGS@@')] if '@@FINDINGS@@' in d else d[:d.index('## 5. Findings')]
o=['## 5. Findings','','`known-findings.txt` is the list the checks use. Every entry was reproduced on the real code: the failing schedule found by the checker, and for most','a small program or a forced schedule against the built library.','','### 5.1 Repaired (one `fix:` commit each; reverting any of them makes its check fail)','','| commit | property | what failed |','|---|---|---|']
known=[]
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: o.append('| %s | %s | %s |'%(m[2],m[1],m[3].replace('|','\\|')))
o+=['','### 5.2 Recorded, not repaired','',
'* **C03, overlapping ranges share one entry** (`rw-three-ranges`, `-nofree`, `-shared`; C04 `unl-chained`). The lock word of a range is that of the *first* entry it overlaps. With three ranges chained by overlap ([0,10), [5,15), [12,20)) two overlapping write locks',
'  can be granted together. A repair needs a different data structure (split ranges, or one lock over several entries) in the shared file; that is a redesign, not a small fix.',
'* **C15, overlapping ranges of FLRwlRcsv objects of one thread** (`overlap-tail`, `overlap-reader`). An object whose range overlaps another object of the thread only pends on that one, so the rest of its range is not locked. Repair needs further locks',
'  per object, i.e. a change of the layout (ABI) of a public class that user code instantiates, and runs into the first finding.',
'* **C09, death between taking a range lock and noting it** (`*-range*`). The lock word changes by compare-and-swap, the entry of the locker is marked a few instructions later. A process killed between the two leaves the word locked for ever; recovery cannot tell whether the dead',
'  locker was counted. Repair needs an intent mark with recovery that recounts the word from the entries of all lockers, which in turn needs every locker to be stopped; not small.',
'* **C09, death between giving a range lock up and noting it** (`unlocks-*`). The mirror image: recovery gives the lock up a second time, on behalf of a live holder.',
'','### 5.3 Considered and not findings','',
'Behaviour that looked odd and is documented, harmless, or unspecified, so that the properties were worded around it: unlock of a free mutex returns 0; a condition wait with a mutex locked recursively gives up one level; a wait with a free',
'mutex is accepted; descriptors made with the no-descriptor macro share one lock space; with RETRY modes and FLCKAUTOINIT=NO nothing is attached before a reinitialisation; modes set by an environment variable stay when the variable has disappeared at a',
'reinitialisation; timed and try calls never look for dead holders themselves (the watching thread does); the man page says FLCKAUTOINIT=YES *disables* initialisation (slip in the text); the size of one retried `read` is wrong after EAGAIN, which a regular file never returns;',
'modes set by the API before the first call that touches the library are replaced by `FLCK*` environment variables, which are read lazily at that first call; when the configured working directory cannot be made the documented default directory is used instead; when the write lock that guards formatting is refused (ENOLCK) for a file that another process left behind, the process attaches to it as it is.',
'','False alarms met on the way, and what was corrected: names were first required to differ beyond 63 characters (the structure holds 63; property reworded); an unlock through a closed descriptor was required to fail or succeed (unspecified; only harmlessness is required); ',
'EBUSY of a try call was first judged at one instant (now: at some moment during the call); the clock could jump over the deadline of a stopped waiter (the oracle now uses the instants it can see); the differences of the virtual kernel listed in section 4.',
'']
o+=['## 6. Planted bugs','','`seeded/<id>`: patch, demonstration, needs. Each was validated in a scratch copy (`tools/seed.sh`: demo clean = 0, planted != 0 three times, stable tests pass) and is caught by the quick check of its property.','','| id | property | needs | caught by (examples) |','|---|---|---|---|']
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/'+i+'/meta.json')); o.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'],caught.get(i,'')))
o+=['','Besides these, each fix was reverted once and its check failed, and ad-hoc mutants of most functions of `lib/` were tried while the checks grew; misses led to the scenario families `-mix-`, `waiter-*`, `worker-spawned-*`, `family-death-*`, `mutex-name-*`, `cap-unl-*`, `joins-*`, `moves-*`, `end-main-*`.','']
open(V+'/DESIGN.md','w').write(d+'\n'.join(o))
