import subprocess, json
m={ # subject prefix -> (property, what failed)
"linked queue returns":("C02","Dequeue returned the successor of the oldest element and recycled nodes kept stale links"),
"linked stack pops":("C03","Pop removed the wrong element and lost the rest"),
"linked list keeps":("C06","Insert/Remove left Len and the tail inconsistent, out-of-range indexes changed Len or panicked"),
"deque resets":("C05","emptying the deque from one end lost or duplicated elements, recycled blocks kept stale elements"),
"ring queue allocates":("C01","the ring of capacity n held n-1 elements (capacity 1 held none)"),
"Splice does not write":("C08","Splice wrote into the spare capacity of the caller's argument slice"),
"Delete ignores":("C08","Delete(MaxInt) panicked on i+1 overflow"),
"DeleteReplace":("C08","DeleteReplace panicked for an index at the end and for an empty slice"),
"Rotate accepts":("C10","Rotate(MinInt) panicked"),
"Repeat treats":("C10","Repeat(n<0) panicked"),
"Split cuts":("C11","Split with a size that overflows the position panicked"),
"skip-list iterator keeps":("C13","Next after the last entry restarted or panicked"),
"Sort honours":("C18","Sort(reverse=true) sorted ascending"),
"Lock does not spin":("C21","Lock spun forever and changed the pointed-to value"),
"a second termination":("C25","a second signal closed the closed channel: panic"),
"CloseManager.Close returns nil":("C27","Close returned a non-nil error holding a nil list"),
"a dropped write does":("C28","C28 and C29: a dropped write consumed a ticket so that the reader waited forever for its slot"),
"preheating does":("C24","preheating started more workers than the limit"),
"a preheated worker":("C24","Stop replaced the channel under a starting worker, which then never ended"),
"Stop drains":("C23","C23 and C24: Stop returned before accepted tasks could be handled, a second Stop blocked forever"),
"converters of interface":("C32","all interface types shared one registry key"),
"a converter may":("C32","a converter that used the registry deadlocked"),
"short or misaligned":("C34","short or misaligned ciphertexts panicked"),
"a password longer":("C35","a password of more than 72 bytes verified if its first 72 bytes matched"),
"intersection counts":("C39","touching intervals gave results depending on argument order"),
"intersection tolerates":("C39","an odd number of intervals tolerated one falseticker too few"),
"a wakeup reaches":("C40","Wakeup raced with the sleeper on its context and could be lost"),
"SleepUntil honours":("C40","SleepUntil of a time with a monotonic reading returned early when the wall clock jumped ahead"),
"the time differ":("C41","GetDiff was measured with the wall clock: negative when the clock was set back between Start and End"),
"the module tools":("C43","the command was run twice in an unreadable directory, and in the starting directory for one that cannot be entered"),
"a long sleep":("C40","SleepFor of more than 9223372036 seconds overflowed and returned at once"),
}
fixed=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    k=[x for x in m if s.startswith(x)]
    assert len(k)==1,(s,k)
    p,w=m.pop(k[0])
    fixed.append(f"fixed: property={p} {h} {w}")
assert not m,m
try: old=json.load(open("/verif/known-findings.json"))
except FileNotFoundError: old={"findings":[]}
json.dump({"findings":old["findings"],"fixed":fixed},open("/verif/known-findings.json","w"),indent=1)
