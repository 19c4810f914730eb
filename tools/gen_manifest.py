#!/usr/bin/env python3
# Writes MANIFEST.json: claimed properties are those with a harness function
# Cnn_* under harness/; the rest are listed as not applicable with the reason
# in NA (or "no harness yet").
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in glob.glob(V+'/harness/c_*/*.go'):
    have|=set(re.findall(r'^func (C\d\d)_',open(f).read(),re.M))
NA={}
NOTE={}
exec(open(V+'/tools/notes.py').read())
base=("Bounded: every path of the harness over the real code (Go SSA built from /repo on each run) is executed symbolically; each assertion, panic and "
 "branch is decided by z3 (cvc5 cross-checks) for all values of the symbolic inputs within the bounds given in the evidence file. Counterexamples are replayed "
 "against the compiled code. Trusted: the engine in /verif/engine, go/ssa, the solvers, and the stubs listed in the evidence. ")
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "technique":"symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, cvc5)","level":"model_checking",
          "level_note":(base+NOTE.get(i,"")).strip()})
    else:
        na.append({"property":i,"reason":NA.get(i,"No harness yet; not claimed.")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses are overlaid as packages zzverif/* (go list -overlay), nothing is written to /repo."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
