#!/usr/bin/env python3
"""seed.py FILE...: makes /verif/seeded/<id>/ from seed descriptions.

A description is a python file that sets id, prop, needs, breaks, edits (list of
(file, old, new[, occurrence])) and demo (Go source of a main package, or of an
in-package test when it starts with "// test <dir>"). Each seed is checked in a
scratch copy of /repo: applies, builds, passes the stable tests, and the demo
passes without and fails with it."""
import json,os,shutil,subprocess,sys,tempfile
ENV=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off")
DEMO_MAIN='''#!/bin/sh
# exit 0 when the property holds in the tree below the current directory
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=/root
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$d" > "$t/overlay.json"
go build@RACE@ -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
src=$PWD
cd "$t" && ZZSRC="$src" timeout 120 ./demo
'''
DEMO_TEST='''#!/bin/sh
# exit 0 when the property holds in the tree below the current directory
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=/root
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/@DIR@/zzdemo_test.go":"%s/demo.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 200 go test@RACE@ -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./@DIR@
'''
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=ENV,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
stable=[t if isinstance(t,str) else t for t in json.load(open('/opt/vp/BASELINE.json')).get('stable',[])] if os.path.exists('/opt/vp/BASELINE.json') else []
def do(f):
    g={"race":False}
    exec(open(f).read(),g)
    sid,out=g['id'],'/verif/seeded/'+g['id']
    w=tempfile.mkdtemp(prefix='seed-',dir='/tmp'); r=w+'/repo'
    try:
        sh(f'cp -a /repo {r}',w)
        for e in g['edits']:
            p=r+'/'+e[0]; s=open(p).read()
            n=s.count(e[1])
            if n!=1 and len(e)<4: return f'{sid}: FAILED: text occurs {n} times in {e[0]}'
            if len(e)<4: s=s.replace(e[1],e[2])
            else:
                i=-1
                for _ in range(e[3]+1): i=s.index(e[1],i+1)
                s=s[:i]+e[2]+s[i+len(e[1]):]
            open(p,'w').write(s)
        sh('gofmt -w '+' '.join({e[0] for e in g['edits']}),r)
        diff=sh('git diff',r).stdout
        # only original lines may change
        for fn in {e[0] for e in g['edits']}:
            rm=[l for l in sh(f'git diff -U0 {fn}',r).stdout.splitlines() if l.startswith('@@')]
            ok=False
            for h in rm:
                a=h.split()[1][1:]; st,_,n=a.partition(','); n=int(n or 1)
                for k in range(n):
                    b=sh(f'git blame -L {int(st)+k},{int(st)+k} HEAD -- {fn}',r).stdout
                    if b.startswith('^'): ok=True
            if rm and not ok: return f'{sid}: FAILED: changes no original line of {fn}'
        b=sh('go build ./... && go vet ./... >/dev/null; go build ./...',r)
        if b.returncode: return f'{sid}: FAILED build: {b.stdout[-400:]}'
        os.makedirs(w+'/d'); demo=g['demo'].lstrip('\n')
        race=' -race' if g['race'] else ''
        if demo.startswith('// test '):
            dr=demo.split('\n')[0][8:].strip(); scr=DEMO_TEST.replace('@DIR@',dr)
        else: scr=DEMO_MAIN
        open(w+'/d/demo.go','w').write(demo); open(w+'/d/demo.sh','w').write(scr.replace('@RACE@',race)); os.chmod(w+'/d/demo.sh',0o755)
        d1=sh('git stash -q; sh ../d/demo.sh',r)
        if d1.returncode: return f'{sid}: FAILED: demo fails without the change: {d1.stdout[-600:]}'
        d2=sh('git stash pop -q; git diff --stat; sh ../d/demo.sh',r)
        if not d2.returncode: return f'{sid}: FAILED: demo passes with the change'
        if 'exit 3' in d2.stdout or d2.returncode==3: return f'{sid}: FAILED: demo broken: {d2.stdout[-600:]}'
        # tests (main packages in parallel to test.sh: same commands in the copy)
        t=sh('go test -vet=off -count=1 -timeout 5m $(go list ./... | grep -v poolx/gopoolx) 2>&1 | grep -v "no test files" ; go test -vet=off -count=1 -cpu 1 ./poolx/gopoolx',r)
        bad=[l for l in t.stdout.splitlines() if l.startswith('FAIL') or l.startswith('--- FAIL') or 'panic:' in l]
        if bad: return f'{sid}: FAILED tests: {bad[:4]}'
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        open(out+'/patch.diff','w').write(diff)
        shutil.copy(w+'/d/demo.go',out); shutil.copy(w+'/d/demo.sh',out)
        json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(out+'/meta.json','w'),indent=1)
        return f'{sid}: ok ({d2.stdout.strip().splitlines()[-1][:150] if d2.stdout.strip() else d2.returncode})'
    finally: shutil.rmtree(w,ignore_errors=True)
for f in sys.argv[1:]: print(do(f),flush=True)
