#!/usr/bin/env python3
import sys,os,subprocess,json,shutil,importlib.util,time,re
SEEDS={}
MUT='/tmp/mut'
def S(id,prop,needs,breaks,edits,pkg,demo,race=False,extra=None,sh=None):
    assert id not in SEEDS,id
    SEEDS[id]=dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,pkg=pkg,demo=demo,race=race,sh=sh,extra=extra)
MAIN='''#!/bin/bash
# Exits 0 when the property holds, non-zero when it is violated. Run with the repository as working directory.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp)
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t"
timeout 250 go run -overlay "$t" ./zzdemo
rc=$?
rm -f "$t"
exit $rc
'''
def sh(cmd,cwd=None,timeout=400,env=None):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout,env=e)
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired as x:
        return 124,'TIMEOUT '+str(x.stdout)[-500:]
def blame_ok(patch):
    # removed lines must be from base commit
    bad=[];cur=None;ln=0;rem=0
    for l in patch.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'):
            ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            rem+=1
            rc,o=sh(f"git blame -l -L{ln},{ln} HEAD -- {cur}",cwd='/repo')
            if BASE[:38] not in o.split(' ')[0]: bad.append((cur,ln,l))
            ln+=1
        elif l.startswith(' '): ln+=1
    return rem,bad
BASE=sh("git rev-parse a990bd1",cwd='/repo')[1].strip()
def make(s):
    d=f"/verif/seeded/{s['id']}"
    if not os.path.isdir(MUT): sh(f"cp -a /repo {MUT}")
    sh("git checkout -q -- . && git clean -fdq",cwd=MUT)
    for f,old,new in s['edits']:
        p=os.path.join(MUT,f); t=open(p).read()
        if t.count(old)!=1: return f"EDIT {f}: count {t.count(old)}: {old[:60]!r}"
        open(p,'w').write(t.replace(old,new))
    fl=[e[0] for e in s['edits'] if e[0].endswith('.go')]
    if fl:
        rc,o=sh("gofmt -l "+' '.join(fl),cwd=MUT)
        if o.strip(): sh("gofmt -w "+' '.join(fl),cwd=MUT)
    rc,patch=sh("git diff",cwd=MUT)
    rem,bad=blame_ok(patch)
    if bad: return f"NOT ORIGINAL {bad}"
    if rem==0: print("   note: pure insertion")
    rc,o=sh("go build ./... && go vet . ./trcweb ./eztrc ./internal/... ./cmd/... ",cwd=MUT)
    if rc: return "BUILD "+o[-800:]
    rc,o=sh("go test -count=1 ./...",cwd=MUT)
    if rc: return "TESTS "+o[-1500:]
    sh(f"rm -rf {d} && mkdir -p {d}")
    open(d+'/patch.diff','w').write(patch)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    if s['sh']:
        open(d+'/demo.sh','w').write(s['sh'])
        for n,t in (s['extra'] or {}).items(): open(d+'/'+n,'w').write(t)
    else:
        open(d+'/demo_test.go','w').write(s['demo'])
        pkg=s['pkg']
        rep="%s/zz_demo_test.go" if pkg=='.' else "%s/"+pkg+"/zz_demo_test.go"
        arg='.' if pkg=='.' else './'+pkg
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Exits 0 when the property holds, non-zero when it is violated. Run with the repository as working directory.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp)
printf '{{"Replace":{{"{rep}":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$t"
timeout 250 go test -overlay "$t" -vet=off {'-race ' if s['race'] else ''}-count=1 -timeout 200s -run '^TestDemo$' {arg}
rc=$?
rm -f "$t"
exit $rc
''')
    os.chmod(d+'/demo.sh',0o755)
    rc1,o1=sh(f"bash {d}/demo.sh",cwd=MUT)
    sh("git checkout -q -- .",cwd=MUT)
    rc0,o0=sh(f"bash {d}/demo.sh",cwd=MUT)
    if rc0!=0: return "DEMO FAILS UNCHANGED "+o0[-1500:]
    if rc1==0: return "DEMO PASSES WITH PATCH "+o1[-500:]
    if 'build failed' in o1: return "DEMO BUILD "+o1[-800:]
    return "ok: "+' | '.join([l.strip() for l in o1.splitlines() if 'demo_test' in l or 'panic' in l or 'RACE' in l][:2])[:200]
def run(id,props=None,seed='1'):
    d=f"/verif/seeded/{id}"; m=json.load(open(d+'/meta.json'))
    out=[]
    rc,o=sh(f"git -C /repo apply {d}/patch.diff")
    if rc: return f"{id}: APPLY {o}"
    try:
        for p in (props or [m['property']]):
            t=time.time()
            rc,o=sh(f"python3 check.py {p}",cwd='/verif',timeout=900,env={'VERIF_SEED':seed,'VERIF_TIER':'quick'})
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            det=[l for l in o.splitlines() if 'monitor' in l.lower() or 'FAIL' in l][:1]
            out.append(f"{p} rc={rc} {'CAUGHT' if rc==1 and v else 'MISSED' if rc==0 else 'BROKEN '+o[-400:]} {time.time()-t:.0f}s")
            open(f'/tmp/seedlogs/{id}.{p}.log','w').write(o)
    finally:
        sh("git -C /repo checkout -q -- .")
    return f"{id}: "+'; '.join(out)
if __name__=='__main__':
    os.makedirs('/tmp/seedlogs',exist_ok=True)
    cmd=sys.argv[1]
    if cmd=='make':
        f=sys.argv[2]; only=sys.argv[3:]
        src=open(f).read(); exec(compile(src,f,'exec'),globals())
        for id,s in SEEDS.items():
            if only and id not in only: continue
            r=make(s)
            print(id,r,flush=True)
            if not r.startswith('ok'): sh(f"rm -rf /verif/seeded/{id}")
    else:
        ids=[a for a in sys.argv[2:] if not re.match(r'^C\d\d$',a)]; props=[a for a in sys.argv[2:] if re.match(r'^C\d\d$',a)]
        if not ids: ids=sorted(os.listdir('/verif/seeded'))
        for id in ids: print(run(id,props or None),flush=True)
