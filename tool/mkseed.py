#!/usr/bin/env python3
"""mkseed.py SPECFILE: SPECFILE is python defining id, prop, needs, breaks, edits=[(file,old,new)], pkg, demo (go test source).
Creates /verif/seeded/<id> after confirming it in a scratch copy."""
import sys,os,subprocess,shutil,json,tempfile
g={}
exec(open(sys.argv[1]).read(),g)
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for S in g['seeds']:
    d='/verif/seeded/'+S['id']
    tmp=tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['cp','-a','/repo',tmp+'/repo'])
        R=tmp+'/repo'
        for f,o,n in S['edits']:
            s=open(R+'/'+f).read()
            assert s.count(o)>=1,(S['id'],f,'not found',o)
            if s.count(o)!=1 and not S.get('first'): raise SystemExit((S['id'],'ambiguous',f,o))
            open(R+'/'+f,'w').write(s.replace(o,n,1))
        diff=subprocess.check_output(['git','diff'],cwd=R,text=True)
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(S['demo'])
        race='-race ' if S.get('race') else ''
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
python3 - "$here/demo_test.go" "$PWD/{S['pkg']}" > "$ov" <<'P'
import sys,json,glob
r={{f:"" for f in glob.glob(sys.argv[2]+"/*_test.go")}}
r[sys.argv[2]+"/seed_demo_test.go"]=sys.argv[1]
print(json.dumps({{"Replace":r}}))
P
go test -vet=off {race}-overlay "$ov" -count=1 -timeout 120s -run '^TestDemo$' ./{S['pkg']}
''')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":S['prop'],"needs":S['needs'],"what_it_breaks":S['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('bash '+d+'/demo.sh','/repo')
        ok1=r.returncode==0
        o1=r.stdout
        r=sh('go build ./...',R); okb=r.returncode==0
        r=sh('go test -vet=off -count=1 ./...',R)
        okt=r.returncode==0
        ot=r.stdout
        r=sh('bash '+d+'/demo.sh',R)
        ok2=r.returncode!=0
        built='build failed' not in r.stdout
        print(S['id'],'clean demo ok' if ok1 else 'CLEAN DEMO FAILS\n'+o1,'builds' if okb else 'NO BUILD','tests pass' if okt else 'TESTS FAIL'+ot[-1500:],'demo fails' if ok2 and built else 'DEMO DOES NOT FAIL\n'+r.stdout[-1500:])
        if not(ok1 and okb and okt and ok2 and built):
            if not S.get('keep'): shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
