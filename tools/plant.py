#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: build seeded/<id> from specs and verify them in a scratch copy."""
import sys, os, json, shutil, subprocess, tempfile, importlib.util
V='/verif/seeded'
def sh(c,cwd=None,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode('utf8','replace')
DEMO='''#!/bin/bash
# exit 0: the property holds on what this tries
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)szzdemo/main.go" "$here/demo.go.txt" > "$tmp/o.json"
go build %(race)s -overlay "$tmp/o.json" -o "$tmp/demo" ./%(dir)szzdemo || exit 9
cd "$tmp" && %(env)s timeout 200 ./demo
'''
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))
ok=True
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d=os.path.join(V,b['id'])
    w=tempfile.mkdtemp(prefix='plant-')
    try:
        sh('git -C /repo worktree prune'); 
        rc,o=sh(f'git clone -q /repo {w}/r'); assert rc==0,o
        r=w+'/r'
        for f,old,new in b['edits']:
            s=open(f'{r}/{f}').read()
            assert s.count(old)==1,(b['id'],f,old,s.count(old))
            open(f'{r}/{f}','w').write(s.replace(old,new))
        rc,o=sh('gofmt -l '+' '.join(sorted({f for f,_,_ in b['edits']})),r); 
        if o.strip(): print(b['id'],'gofmt:',o); sh('gofmt -w '+' '.join(o.split()),r)
        rc,o=sh('git diff',r); diff=o
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        if 'demo_sh' in b:
            open(d+'/demo.sh','w').write(b['demo_sh'])
        else:
            open(d+'/demo.sh','w').write(DEMO%dict(dir=b.get('dir',''),race='-race' if b.get('race') else '',env=b.get('env','')))
        for n,c in b.get('files',{}).items(): open(d+'/'+n,'w').write(c)
        if 'demo' in b: open(d+'/demo.go.txt','w').write(b['demo'])
        sh('chmod +x '+d+'/demo.sh')
        # verify
        sh('git checkout -q .',r)
        env='. /opt/vp/env.sh; '
        r0,o0=sh(f'bash -c "{env} bash {d}/demo.sh"',r)
        rc,o=sh(f'git apply {d}/patch.diff',r); assert rc==0,o
        rb,ob=sh(f'bash -c "{env} go build ./... && go vet ./... 2>&1 | grep -v _test | head -5"',r)
        rt,ot=sh(f'bash -c "{env} go test -json -vet=off -count=1 ./... > {w}/log; python3 /opt/vp/results.py {w}/res.json gojson:{w}/log"',r)
        res=json.load(open(w+'/res.json'))
        r1,o1=sh(f'bash -c "{env} bash {d}/demo.sh"',r)
        stable=base if isinstance(base,list) else (base.get('stable') or base.get('tests') or base)
        st={t:('pass') for t in stable} if isinstance(stable,list) else stable
        passed=set(res.get('passed',[])) if 'passed' in res else {k for k,v in res.items() if v=='pass' or v is True}
        miss=[t for t in st if t not in passed]
        good = r0==0 and r1 not in (0,9) and not miss and rb==0
        ok&=good
        print(('OK  ' if good else 'BAD '),b['id'],'clean',r0,'patched',r1,'missing tests',len(miss),miss[:3],'build',rb)
        if not good:
            print('--- clean:',o0[-1500:],'--- patched:',o1[-1500:],'--- build',ob[-800:])
    finally:
        shutil.rmtree(w)
sys.exit(0 if ok else 1)
