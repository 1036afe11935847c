import sys,os,json,subprocess,tempfile,shutil,time,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
secs=os.environ.get('SECS','20')
for i in ids:
    d=V+'/seeded/'+i
    prop=os.environ.get('PROP') or json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='catch-')
    subprocess.run(f'git clone -q /repo {w}/r && git -C {w}/r apply {d}/patch.diff',shell=True,check=True)
    t=time.time()
    p=subprocess.run(['python3',V+'/sim/check.py','--prop',prop,'--repo',w+'/r','--secs',secs,'--no-evidence','--seed',os.environ.get('SEED','1')],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    c=re.search(r'replay: (\S+)',p.stderr); w0=re.search(r'worker \d+: (.*)',p.stderr)
    sz=''; m=re.search(r'replay=(\S+)',p.stdout)
    rep=''
    if m:
        j=json.load(open(m.group(1))); sz='class %s repro %s %s'%(j.get('class'),j.get('reproduced'),(j.get('minimised') or {}))
        if os.environ.get('REPLAY'):
            q=subprocess.run(['python3',V+'/sim/check.py','--replay',m.group(1),'--repo',w+'/r'],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
            rep='replay rc %d'%q.returncode
            q=subprocess.run(['python3',V+'/sim/check.py','--replay',m.group(1)],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
            rep+=' clean rc %d'%q.returncode
    print(i,prop,'rc',p.returncode,'%.0fs'%(time.time()-t),sz,rep,flush=True)
    if p.returncode not in (0,1): print(p.stdout[-500:],p.stderr[-1500:])
    shutil.rmtree(w)
