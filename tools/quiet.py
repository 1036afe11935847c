#!/usr/bin/env python3
"""quiet.py [-s SECS] [ids]: apply each behaviour-preserving change of tools/quiet/*.diff to a scratch
clone of /repo, build and test it, and run every check on it for SECS seconds: all must stay quiet.
With -new ID DIR: record the differences of the clone DIR as tools/quiet/ID.diff."""
import sys, os, subprocess, tempfile, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = V + '/tools/quiet'
a = sys.argv[1:]
secs, props = '6', None
def sh(c, cwd=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable='/bin/bash')
    return p.returncode, p.stdout.decode('utf8', 'replace')
while a and a[0].startswith('-'):
    if a[0] == '-s': secs = a[1]; a = a[2:]
    elif a[0] == '-p': props = a[1].split(','); a = a[2:]
    elif a[0] == '-new':
        rc, o = sh('git add -AN . && git diff', a[2]); open(f'{Q}/{a[1]}.diff', 'w').write(o); a = [a[1]] + a[3:]
base = json.load(open('/opt/vp/BASELINE.json'))
stable = base if isinstance(base, list) else (base.get('stable') or base.get('tests') or base)
bad = 0
for i in a or sorted(f[:-5] for f in os.listdir(Q) if f.endswith('.diff')):
    w = tempfile.mkdtemp(prefix='quiet-')
    try:
        r = w + '/r'
        rc, o = sh(f'git clone -q /repo {r} && git -C {r} apply {Q}/{i}.diff'); assert rc == 0, o
        env = '. /opt/vp/env.sh; '
        rc, o = sh(env + 'go build ./... && go vet terminal/runes/build_tables.go 2>&1 | grep -v "Fatal call has possible\\|^#"; go test -json -vet=off -count=1 ./... > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log' % (w, w, w), r)
        res = json.load(open(w + '/res.json')); passed = set(res.get('passed', []))
        miss = [t for t in stable if t not in passed]
        if miss: print(i, 'tests fail:', miss[:4], o[-800:])
        out = []
        for p in props or ['P%02d' % n for n in range(1, 19)]:
            t = time.time()
            q = subprocess.run(['python3', V + '/sim/check.py', '--prop', p, '--repo', r, '--secs', secs, '--no-evidence'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if q.returncode != 0:
                bad += 1
                print('  ALARM', i, p, 'rc', q.returncode, q.stdout[-400:], q.stderr[-1200:], flush=True)
            out.append('%s:%d' % (p, q.returncode))
        print(i, 'tests missing', len(miss), ' '.join(o for o in out if not o.endswith(':0')) or 'quiet', flush=True)
    finally:
        shutil.rmtree(w)
sys.exit(1 if bad else 0)
