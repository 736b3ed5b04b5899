#!/usr/bin/env python3
"""tryseed.py ID...: confirm planted changes (builds, passes the stable tests, demo 0 without / nonzero with), and run the property's check on them.
Applies each patch to /repo and undoes it afterwards."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
notest = '--notest' in sys.argv
nocheck = '--nocheck' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
assert sh('git -C /repo status --porcelain').stdout == ''
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    res = dict(id=i, prop=meta['property'], demo_clean=r0.returncode)
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        res['apply'] = a.returncode
        if a.returncode:
            print(a.stderr)
            continue
        b = sh('bash /opt/vp/build.sh')
        res['build'] = b.returncode
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        res['demo_bug'] = r1.returncode
        if not notest:
            sh('bash /opt/vp/test.sh /tmp/ts.json')
            t = json.load(open('/tmp/ts.json'))
            p = set(t.get('passed', []))
            res['tests_lost'] = sorted(base - p)[:5]
        if not nocheck:
            t0 = time.time()
            c = sh('./check.py ' + meta['property'], cwd=V, timeout=1500)
            res['check'] = c.returncode
            res['lines'] = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            res['fails'] = [l[:140] for l in c.stdout.split('\n') if l.startswith('FAIL')]
            res['secs'] = round(time.time() - t0)
    finally:
        sh('git -C /repo checkout -- .')
    print(json.dumps(res, indent=1), flush=True)
    if r0.returncode: print('clean demo:', r0.stdout[-500:], r0.stderr[-500:])
sh('bash /opt/vp/build.sh')
