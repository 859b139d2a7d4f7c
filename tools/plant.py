#!/usr/bin/env python3
"""Try a planted bug: plant.py ID [--check] [--keep]
/verif/seeded/ID/{patch.diff,demo.sh,meta.json}: applies it in /repo, builds, runs the tests and the demo with and without it, and the check; undoes it."""
import json, os, subprocess, sys
V = '/verif'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0 or sys.exit('build failed\n' + r.stdout[-3000:] + r.stderr[-2000:])
def demo(d):
    return sh('sh %s/demo.sh' % d, cwd='/repo', timeout=300)
def one(i, check=True):
    d = '%s/seeded/%s' % (V, i)
    m = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    res = {}
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        return i, 'does not apply: ' + r.stderr
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            return i, 'does not build ' + r.stdout[-1500:]
        sh('bash /opt/vp/test.sh /tmp/w/plant.json')
        t = json.load(open('/tmp/w/plant.json'))
        res['tests_failed'] = t.get('failed')
        x = demo(d)
        res['demo_with'] = x.returncode
        if check:
            r = sh('VERIF_SEED=1 VERIF_SHRINK=10 python3 run.py %s quick' % m['property'], cwd=V)
            res['check'] = r.returncode
            res['line'] = [l for l in r.stdout.split('\n') if l.startswith(('VIOLATION', 'C'))][-2:]
    finally:
        sh('git -C /repo checkout -- .')
    return i, res
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    for i in a:
        print(*one(i, '--nocheck' not in sys.argv), flush=True)
    build()
    for i in a:
        x = demo('%s/seeded/%s' % (V, i))
        print(i, 'demo without', x.returncode, x.stdout[-500:] if x.returncode else '', flush=True)
