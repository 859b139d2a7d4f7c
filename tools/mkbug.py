#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description: mk(id, property, [(file, old, new)], grammar, input, args, needs, breaks)
Demo: vislcg3 (or a given command) on g.cg3 and in.txt prints expected.txt, made with the binaries in /repo/build."""
import json, os, subprocess, sys, shutil
V = '/verif/seeded'
def mk(i, prop, edits, grammar, text, args, needs, breaks, cmd=None, files=None):
    d = '%s/%s' % (V, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = lambda n, s: open(os.path.join(d, n), 'w').write(s)
    if grammar is not None:
        w('g.cg3', grammar)
    w('in.txt', text)
    for n, s in (files or {}).items():
        w(n, s)
    c = cmd or '/repo/build/src/vislcg3 -g "$D/g.cg3" %s < "$D/in.txt"' % args
    w('demo.sh', '#!/bin/sh\n# prints what the unchanged program prints, or fails\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d) || exit 2\ntrap \'rm -rf "$T"\' EXIT\n{ %s ; } > "$T/out.txt" 2>"$T/err.txt"\necho "status $?" >> "$T/out.txt"\ndiff "$D/expected.txt" "$T/out.txt"\n' % c)
    w('expected.txt', '')
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True).stdout.strip()
    r = subprocess.run('sh %s/demo.sh' % d, shell=True, capture_output=True, text=True, cwd='/repo')
    exp = ''.join(l[2:] + '\n' for l in r.stdout.split('\n') if l.startswith('> '))
    w('expected.txt', exp)
    for f, old, new in edits:
        p = '/repo/src/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    df = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    subprocess.run('git -C /repo checkout -- .', shell=True)
    w('patch.diff', df)
    w('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    print(i, '\n' + exp)
