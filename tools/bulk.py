#!/usr/bin/env python3
"""bulk.py ID SUB N [SEED0]: runs N cases without shrinking and groups what is violated. CG3_REPO/CG3_VBUILD select another tree."""
import sys, os, importlib, collections, re
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from vlib import build, pbt
ID, SUB, N = sys.argv[1], sys.argv[2], int(sys.argv[3])
S0 = int(sys.argv[4]) if len(sys.argv) > 4 else 0
m = importlib.import_module('checks.' + ID)
sub = next(s for s in m.SUBS if s.name == SUB)
exe = build.build(sub.variant)
env = None
def one(i):
    global env
    if env is None:
        env = pbt.Env({sub.variant: exe})
        env.use(sub)
    s = pbt.Src(seed=i)
    try:
        sub.fn(s, env)
    except pbt.Discard:
        return i, None, None, 0
    except pbt.Violation as v:
        return i, str(v.args[0] if v.args else v.msg), v.detail, len(s.rec)
    except RuntimeError as e:
        env.close(); env = None
        return i, 'driver died', '', 0
    return i, '', None, 0
if __name__ == '__main__':
    with Pool(8) as p:
        g = collections.defaultdict(list)
        for i, msg, det, n in p.imap_unordered(one, range(S0, S0 + N), 8):
            if msg:
                k = re.sub(r'^[^:]*: ', '', msg) if ID == 'C17' and 'never' not in msg else re.sub(r'\d+', 'N', msg)[:90]
                g[k].append((n, i, msg, det))
            elif msg is None:
                g['(discarded)'].append((0, i, '', ''))
    for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
        v.sort(key=lambda x: x[:2])
        print(len(v), 'seed', v[0][1], k[:230])
