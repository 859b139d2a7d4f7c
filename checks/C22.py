"""Sub-readings: addressing, testing, editing and printing."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.ref import Opts
from checks.C02 import test
from checks.C03 import layout
from checks.C04 import edit_rule, new_tags

DEPTHS = [1, -1, 2, -2, 3, -3]


def put_subs(src, t):
    """Give the tests of a chain depths of their own."""
    while t is not None:
        if src.p(55):
            t.sub = src.w([(4, 1), (4, -1), (2, 2), (2, -2), (1, 3), (1, -3), (3, 32767)])
        t = t.link


def rule(src, ss, cfg, i):
    k = src.w([(8, 'edit'), (3, 'dis'), (3, 'mark'), (1, 'restore')])
    if k == 'edit':
        r = edit_rule(src, ss, cfg)
        # whether an addition that only repeats a tag counts as a change depends on what was done to the sub-readings before
        r.flags = [f for f in r.flags if f != 'ITERATE']
    elif k == 'dis':
        r = Rule(src.c(['SELECT', 'REMOVE', 'IFF']), ss.any(1))
        if src.p(20):
            r.flags.append(src.c(['UNSAFE', 'SAFE']))
        if src.p(15):
            r.flags.append(src.c(['DELAYED', 'IGNORED']))
    elif k == 'restore':
        r = Rule('RESTORE', ANY if src.p(50) else ss.list(), cs1=ss.list())
    else:
        r = Rule('SUBSTITUTE', ANY if src.p(60) else ss.any(1), tags=['zz%d' % i], tags2=[Tag('raw', '*')])
    if not r.tests and src.p(60):
        r.tests = [test(src, ss, cfg, 2) for _ in src.many(1, 2, 25)]
        if src.p(50):
            r.tests[0].off = 0
            r.tests[0].scan = 0
            r.tests[0].abs = None
    for t in r.tests:
        put_subs(src, t)
    if src.p(60):
        r.sub = src.w([(5, 1), (5, -1), (2, 2), (2, -2), (1, 3), (1, -3), (2 if r.type in ('SELECT', 'REMOVE', 'IFF') else 0, 32767)])
    if r.type == 'COPY' and r.sub:
        r.sub = 0       # what it copies is not documented for a sub-reading
    return r


def subreadings(src, env):
    cfg = gen.Cfg(mapping=src.c([0, 0, 15]), static=3, maxwin=2, maxcoh=4, maxrd=3, feat=gen.FEAT[:4] + ['<h>'], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:3], bases=gen.BASES[:3],
                   subs=src.c([70, 50, 85]), empty=3, numeric=src.c([0, 0, 40]))
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=src.c([gen.plain_tag, gen.plain_tag, gen.pattern_tag]), named=40)
    rules = layout(src, g, lambda i: rule(src, ss, cfg, i), 7, 85)
    text = gen.show(gen.stream(src, cfg))
    o = Opts(split_mappings=src.p(60))
    run, out = against_ref(env, g, text, o, [])
    n = run.events.get('fired', 0)
    lab = sorted(set((r.type + (' sub' if r.sub else '')) for r in rules if run.applied.get(r.num)))
    return Info(n > 0 and '\n\t\t' in text, g.text() + text, lab, {"grammar": g.text(), "input": text, "output": out})


SUBS = [
    Sub("subreadings", subreadings, 22000, 200000, "the stream has sub-readings and a rule was applied"),
]

TECHNIQUE = "property-based testing: generated SUB:N rules and /N tests against a reference interpreter"
NOTE = "Streams with sub-readings up to three deep; editing, disambiguation and restoring rules with SUB:N and SUB:*, contextual tests with /N and /*; all chains of the output are compared with the reference. Exploration only."
