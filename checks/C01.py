"""Set and tag matching."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref
from vlib.ref import Opts


def matching(src, env):
    cfg = gen.Cfg(mapping=src.c([0, 30]), numeric=src.c([0, 60]), static=10, maxwin=2, subs=src.c([0, 0, 25]), dup=src.c([0, 20]))
    if cfg.numeric and src.p(50):
        cfg.nums = ['<%s%s%s>' % (k, op, v) for k, v in (('W', '2'), ('W', '5'), ('F', '-1.5')) for op in ('=', '!=', '<', '>', '<=', '>=')]
    g = Grammar()
    ss = gen.Sets(g, src, cfg, ff=src.c([0, 0, 15]), named=70)
    rules = []
    for i in src.many(1, 10, 85):
        s = ss.any(2)
        hit = 'zz%d' % i
        mode = src.w([(4, 'add'), (4, 'sub'), (2, 'test'), (2, 'wf')])
        if mode == 'add':
            r = Rule('ADD', s, tags=[hit])
        elif mode == 'sub':
            r = Rule('SUBSTITUTE', s, tags=[hit], tags2=[Tag('raw', '*')])
        elif mode == 'test':
            r = Rule('SUBSTITUTE', ANY, tags=[hit], tags2=[Tag('raw', '*')], tests=[Test(s)])
        else:
            wf = src.c([L(src.c(cfg.wfs)), Tag('icase', src.c(['"<CATS>"', '"<b>"'])), Tag('rx', '"<[bc].*>"', ic=src.p(50))])
            r = Rule('SUBSTITUTE', s, tags=[hit], tags2=[Tag('raw', '*')], wf=wf)
        rules.append(r)
    if src.p(70):
        g.before = rules
    else:
        g.sections = [rules]
    text = gen.show(gen.stream(src, cfg))
    run, out = against_ref(env, g, text, Opts(split_mappings=True))
    n = sum(out.count(' zz%d' % i) for i in range(10))
    return Info(n > 0, g.text() + text, ["fired" if n else "silent"], {"grammar": g.text(), "input": text, "output": out})


SUBS = [
    Sub("matching", matching, 30000, 200000, "at least one of the generated sets matched at least one reading"),
]

TECHNIQUE = "property-based testing: generated sets and readings against a reference set evaluator"
NOTE = "Searches random grammars of sets, operators and tag kinds with random cohorts; every (set, reading) verdict of the program is compared with an independent evaluator. Bounded set depth and vocabulary; nothing is proved."
