"""Windows: where they are cut and what rules see of them."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.refrun import parse_out
from vlib.ref import Opts
from checks.C02 import test

TEXTS = ['some text', '<s>', '</s>', '<p id="1">', '# comment', 'x "<y>"', '; "x" N', '</para>']
TDELIMS = ['/^<\\/s>/r', '</para>', '/^<s/r']


def edge_test(src, ss, cfg):
    """Tests that see where a window begins and ends."""
    k = src.n(9)
    if k == 0:
        return Test(comp('>>>'), src.c([-1, -2, -3]))
    if k == 1:
        return Test(comp('<<<'), src.c([0, 1, 2]))
    if k == 2:
        return Test(comp(L(src.c(cfg.wfs))), src.c([1, -1, 2, 3]), abs=True)
    if k == 3:
        return Test(comp(L(src.c(cfg.wfs))), src.c([1, -1]), abs=True, span=src.c(['<', '>']))
    if k == 4:
        return Test(comp(src.c(['<<<', '>>>'])), src.c([1, -1]), scan=src.c([1, 2]), span=src.c(['W', '<', '>']))
    if k == 5:
        return Test(ANY, src.c([1, -1, 2, -2, 5, -5]), span=src.c(['', 'W', '<', '>']))
    if k == 6:
        return Test(comp(L(src.c(cfg.wfs))), src.c([1, -1]), scan=src.c([1, 2]), span=src.c(['W', '<', '>']), barrier=None)
    if k == 7:
        return Test(ANY, src.c([3, 4, 5, 6]), abs=True)
    return test(src, ss, cfg)


def stream_text(src, cfg, o, seps):
    """Lines with cohorts, text and commands mixed."""
    out = []
    dep = 0
    n = src.r(1, 16)
    for _ in src.many(1, 18, 88):
        k = src.w([(20, 'coh'), (seps.get('delim', 0), 'delim'), (seps.get('text', 0), 'text'), (seps.get('flush', 0), 'flush')])
        if k == 'text':
            out.append(src.c(TEXTS) + '\n')
        elif k == 'flush':
            out.append('<STREAMCMD:FLUSH>\n')
            dep = 0
        else:
            c = gen.cohort(src, cfg) if k == 'coh' else (src.c(['"<.>"', '"<!>"', '"<,>"']), [], [] if src.p(8) else [[('"."', ['CLB'] if src.p(80) else ['x'])]])
            if seps.get('dep'):
                if not c[2]:
                    c[2].append([('"a"', ['N'])])
                dep = src.w([(12, dep + 1), (2, 1), (1, dep + 2), (1, dep + 4), (1, max(dep, 1))])
                # every reading of a cohort names the same number
                for ch in c[2]:
                    ch[0][1].append('#%d->%d' % (dep, dep))
            out.append(gen.show_cohort(c))
    return ''.join(out)


def windows(src, env):
    cfg = gen.Cfg(mapping=src.c([0, 0, 20]), static=src.c([0, 15]), maxrd=2, feat=gen.FEAT[:3], pos=gen.POS[:3], maxtags=1, wfs=gen.WFS[:3], bases=gen.BASES[:2], empty=6)
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=gen.plain_tag, named=40)
    g.delims = src.w([(5, ['"<.>"']), (3, ['"<.>"', '"<!>"']), (1, None), (2, [Tag('rx', '"<[.!]>"')]), (2, ['CLB']), (2, [L('"<!>"'), L('x')]), (1, ['"<.>"', 'st1'])])
    g.soft = src.w([(4, None), (4, ['"<,>"']), (2, ['"<,>"', 'pl']), (1, [Tag('rx', '"<[a,]>"')])])
    rules = []
    for i in src.many(1, 6, 80):
        ts = [edge_test(src, ss, cfg) for _ in src.many(1, 2, 30)]
        kind = src.w([(7, 'sub'), (2, 'add'), (1, 'dis')])
        tgt = ANY if src.p(70) else ss.list()
        if kind == 'sub':
            r = Rule('SUBSTITUTE', tgt, tags=['zz%d' % i], tags2=[Tag('raw', '*')], tests=ts)
        elif kind == 'add':
            r = Rule('ADD', tgt, tags=['zz%d' % i], tests=ts)
        else:
            r = Rule(src.c(['SELECT', 'REMOVE']), ss.list(), tests=ts)
        rules.append(r)
    if src.p(15):
        rules.insert(src.n(len(rules) + 1), Rule('DELIMIT', ss.list(), tests=[edge_test(src, ss, cfg)] if src.p(40) else []))
    if src.p(60):
        g.before = rules
    else:
        g.sections = [rules]
    o = Opts(split_mappings=True)
    args = []
    seps = {'delim': src.c([6, 3, 1]), 'text': src.c([0, 3]), 'flush': src.c([0, 0, 1, 2])}
    if src.p(45):
        o.num_windows = src.c([0, 1, 3, 5])
        args += ['--num-windows', str(o.num_windows)]
    if src.p(40):
        o.soft_limit = src.r(2, 7)
        args += ['--soft-limit', str(o.soft_limit)]
    if src.p(40) or not g.delims:
        o.hard_limit = src.r(2, 9)
        args += ['--hard-limit', str(o.hard_limit)]
    if src.p(15):
        td = src.sub(range(len(TDELIMS)), 1, 1)
        o.text_delims = [['^</s>', r'^\s*</para>\s*$', '^<s'][i] for i in td]
        for i in td:
            args += ['-T', TDELIMS[i]]
        seps['text'] = 8
    if src.p(15):
        o.dep_delimit = src.c([10, 1, 2])
        args += ['-D' + str(o.dep_delimit)] if o.dep_delimit != 10 else ['-D']
        seps['dep'] = True
        o.deps = False
    if src.p(8):
        o.always_span = True
        args += ['--always-span']
    text = stream_text(src, cfg, o, seps)
    cmp = None
    if seps.get('dep'):
        cmp = nodep
    run, out = against_ref(env, g, text, o, args, cmp)
    n = run.events.get('fired', 0)
    lab = [k for k in ('delim', 'soft', 'softback', 'hard', 'textdelim', 'depdelim', 'flush', 'delimit') if run.events.get(k)]
    return Info(n > 0 and run.nwin > 1, g.text() + text + ' '.join(args), lab, {"grammar": g.text(), "input": text, "options": ' '.join(args), "output": out})


def nodep(want, got):
    """Compare with the dependency numbers left out (they belong to another property)."""
    import re
    from vlib.refrun import same
    f = lambda l: re.sub(r' #\S+->\S+', '', l)
    strip = lambda xs: [x if x[0] != 'coh' else ('coh', x[1], x[2], [(r[0], [f(l) for l in r[1]]) if isinstance(r, tuple) else [f(l) for l in r] for r in x[3]]) for x in xs]
    return same(strip(want), strip(got))


SUBS = [
    Sub("windows", windows, 26000, 200000, "the stream makes more than one window and a rule fired"),
]

TECHNIQUE = "property-based testing: generated delimiter settings and streams against a reference interpreter of windowing"
NOTE = "Random delimiters, soft delimiters, soft and hard limits, buffer sizes, text delimiters, dependency restarts, flushes and DELIMIT rules; marker rules make window edges and spanning visible and the output is compared with the reference. Exploration only."
