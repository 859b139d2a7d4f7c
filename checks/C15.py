"""Variables and stream commands."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.ref import Opts
from checks.C02 import test
from checks.C03 import layout

NAMES = ['va', 'vb', 'Vc', 'poetry']
VALS = ['1', '2', 'x', 'Ancient']
TEXTS = ['some text', '<s>', '# remark', '"<quoted']


def var_tag(src):
    key = src.w([(7, 'lit'), (1, 'rx'), (1, 'ic')])
    k = L(src.c(NAMES)) if key == 'lit' else Tag('srx', src.c(['^v[ab]$', '^poe', 'zz'])) if key == 'rx' else Tag('icase', src.c(['VA', 'vC', 'POETRY']))
    v = None
    if key == 'lit' and src.p(45):
        # which of several matching variables is looked at is not documented, so values go with literal names
        vk = src.w([(6, 'lit'), (1, 'rx'), (1, 'ic')])
        v = L(src.c(VALS)) if vk == 'lit' else Tag('srx', src.c(['^[12]$', 'nc'])) if vk == 'rx' else Tag('icase', src.c(['X', 'ancient']))
    return Tag(src.w([(3, 'var'), (2, 'lvar')]), None, key=k, val=v)


def command(src):
    if src.p(70):
        items = [n + ('=' + src.c(VALS) if src.p(45) else '') for n in src.sub(NAMES, 1, 3)]
        return '<STREAMCMD:SETVAR:%s>\n' % ','.join(items)
    return '<STREAMCMD:REMVAR:%s>\n' % ','.join(src.sub(NAMES, 1, 2))


def stream_text(src, cfg):
    out = []
    pending = []    # ignored stretch
    for _ in src.many(1, 22, 90):
        k = src.w([(14, 'coh'), (6, 'delim'), (2, 'text'), (7, 'var'), (1, 'flush'), (1, 'ignore')])
        if k == 'text':
            out.append(src.c(TEXTS) + '\n')
        elif k == 'var':
            out.append(command(src))
        elif k == 'flush':
            out.append('<STREAMCMD:FLUSH>\n')
        elif k == 'ignore':
            # the manual asks for a flush before
            out.append('<STREAMCMD:FLUSH>\n<STREAMCMD:IGNORE>\n')
            for _ in src.many(0, 4, 70):
                out.append(src.c([gen.show_cohort(gen.cohort(src, cfg)), gen.show_cohort(gen.cohort(src, cfg)), 'ignored text\n', ';\t"x" N\n', '"<.>"\n\t"." CLB\n', '<STREAMCMD:IGNORE>\n']))
            if src.p(10):
                return ''.join(out)
            out.append('<STREAMCMD:RESUME>\n')
        else:
            out.append(gen.show_cohort(gen.cohort(src, cfg) if k == 'coh' else (gen.DELIM, [], [[('"."', ['CLB'])]])))
    if src.p(6):
        out.append('<STREAMCMD:RESUME>\n')
    if src.p(12):
        i = src.n(len(out) + 1)
        out[i:i] = ['<STREAMCMD:FLUSH>\n' if src.p(80) else '', '<STREAMCMD:EXIT>\n']
    return ''.join(out)


def make_rule(src, ss, cfg, i):
    ty = src.w([(6, 'SUBSTITUTE'), (2, 'ADD'), (4, 'SETVARIABLE'), (3, 'REMVARIABLE'), (2, 'REMOVE'), (2, 'SELECT')])
    r = Rule(ty, ANY if src.p(40) else ss.list())
    vt = lambda: Set('list', None, [[var_tag(src)]])
    if src.p(25):
        r.target = Set('set', None, None, [ss.closed(r.target) if r.target is not ANY else ss.list(), vt()], [src.c(['+', '-'])])
    if src.p(60):
        t = Test(vt() if src.p(75) else comp(var_tag(src), L(src.c(cfg.pos))), src.w([(6, 0), (1, 1), (1, -1)]))
        if t.off and src.p(60):
            t.scan = 1
            t.span = src.c(['W', '<', '>'])
        if src.p(25):
            t.nt = True
        r.tests.append(t)
    if src.p(25):
        r.tests.append(test(src, ss, cfg, 2))
    if ty == 'SUBSTITUTE':
        r.tags, r.tags2 = ['zz%d' % i], [Tag('raw', '*')]
    elif ty == 'ADD':
        r.tags = ['zz%d' % i]
    elif ty == 'SETVARIABLE':
        r.tags, r.tags2 = [L(src.c(NAMES))], [L(src.c(VALS + ['*']))]
    elif ty == 'REMVARIABLE':
        r.tags = [L(x) for x in src.sub(NAMES, 1, 2)] if src.p(80) else [src.c([Tag('srx', '^poe'), Tag('icase', 'VC'), Tag('icase', 'Va'), Tag('srx', 'a$')])]
    if ty in ('SETVARIABLE', 'REMVARIABLE') and src.p(30):
        r.flags.append('OUTPUT')
    return r


def variables(src, env):
    cfg = gen.Cfg(mapping=0, static=0, maxrd=3, feat=gen.FEAT[:3], pos=gen.POS[:3], maxtags=1, wfs=gen.WFS[:3], bases=gen.BASES[:2], empty=4)
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=gen.plain_tag, named=40)
    layout(src, g, lambda i: make_rule(src, ss, cfg, i), 8, 90)
    o = Opts(split_mappings=True)
    args = []
    if src.p(45):
        o.num_windows = src.c([0, 1, 3, 5])
        args += ['--num-windows', str(o.num_windows)]
    if src.p(12):
        o.text_delims = ['^<s>']
        args += ['-T', '/^<s>/r']
    text = stream_text(src, cfg)
    run, out = against_ref(env, g, text, o, args)
    n = run.events.get('fired', 0)
    lab = [k for k, s in (('setvar', 'SETVAR'), ('remvar', 'REMVAR'), ('ignore', 'IGNORE'), ('flush', 'FLUSH'), ('exit', 'EXIT')) if '<STREAMCMD:' + s in text]
    lab += sorted(set(r.type for r in g.before + sum(g.sections, []) + g.after if run.applied.get(r.num)))
    return Info(n > 0 and 'STREAMCMD' in text, g.text() + text, lab, {"grammar": g.text(), "input": text, "output": out})


SUBS = [
    Sub("variables", variables, 26000, 200000, "the stream has commands and a rule fired"),
]

TECHNIQUE = "property-based testing: generated variable rules, tests and stream commands against a reference interpreter"
NOTE = "Random SETVAR, REMVAR, FLUSH, IGNORE, RESUME and EXIT commands between cohorts and text, SETVARIABLE and REMVARIABLE rules, and VAR/LVAR tests (with values, regular expressions, case folding and window spanning); the whole output, command lines included, is compared with the reference. IGNORE is generated after FLUSH, as the manual advises. Exploration only."
