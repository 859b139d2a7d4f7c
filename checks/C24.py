"""Parentheses: what is set aside, when it comes back, and what rules see meanwhile."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case, vislcg3, must
from vlib.refrun import parse_out, same
from vlib.ref import Opts
from checks.C02 import test
from checks.C03 import layout

PAIRS = [('"<(>"', '"<)>"'), ('"<[>"', '"<]>"'), ('"<{>"', '"<}>"')]
MAGIC = ['_LEFT_', '_RIGHT_', '_ENCL_']


def paren_test(src, ss, cfg):
    """Tests that see what is hidden and which enclosure is active."""
    k = src.n(10)
    if k == 0:
        return Test(comp(Tag('sp', src.c(MAGIC))), src.c([0, 1, -1]))
    if k == 1:
        return Test(comp(Tag('sp', src.c(MAGIC))), src.c([1, -1]), scan=src.c([1, 2]))
    if k == 2:
        return Test(ANY, 0, par=src.c('LR'))
    if k == 3:
        t = Test(ANY, 0, par=src.c('LR'))
        t.link = Test(comp(L(src.c(cfg.wfs))), src.c([1, -1, 2, -2]))
        return t
    if k == 4:
        return Test(comp(L(src.c(cfg.wfs))), 0, par=src.c('LR'))
    if k == 5:
        t = Test(ss.any(1), src.c([1, -1]), scan=1)
        t.barrier = comp(Tag('sp', src.c(MAGIC)))
        return t
    if k == 6:
        return Test(comp(L(src.c(cfg.wfs))), src.c([1, -1, 2, -2]), nt=src.p(30) or None)
    if k == 7:
        t = Test(ANY, 0, par='L')
        t.link = Test(ss.any(1), 1, scan=1)
        t.link.barrier = comp(Tag('sp', '_RIGHT_'))
        return t
    return test(src, ss, cfg)


def rule(src, ss, cfg, i):
    k = src.w([(6, 'mark'), (2, 'add'), (3, 'dis')])
    ts = [paren_test(src, ss, cfg) for _ in src.many(1, 2, 30)] if src.p(70) else []
    tgt = ANY if src.p(55) else ss.list()
    if k == 'mark':
        r = Rule('SUBSTITUTE', tgt, tags=['zz%d' % i], tags2=[Tag('raw', '*')], tests=ts)
    elif k == 'add':
        r = Rule('ADD', tgt, tags=['zz%d' % i], tests=ts)
    else:
        r = Rule(src.c(['SELECT', 'REMOVE', 'IFF']), ss.any(1), tests=ts)
    if src.p(35):
        r.flags.append(src.c(['ENCL_INNER', 'ENCL_OUTER', 'ENCL_FINAL', 'ENCL_ANY']))
    return r


def stretch(src, cfg, pairs, depth):
    out = []
    for _ in src.many(0 if depth else 1, 5, 68):
        k = src.w([(5, 'c'), (5 if depth < 4 else 0, 'p'), (1, 'o')])
        if k == 'c':
            out.append(gen.cohort(src, cfg))
        elif k == 'p':
            a, b = src.c(pairs)
            out.append((a, [], [[('"("', ['LP'])]]))
            out += stretch(src, cfg, pairs, depth + 1)
            out.append((b, [], [[('")"', ['RP'])]]))
        else:
            out.append((src.c([x for p in pairs for x in p]), [], [[('"o"', ['OP'])]]))
    return out


def setup(src, env, pairs):
    cfg = gen.Cfg(mapping=0, static=3, maxrd=2, feat=gen.FEAT[:3], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:4] + [x for p in pairs for x in p], bases=gen.BASES[:2], empty=4)
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=gen.plain_tag, named=40)
    g.header = 'PARENTHESES = %s ;\n' % ' '.join('(%s %s)' % p for p in pairs)
    layout(src, g, lambda i: rule(src, ss, cfg, i), 6, 85)
    return cfg, g


def parentheses(src, env):
    pairs = PAIRS[:src.r(1, 3)]
    cfg, g = setup(src, env, pairs)
    scfg = gen.Cfg(**dict(cfg.__dict__, wfs=gen.WFS[:4]))
    wins = []
    for _ in src.many(1, 3, 40):
        w = stretch(src, scfg, pairs, 0)
        if src.p(85):
            w.append((gen.DELIM, [], [[('"."', ['CLB'])]]))
        wins.append(w)
    text = gen.show(wins)
    o = Opts(split_mappings=True)
    o.parens = pairs
    run, out = against_ref(env, g, text, o, [])
    n = run.events.get('fired', 0)
    lab = [k for k in ('wrap', 'unwrap') if run.events.get(k)] + (['nested'] if run.events.get('wrap', 0) > 1 else [])
    # every cohort is back in its place whatever the rules did
    a = [c[1] for c in parse_out(text) if c[0] == 'coh']
    b = [c[1] for c in parse_out(out) if c[0] == 'coh']
    if a != b:
        raise Violation("cohorts are not all back in place: %r from %r" % (b, a), "order", case(g.text(), text, []) + out)
    return Info(n > 0 and run.events.get('wrap', 0) > 0, g.text() + text, lab, {"grammar": g.text(), "input": text, "output": out})


def unbalanced(src, env):
    """Nothing to enclose: the definition changes nothing."""
    pairs = PAIRS[:src.r(1, 2)]
    cfg, g = setup(src, env, pairs)
    out = []
    for _ in src.many(1, 12, 88):
        k = src.w([(4, 'c'), (3, 'r'), (1, 'd')])
        if k == 'c':
            out.append(gen.cohort(src, gen.Cfg(**dict(cfg.__dict__, wfs=gen.WFS[:4]))))
        elif k == 'd':
            out.append((gen.DELIM, [], [[('"."', ['CLB'])]]))
        else:
            out.append((src.c([p[1] for p in pairs]), [], [[('")"', ['RP'])]]))
    if src.p(50):
        a = src.c([p[0] for p in pairs])
        at = [i for i, c in enumerate(out) if c[0] in [p[1] for p in pairs]]
        out.insert(at[-1] + 1 if at else len(out), (a, [], [[('"("', ['LP'])]]))
    text = gen.show([out])
    must_same(env, g, text)
    return Info(True, g.text() + text, [], {"grammar": g.text(), "input": text})


def must_same(env, g, text):
    g1 = g.text()
    h = g.header
    g.header = ''
    for r in g.before + sum(g.sections, []) + g.after:
        r.flags = [f for f in r.flags if f != 'ENCL_FINAL']
    g2 = g.text()
    g.header = h
    g1 = h + g2
    a = must(vislcg3(env, g1, text), "vislcg3", g1, text)
    b = must(vislcg3(env, g2, text), "vislcg3", g2, text)
    if a != b:
        raise Violation("PARENTHESES changes a stream that has no enclosure", "unbalanced", case(g1, text) + "--- with\n" + a + "--- without\n" + b)


SUBS = [
    Sub("parentheses", parentheses, 9000, 200000, "an enclosure was set aside and a rule was applied"),
    Sub("unbalanced", unbalanced, 2500, 20000, "the stream has unmatched parentheses or none"),
]

TECHNIQUE = "property-based testing: generated enclosures and rules against a reference interpreter, and a metamorphic relation for unbalanced streams"
NOTE = "Nested, adjacent and unbalanced enclosures of up to three kinds, rules with ENCL_ flags, L/R tests and the magic tags; output compared with the reference. Exploration only."
