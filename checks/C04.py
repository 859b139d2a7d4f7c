"""Rules that edit readings."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.ref import Opts
from checks.C02 import test
from checks.C03 import layout

NEW = ['n1', 'n2', 'N', 'sg', 'x', '<h>', '@s', '@o', '@new', 'V']


def new_tags(src, cfg, lo=1, hi=3, base=False, maps=True):
    pool = [t for t in NEW if maps or t[0] != '@']
    out = src.sub(pool, lo, hi)
    if base:
        out.insert(src.n(len(out) + 1), src.c(cfg.bases + ['"new"']))
    return out


def removal(src, cfg, wild=True):
    """A list of tags to look for; a pattern stands for what it matches."""
    n = src.w([(5, 1), (3, 2), (1, 3)])
    out = []
    for _ in range(n):
        k = src.w([(8, 'p'), (2, 'f'), (1, 'b'), (2 if wild else 0, 'rx')])
        t = {'p': lambda: L(src.c(cfg.pos)), 'f': lambda: L(src.c(cfg.feat)), 'b': lambda: L(src.c(cfg.bases)),
             'rx': lambda: src.c([Tag('rxany', '<.*>'), Tag('srx', '^[sp]'), Tag('icase', 'SG'), Tag('rx', '"c.*"'), Tag('icase', '<H>')])}[k]()
        if all(t.text() != x.text() for x in out):
            out.append(t)
    return out


def spot(src, cfg, most):
    """The tags to put new tags next to: one, or several that have to stand together in the order given."""
    n = src.w([(6, 1), (4, 2), (1, 3)]) if most > 1 else 1
    t = [src.c(cfg.pos)] if n > 1 and src.p(60) else []
    t += src.sub([f for f in cfg.feat], n - len(t), n - len(t))
    return comp(*[L(x) for x in t[:n]]) if n > 1 or t else comp(L(src.c(cfg.pos + cfg.feat)))


def edit_rule(src, ss, cfg, types=None, spots=1):
    ty = src.c(types) if types else src.w([(4, 'ADD'), (3, 'MAP'), (3, 'REPLACE'), (6, 'SUBSTITUTE'), (3, 'APPEND'), (3, 'COPY'), (2, 'UNMAP'), (2, 'PROTECT'), (1, 'UNPROTECT'),
                    (2, 'SELECT'), (2, 'REMOVE'), (1, 'RESTORE')])
    r = Rule(ty, ss.any(1) if src.p(90) else ANY)
    if ty in ('ADD', 'MAP'):
        r.tags = new_tags(src, cfg)
        if src.p(25):
            r.where = src.c(['BEFORE', 'AFTER'])
            r.spot = spot(src, cfg, spots)
            r.tags = [t for t in r.tags if t[0] != '@'] or ['n1']
    elif ty == 'REPLACE':
        r.tags = new_tags(src, cfg, base=src.p(40))
        if src.p(35):
            r.tags2 = removal(src, cfg)
    elif ty == 'SUBSTITUTE':
        r.tags2 = [Tag('raw', '*')] if src.p(10) else removal(src, cfg)
        base = any(t.kind == 'lit' and t.s[0] == '"' or t.kind == 'rx' for t in r.tags2)
        r.tags = ['*'] if src.p(12) and not base else new_tags(src, cfg, base=base)
    elif ty == 'APPEND':
        r.tags = []
        for _ in src.many(1, 2, 30):
            for t in [src.c(cfg.bases)] + new_tags(src, cfg, 0, 2):
                if t not in r.tags[-1:]:
                    r.tags.append(t)
    elif ty == 'COPY':
        r.tags = new_tags(src, cfg)
        if src.p(45):
            r.tags2 = [t for t in removal(src, cfg) if t.text()[0] != '"'] or None
        if src.p(25):
            r.where = src.c(['BEFORE', 'AFTER'])
            r.spot = spot(src, cfg, spots)
            r.tags = [t for t in r.tags if t[0] != '@'] or ['n1']
            if r.tags2:
                r.tags2 = [t for t in r.tags2 if t.kind == 'lit' and t.s not in [e.s for e in r.spot.elems[0]]] or None
    elif ty == 'RESTORE':
        r.cs1 = ss.list()
        if src.p(20):
            r.flags.append('DELAYED')
    elif ty in ('SELECT', 'REMOVE') and src.p(15):
        r.flags.append('DELAYED')
    if ty == 'UNMAP' and src.p(50):
        r.flags.append('UNSAFE')
    if src.p(6) and ty not in ('ADD', 'MAP', 'REPLACE'):
        r.flags.append('NOMAPPED')
    if ty in ('ADD', 'MAP', 'SUBSTITUTE', 'REPLACE') and src.p(4):
        # (whether splitting off a reading for another mapping tag counts as a change is not documented)
        r.flags.append('ITERATE')
        r.tags = [t for t in r.tags if t[0] != '@'] or ['n1']
    if src.p(30):
        r.tests = [test(src, ss, cfg, 2) for _ in src.many(1, 2, 20)]
    if r.spot is not None:
        # the named place has to exist
        r.target = Set('set', None, None, [ss.closed(r.target), r.spot], ['+']) if r.target is not ANY else r.spot
    return r


def config(src):
    return gen.Cfg(mapping=src.c([0, 15, 40]), static=4, maxwin=2, maxcoh=4, maxrd=4, feat=gen.FEAT[:5] + ['<h>'], pos=gen.POS[:3], maxtags=3, wfs=gen.WFS[:4], bases=gen.BASES[:3] + ['"cat"'],
                   subs=src.c([0, 0, 0, 20]), empty=4, numeric=src.c([0, 0, 30]))


def editing(src, env):
    cfg = config(src)
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=src.c([gen.plain_tag, gen.plain_tag, gen.pattern_tag]), named=40)
    layout(src, g, lambda i: edit_rule(src, ss, cfg, spots=3), 8)
    text = gen.show(gen.stream(src, cfg))
    o = Opts(split_mappings=src.p(60))
    run, out = against_ref(env, g, text, o, [])
    n = run.events.get('fired', 0)
    lab = [k for k in ('iterated', 'emptied', 'barrier', 'protected') if run.events.get(k)]
    kinds = sorted(set(r.type for r in g.before + sum(g.sections, []) + g.after if run.applied.get(r.num)))
    return Info(n > 0, g.text() + text, lab + kinds, {"grammar": g.text(), "input": text, "output": out})


SUBS = [
    Sub("editing", editing, 14000, 200000, "at least one rule was applied to a reading"),
]

TECHNIQUE = "property-based testing: generated editing grammars against a reference interpreter"
NOTE = "Random ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY, UNMAP, PROTECT, UNPROTECT and RESTORE rules mixed with removals; the full reading lists are compared with the reference. Sections that do not settle are left out. Exploration only."
