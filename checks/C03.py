"""SELECT, REMOVE and IFF: order, repetition and safety."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.refrun import parse_out
from vlib.ref import Opts
from checks.C02 import test, simple_set


def dis_rule(src, ss, cfg, flags=True):
    ty = src.w([(4, 'SELECT'), (4, 'REMOVE'), (3, 'IFF')])
    r = Rule(ty, ss.any(1) if src.p(90) else ANY)
    if src.p(65):
        r.tests = [test(src, ss, cfg, 1) for _ in src.many(1, 2, 25)]
    if src.p(12):
        r.wf = src.c([L(src.c(cfg.wfs)), Tag('icase', src.c(['"<A>"', '"<b>"'])), Tag('rx', '"<[bc].*>"', ic=src.p(50))])
    if flags:
        if src.p(15):
            r.flags.append(src.c(['UNSAFE', 'SAFE']))
        if src.p(8):
            r.flags.append('NOITERATE')
        if src.p(6):
            r.flags.append('REPEAT')
        if src.p(6):
            r.flags.append('DELAYED')
        elif src.p(4):
            r.flags.append('IGNORED')
        if src.p(4):
            r.flags.append('KEEPORDER')
        if src.p(5):
            r.flags.append('VARYORDER') if 'KEEPORDER' not in r.flags else None
    return r


def layout(src, g, make, hi=10, more=85):
    """Rules spread over BEFORE-SECTIONS, sections and AFTER-SECTIONS."""
    g.before, g.sections, g.after = [], [], []
    out = []
    for i in src.many(1, hi, more):
        w = src.w([(5, 's'), (2, 'n'), (1, 'b'), (1, 'a')])
        r = make(i)
        out.append(r)
        if w == 'b':
            g.before.append(r)
        elif w == 'a':
            g.after.append(r)
        else:
            if w == 'n' or not g.sections:
                g.sections.append([])
            g.sections[-1].append(r)
    return out


def scheduling(src, env):
    cfg = gen.Cfg(mapping=src.c([0, 0, 20]), static=4, maxwin=3, maxcoh=6, maxrd=5, feat=gen.FEAT[:5], pos=gen.POS[:4], maxtags=2, wfs=gen.WFS[:4], bases=gen.BASES[:4],
                  subs=src.c([0, 0, 0, 20]))
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=src.c([gen.plain_tag, gen.plain_tag, gen.pattern_tag]), named=40)
    rules = layout(src, g, lambda i: dis_rule(src, ss, cfg))
    text = gen.show(gen.stream(src, cfg))
    o = Opts(split_mappings=True)
    args = []
    if src.p(8):
        o.unsafe = True
        args.append('--unsafe')
    run, out = against_ref(env, g, text, o, args)
    # independent of the reference: nothing invented, nothing altered, order kept, no cohort emptied without UNSAFE
    danger = o.unsafe or any('UNSAFE' in r.flags for r in rules)
    if not any('IGNORED' in r.flags or 'DELAYED' in r.flags for r in rules):
        a = [c for c in parse_out(text) if c[0] == 'coh']
        b = [c for c in parse_out(out) if c[0] == 'coh']
        if [x[1] for x in a] != [x[1] for x in b]:
            raise Violation("cohorts changed", "cohorts", case(g.text(), text, args) + out)
        for x, y in zip(a, b):
            if x[3] and not y[3] and not danger:
                raise Violation("cohort %s lost its last reading" % x[1], "emptied", case(g.text(), text, args) + out)
            if cfg.mapping == 0:
                it = iter(x[3])
                for rd in y[3]:
                    if not any(rd == z for z in it):
                        raise Violation("cohort %s: readings altered or reordered: %r from %r" % (x[1], y[3], x[3]), "altered", case(g.text(), text, args) + out)
    n = run.events.get('fired', 0)
    lab = [k for k in ('iterated', 'emptied', 'barrier') if run.events.get(k)]
    return Info(n > 0, g.text() + text, lab + ["fired" if n else "silent"], {"grammar": g.text(), "input": text, "output": out})


SUBS = [
    Sub("scheduling", scheduling, 30000, 200000, "at least one rule removed or selected a reading"),
]

TECHNIQUE = "property-based testing: generated grammars against a reference interpreter of sections and SELECT/REMOVE/IFF"
NOTE = "Random BEFORE-/numbered/AFTER-SECTIONS with disambiguation rules, flags and contexts; surviving readings are compared cohort by cohort with the reference. Exploration only."
