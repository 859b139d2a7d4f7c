"""Positional contextual tests."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen, rich
from vlib.common import against_ref, vislcg3, must, case
from vlib.ref import Opts


def simple_set(src, ss):
    return ss.any(1)


def test(src, ss, cfg, depth=0, first=True):
    t = Test(simple_set(src, ss))
    k = src.w([(6, 'rel'), (5, 'scan'), (2, 'abs'), (1, 'zero'), (1, 'both')])
    if k == 'rel':
        t.off = src.c([-1, 1, -2, 2, -3, 3])
    elif k == 'scan':
        t.off = src.c([-1, 1, -2, 2])
        t.scan = src.w([(3, 1), (1, 2)])
    elif k == 'abs':
        t.abs = True
        t.off = src.c([1, -1, 2, -2, 0, 3])
        if src.p(30):
            t.scan = src.w([(3, 1), (1, 2)])
    elif k == 'both':
        t.off = 0
        t.scan = src.w([(3, 1), (1, 2)])
    if src.p(25):
        t.careful = True
    if src.p(20):
        t.nt = True
    if depth == 0 and src.p(12):
        t.neg = True
    if t.scan:
        if src.p(35):
            t.barrier = simple_set(src, ss)
        if src.p(15):
            t.cbarrier = simple_set(src, ss)
        if src.p(12):
            t.self_ = True
    if src.p(20):
        t.span = src.c(['W', '<', '>'])
    if src.p(7):
        t.opass = src.c(['O', 'o'])
    if src.p(7):
        t.mark = True
    if depth and src.p(10):
        t.jump = 'x'
    if depth < 3 and src.p(35):
        t.link = test(src, ss, cfg, depth + 1)
    return t


def contexts(src, env):
    cfg = gen.Cfg(mapping=0, static=5, maxwin=4, maxcoh=5, maxrd=3, feat=gen.FEAT[:4], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:3], bases=gen.BASES[:3])
    g = Grammar()
    ss = gen.Sets(g, src, cfg, tag=src.c([gen.plain_tag, gen.pattern_tag]), named=40)
    rules = []
    for i in src.many(1, 6, 80):
        ts = [test(src, ss, cfg) for _ in src.many(1, 3, 30)]
        kw = {}
        kind = src.w([(5, 'sub'), (2, 'add'), (2, 'dis')])
        tgt = ANY if src.p(60) else ss.any(1)
        if kind == 'sub':
            r = Rule('SUBSTITUTE', tgt, tags=['zz%d' % i], tags2=[Tag('raw', '*')], tests=ts)
        elif kind == 'add':
            r = Rule('ADD', tgt, tags=['zz%d' % i], tests=ts)
        else:
            r = Rule(src.c(['SELECT', 'REMOVE']), ss.any(1), tests=ts)
        rules.append(r)
    if src.p(70):
        g.before = rules
    else:
        g.sections = [rules]
    text = gen.show(gen.stream(src, cfg))
    o = Opts(split_mappings=True)
    args = []
    nw = src.c([2, 2, 1, 0, 3])
    if nw != 2:
        o.num_windows = nw
        args += ['--num-windows', str(nw)]
    if src.p(10):
        o.always_span = True
        args += ['--always-span']
    if src.p(5):
        o.no_pass_origin = True
        args += ['--no-pass-origin']
    run, out = against_ref(env, g, text, o, args)
    n = run.events.get('fired', 0)
    return Info(n > 0, g.text() + text, ["fired" if n else "silent"], {"grammar": g.text(), "input": text, "output": out})


ZZ = re.compile(r' zz(\d+)')


def independent(src, env):
    """A marker rule marks the same readings whether or not other marker rules stand around it: testing leaves nothing behind."""
    cfg = rich.config(src, mapping=0, empty=0, subs=src.c([0, 0, 25]), maxrd=2, maxwin=src.c([1, 2, 4]))
    R = rich.Rich(src, cfg, templates=src.c([0, 40, 90]), nested_templates=40, tmpl_barriers=40, reuse=src.c([40, 80]), deps=src.c([0, 15, 30]), rels=src.c([0, 12]), subs=15, bag=2, jump=0, deleted=0, sp=0, unif=0)
    g = R.g
    rules = []
    for i in src.many(2, 6, 70):
        r = Rule('ADD', ANY if src.p(60) else R.ss.any(1), tags=['zz%d' % (i + 1)], tests=R.tests(1))
        if src.p(10):
            r.wf = L(src.c(cfg.wfs))
        if src.p(15):
            r.flags.append('REPEAT')
        rules.append(r)
    # the same reading of dependencies and relations in every variant
    g.after = [Rule('REMOVE', comp(L('nvr')), tests=[Test(comp(L('nvr')), dep='p'), Test(comp(L('nvr')), rel='r1')])]
    text = rich.stream(src, cfg, deps=60, rels=30)
    args = ['--split-mappings'] + src.c([[], [], ['--num-windows', '1'], ['--num-windows', '0'], ['--always-span'], ['--no-pass-origin']])

    def run(rs):
        g.before = rs
        gt = g.text()
        return gt, must(vislcg3(env, gt, text, args), "vislcg3", gt, text, args)

    alls, whole = run(rules)
    marks = set()
    for i, r in enumerate(rules):
        gt, out = run([r])
        k = str(i + 1)
        want = ZZ.sub(lambda m: m.group(0) if m.group(1) == k else '', whole)
        if ' zz' + k in want:
            marks.add(k)
        if want != out:
            raise Violation("rule %d by itself marks other readings than among the others" % (i + 1), "independent",
                            case(alls, text, args) + "--- rule %s\n--- alone\n%s--- among the others\n%s" % (r.text(), out, want))
    nt = len(marks) > 1
    return Info(nt, alls + text, ["templates" if g.templates else "no templates", "marks %d" % min(3, len(marks))], {"grammar": alls, "input": text, "options": args, "output": whole})


PLAIN = ('1', '-1', '2', '-2', '-1C')


def templates(src, env):
    """A few rules that use the same one or two templates in several ways; in the variant, each by itself; a template of one simple test is also written out."""
    cfg = gen.Cfg(mapping=0, empty=0, static=5, maxwin=3, maxcoh=5, maxrd=2, feat=gen.FEAT[:2], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:3], bases=gen.BASES[:2])
    g = rich.Grammar2()
    ss = gen.Sets(g, src, cfg, tag=gen.plain_tag, named=30)
    tag = lambda: ss.any(1) if src.p(30) else comp(L(src.c(cfg.pos + cfg.feat)))
    plain = {}
    for i in range(src.w([(3, 1), (1, 2)])):
        name = 'tm%d' % i
        alts = []
        for _ in range(src.w([(4, 1), (2, 2)])):
            if g.templates and src.p(30):
                t = rich.Templ(src.c(g.templates)[0], src.c(['', '1', '1*', '-1*']))
                if '*' in t.pos and src.p(50):
                    t.barrier = tag()
            else:
                t = Test(tag(), off=src.c([1, -1, 0, 2]), scan=src.w([(3, 1), (1, 2), (1, 0)]))
                if t.scan and src.p(50):
                    setattr(t, src.c(['barrier', 'barrier', 'cbarrier']), tag())
                if src.p(20):
                    t.careful = True
                if src.p(35):
                    t.link = Test(tag(), off=src.c([1, -1, 0]), scan=src.c([0, 0, 1]))
            alts.append(t)
        if len(alts) == 1 and isinstance(alts[0], Test) and not alts[0].link:
            plain[name] = alts[0]
        g.templates.append((name, alts))
    rules, direct = [], []
    for i in src.many(2, 5, 70):
        t = rich.Templ(src.c(g.templates)[0], src.c(['', '', '1', '-1', '2', '0*', '1*', '-1*', '1**', '-1*', '1*', '@1', '1*C', '-1C', '1*W', '-1*<', '1*S', '-2']))
        if '*' in t.pos:
            if src.p(50):
                t.barrier = tag()
            if src.p(25):
                t.cbarrier = tag()
        d = None
        if t.name in plain and '@' not in t.pos:
            b = plain[t.name]
            d = Test(b.target, off=b.off, scan=b.scan, careful=b.careful, barrier=b.barrier, cbarrier=b.cbarrier)
            if t.pos:
                d.raw = t.pos
                d.barrier, d.cbarrier = t.barrier or (b.barrier if '*' in t.pos else None), t.cbarrier or (b.cbarrier if '*' in t.pos else None)
                if '*' not in t.pos and (b.barrier or b.cbarrier):
                    d = None
        if src.p(20):
            t.link = Test(tag(), off=src.c([1, -1, 0]))
            d = None
        if d is None:
            d = t
        elif src.p(10):
            t.neg = d.neg = True
        elif src.p(10):
            t.nt = True
            d = t
        tgt = ANY if src.p(80) else tag()
        rules.append(Rule('ADD', tgt, tags=['zz%d' % (i + 1)], tests=[t]))
        direct.append(None if d is t else Rule('ADD', tgt, tags=['zz%d' % (i + 1)], tests=[d]))
    text = gen.show(gen.stream(src, cfg))
    args = ['--split-mappings']

    def run(rs):
        g.before = rs
        gt = g.text()
        return gt, must(vislcg3(env, gt, text, args), "vislcg3", gt, text, args)

    alls, whole = run(rules)
    marks = set()
    for i, r in enumerate(rules):
        k = str(i + 1)
        want = ZZ.sub(lambda m: m.group(0) if m.group(1) == k else '', whole)
        if ' zz' + k in want:
            marks.add(k)
        for what, q in (('alone', r), ('written out', direct[i])):
            if q is None:
                continue
            gt, out = run([q])
            if want != out and what == 'written out' and q.tests[0].raw in PLAIN:
                # known: the position of what the template covers is not looked at; anything else is still reported
                t = q.tests[0]
                t.raw += '**'
                if run([q])[1] == want:
                    raise Violation("rule %d: the template matches outside the position given" % (i + 1), "edge", case(alls, text, args))
            if want != out:
                raise Violation("rule %d %s marks other readings than among the others" % (i + 1, what), "templates",
                                case(alls, text, args) + "--- rule %s\n--- %s: %s\n%s--- among the others\n%s" % (r.text(), what, q.text(), out, want))
    return Info(len(marks) > 1, alls + text, ["written out %d" % min(2, sum(1 for d in direct if d)), "marks %d" % min(3, len(marks))], {"grammar": alls, "input": text, "output": whole})


FINDINGS = {"template-edge": lambda sub, v, src: v.kind == "edge"}

SUBS = [
    Sub("contexts", contexts, 30000, 200000, "at least one rule with a contextual test fired"),
    Sub("templates", templates, 6000, 60000, "at least two of the rules marked readings"),
    Sub("independent", independent, 4000, 60000, "at least two of the rules marked readings"),
]

TECHNIQUE = "property-based testing: generated contextual tests and streams against a reference interpreter"
NOTE = "Random positions, scans, barriers, careful/NOT/NEGATE, links, jumps, marks, templates and window-spanning over up to three small windows; the firing of a marker rule at every cohort is compared with the reference. Exploration only."
