"""C11: relations are added, replaced, removed, queried and printed as the rules say."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.ref import Opts
from vlib.refrun import same, parse_out
from checks.C10 import Gen


def stream(src, cfg):
    """Returns text; cohorts may have numbers and relations, mostly to the same or a neighbouring window."""
    wins = gen.stream(src, cfg)
    use = src.p(55)
    ids = {}
    nxt = src.c([1, 10, 500])
    for i, w in enumerate(wins):
        for j, c in enumerate(w):
            if use and src.p(70):
                ids[i, j] = nxt
                nxt += src.w([(5, 1), (1, 2)])
    out = []
    for i, w in enumerate(wins):
        near = [v for (a, _), v in ids.items() if a == i]
        for j, (wf, st, rds) in enumerate(w):
            extra = []
            if (i, j) in ids:
                extra.append('ID:%d' % ids[i, j])
                for _ in src.many(0, 3, 35):
                    x = 'R:%s:%d' % (src.c(['r1', 'r1', 'r2', 'q1']), src.c(near))
                    if x not in extra:
                        extra.append(x)
            if extra:
                rds = [[(b, t + (extra if k == 0 else [])) for k, (b, t) in enumerate(ch)] for ch in rds]
            out.append(gen.show_cohort((wf, st, rds)))
    return ''.join(out)


TAIL = re.compile(r'( ID:\d+)((?: R:\S+)*)$')


def lines(out):
    """The printed order of a cohort's relations is not specified."""
    fix = lambda l: TAIL.sub(lambda m: m.group(1) + ''.join(' ' + x for x in sorted(m.group(2).split())), l)
    return '\n'.join(fix(l) for l in out.split('\n'))


def compare(want, real):
    def norm(items):
        return [it if it[0] != 'coh' else (it[0], it[1], it[2], [[lines(l) for l in rd] for rd in it[3]]) for it in items]
    fix = [it if it[0] != 'coh' else (it[0], it[1], it[2], [(n, [lines(l) for l in rd]) for n, rd in it[3]]) for it in want]
    return same(fix, norm(real))


def ids_there(out, gt, text, args, run):
    """Every relation names a cohort by the number printed on it, and no two cohorts have the same number."""
    ids, names = [], []
    cur = None
    for line in out.split('\n'):
        if line.startswith('"<'):
            cur = None
        m = re.search(r' ID:(\d+)((?: R:\S+:\d+)*)$', line)
        if m and line.startswith('\t"'):
            if cur is not None and cur != m.group(0):
                raise Violation("readings of one cohort have different relations", "ids", case(gt, text, args) + "--- output\n" + out)
            if cur is None:
                ids.append(m.group(1))
                names += [x.rsplit(':', 1)[1] for x in m.group(2).split()]
            cur = m.group(0)
    if len(set(ids)) != len(ids):
        raise Violation("two cohorts have the same number", "ids", case(gt, text, args) + "--- output\n" + out)
    for n in names:
        # a rule may link to the start of a window, which is not printed
        if n not in ids and int(n) not in run.roots:
            raise Violation("a relation names cohort %s, which no cohort has printed" % n, "ids", case(gt, text, args) + "--- output\n" + out)


def relations(src, env):
    G = Gen(src, rels=True)
    rs = G.rules('rel', 1, 7, 80)
    if not any('RELATION' in r.type for r in rs):
        raise Discard()
    if any(t.dep for t in tests_of(rs)):
        G.cfg.deps = 0
    text = stream(src, G.cfg)
    o = Opts(split_mappings=True, rel=True)
    args = []
    if src.p(25):
        nw = src.c([0, 1, 3])
        o.num_windows = nw
        args += ['--num-windows', str(nw)]
    if src.p(15):
        o.print_ids = True
        args += ['--print-ids']
    run, out = against_ref(env, G.g, text, o, args, compare)
    ids_there(out, G.g.text(), text, args, run)
    n = sum(run.events.get(k, 0) for k in ('related', 'unrelated'))
    labels = [k for k in ('related', 'unrelated', 'replaced') if run.events.get(k)]
    return Info(n > 0, G.g.text() + text, labels, {"grammar": G.g.text(), "input": text, "output": out})


def tests_of(rs):
    todo = [t for r in rs for t in r.tests + r.dep_tests]
    while todo:
        t = todo.pop()
        yield t
        if t.link:
            todo.append(t.link)


SUBS = [
    Sub("relations", relations, 16000, 200000, "a rule added or removed a relation"),
]

TECHNIQUE = "property-based testing: generated relation rules and tests over streams with relations against a reference interpreter, and a check that printed relations name printed numbers"
NOTE = "Relations read from the input lie within a window. Exploration only."
