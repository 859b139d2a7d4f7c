"""C10: dependency rules build the tree they describe, and dependency tests see it."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, case
from vlib.ref import Opts
from vlib.refrun import same, split_tags


def tree(src, n, loose=0):
    """A random tree over 1..n as parent numbers; 0 is the root, None is no tag, the own number is no parent."""
    perm = src.perm(list(range(1, n + 1))) if src.p(50) else list(range(1, n + 1))
    par = {}
    for k, x in enumerate(perm):
        par[x] = 0 if k == 0 or src.p(12) else perm[src.r(0, k - 1)]
        if src.p(6):
            par[x] = x
    for x in par:
        if x > 1 and loose and src.p(loose):
            par[x] = None
        elif loose and src.p(3):
            par[x] = 77     # not there
    return par


def stream(src, cfg, mode):
    """mode: 'all' every cohort with a number, 'some', 'none'."""
    wins = gen.stream(src, cfg)
    out = []
    for w in wins:
        par = tree(src, len(w), 15 if mode == 'some' else 0)
        for i, (wf, st, rds) in enumerate(w):
            if mode != 'none' and par[i + 1] is not None:
                rds = [[(b, t + (['#%d->%d' % (i + 1, par[i + 1])] if k == 0 else [])) for k, (b, t) in enumerate(ch)] for ch in rds]
            out.append(gen.show_cohort((wf, st, rds)))
    return ''.join(out)


class Gen:
    def __init__(self, src, rels=False):
        self.src = src
        self.rels = rels
        self.cfg = gen.Cfg(mapping=0, static=3, empty=0, maxwin=3, maxcoh=6, maxrd=2, feat=gen.FEAT[:3], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:3], bases=gen.BASES[:3])
        self.g = Grammar()
        self.ss = gen.Sets(self.g, src, self.cfg, tag=gen.plain_tag, named=50)
        self.k = 0

    def any(self):
        return ANY if self.src.p(25) else self.ss.any(1)

    def walk(self, t):
        """Plain positions."""
        src = self.src
        k = src.w([(4, 'rel'), (6, 'scan'), (1, 'abs'), (2, 'both')])
        if k == 'rel':
            t.off = src.c([-1, 1, -2, 2, 3])
        elif k == 'scan':
            t.off = src.c([-1, 1, -2, 2])
            t.scan = src.w([(3, 1), (2, 2)])
        elif k == 'abs':
            t.abs = True
            t.off = src.c([1, -1, 2, -2, 0])
        else:
            t.off = 0
            t.scan = src.w([(3, 1), (1, 2)])
        if self.rels and src.p(25):
            t.span = src.c(['W', '<', '>'])
        if t.scan:
            if src.p(25):
                t.barrier = self.ss.any(1)
            if src.p(8):
                t.cbarrier = self.ss.any(1)
            if src.p(10):
                t.self_ = True

    def links(self, t):
        src = self.src
        if self.rels and src.p(70):
            t.rel = src.c(['r1', 'r1', 'r2', 'q1', '*'])
            if src.p(20):
                t.lr = src.c(['l', 'r', 'll', 'rr'])
                if t.lr[0] == 'r':
                    t.careful = True    # rr: would be read as rr
            if src.p(15):
                t.self_ = True
            return
        t.dep = src.w([(5, 'p'), (6, 'c'), (4, 's'), (2, 'pp'), (2, 'cc')])
        if t.dep in ('p', 'c') and src.p(25):
            t.scan = 1
        if src.p(20):
            t.lr = src.c(['l', 'r', 'll', 'rr'])
            if t.dep in ('p', 'pp', 'cc') and t.lr in ('ll', 'rr'):
                t.lr = t.lr[0]
        if src.p(12):
            t.self_ = True

    def test(self, depth=0, seek=False):
        """seek: the test has to come to a cohort."""
        src = self.src
        t = Test(self.any())
        if src.p(60 if not seek else 25):
            self.links(t)
            if not seek and src.p(15):
                if src.p(50):
                    t.all = True
                elif depth == 0 or True:
                    t.none = True
        else:
            self.walk(t)
        if src.p(12):
            t.careful = True
        if not seek and not (t.none or t.all) and src.p(15):
            t.nt = True
        if not seek and depth == 0 and src.p(8):
            t.neg = True
        if seek and src.p(15):
            t.attach = True
        if depth < 2 and src.p(20) and not t.none:
            t.link = self.test(depth + 1, seek)
            if not t.link.attach and seek and src.p(15):
                t.attach = True
        return t

    def tests(self, p=55):
        return [self.test() for _ in self.src.many(1, 2, 25)] if self.src.p(p) else []

    def marker(self):
        self.k += 1
        return Rule('SUBSTITUTE', ANY if self.src.p(60) else self.ss.any(1), tags=['zz%d' % self.k], tags2=[Tag('raw', '*')], tests=self.tests(95))

    def dep(self):
        src = self.src
        ty = src.w([(6, 'SETPARENT'), (5, 'SETCHILD'), (2, 'REMPARENT'), (2, 'SWITCHPARENT')])
        r = Rule(ty, self.any(), tests=self.tests(50))
        if ty == 'SWITCHPARENT' and src.p(40):
            r.flags.append('WITHCHILD')
            r.cs1 = self.any()
        if src.p(12):
            r.flags.insert(0, 'NOPARENT' if ty.startswith('SET') else 'REMEMBERX')
        if ty in ('SETPARENT', 'SETCHILD'):
            r.to = src.c(['TO', 'TO', 'FROM'])
            r.dep_tests = [self.test(0, True)] + [self.test() for _ in src.many(0, 2, 20)]
            if src.p(20):
                r.flags.insert(0, 'NEAREST')
            elif src.p(8):
                r.flags.insert(0, 'REVERSE')
            if ty == 'SETPARENT' and src.p(15):
                r.flags.insert(0, 'SAFE')
        return r

    def rel(self):
        src = self.src
        two = src.p(35)
        r = Rule(src.c(['ADDRELATION', 'ADDRELATION', 'SETRELATION', 'REMRELATION']) + ('S' if two else ''), self.any(), tests=self.tests(50))
        r.tags = src.sub(['r1', 'r2', 'q1'], 1, 2)
        if two:
            r.tags2 = src.sub(['r1', 'r2', 'q1'], 1, 2)
        r.to = src.c(['TO', 'TO', 'FROM'])
        r.dep_tests = [self.test(0, True)] + [self.test() for _ in src.many(0, 2, 20)]
        if src.p(10):
            r.flags.append(src.c(['REVERSE', 'NEAREST']))
        return r

    def rules(self, what, lo, hi, more):
        src = self.src
        rs = []
        for _ in src.many(lo, hi, more):
            k = src.w([(6, what), (3, 'marker'), (1, 'dis')])
            if k == 'dis':
                r = Rule(src.c(['SELECT', 'REMOVE']), self.ss.any(1), tests=self.tests(40))
            else:
                r = getattr(self, k)()
            rs.append(r)
        if src.p(70):
            self.g.before = rs
        elif src.p(50):
            self.g.sections = [rs]
        else:
            n = src.r(0, len(rs))
            self.g.sections = [rs[:n] or [self.marker()], rs[n:] or [self.marker()]]
        return rs


def fix_with(r):
    # the flag is printed with its set
    r.flags = [f for f in r.flags if f != 'WITHCHILD']


DEP = re.compile(r' #(\d+)->(\d+)')


def well_formed(out, gt, text, args):
    """No loops, and parents that are there, in what was printed."""
    wins = [[]]
    for line in out.split('\n'):
        m = re.match(r'^\t"', line) and DEP.search(line)
        if m:
            a, b = int(m.group(1)), int(m.group(2))
            if wins[-1] and a < wins[-1][-1][0]:
                wins.append([])
            if not wins[-1] or wins[-1][-1] != (a, b):
                wins[-1].append((a, b))
    for w in wins:
        par = dict(w)
        if len(par) != len(w):
            raise Violation("readings of one cohort have different parents: %r" % (w,), "parents", case(gt, text, args) + "--- output\n" + out)
        for a, b in w:
            if b and b not in par:
                raise Violation("cohort %d has parent %d, which is not printed" % (a, b), "parents", case(gt, text, args) + "--- output\n" + out)
            x, n = a, 0
            while x and par[x] != x:
                x = par[x]
                n += 1
                if n > len(w):
                    raise Violation("the parents of cohort %d go in a circle" % a, "loop", case(gt, text, args) + "--- output\n" + out)


def trees(src, env):
    G = Gen(src)
    rs = G.rules('dep', 1, 7, 80)
    for r in rs:
        fix_with(r)
    if not any(r.type in ('SETPARENT', 'SETCHILD', 'REMPARENT', 'SWITCHPARENT') for r in rs):
        raise Discard()
    mode = src.w([(5, 'all'), (2, 'some'), (2, 'none')])
    text = stream(src, G.cfg, mode)
    o = Opts(split_mappings=True)
    args = []
    if src.p(25):
        nw = src.c([0, 1, 3])
        o.num_windows = nw
        args += ['--num-windows', str(nw)]
    run, out = against_ref(env, G.g, text, o, args)
    well_formed(out, G.g.text(), text, args)
    n = sum(run.events.get(k, 0) for k in ('attached', 'removed', 'switched'))
    labels = [k for k in ('attached', 'removed', 'switched', 'loop', 'onward') if run.events.get(k)]
    return Info(n > 0, G.g.text() + text, labels, {"grammar": G.g.text(), "input": text, "output": out})


SUBS = [
    Sub("trees", trees, 16000, 200000, "a rule attached, detached or rotated a cohort"),
]

TECHNIQUE = "property-based testing: generated dependency rules and tests over random trees against a reference interpreter, and a check of the printed links for loops and missing parents"
NOTE = "Trees within windows; ALLOWLOOP and links across windows are not generated here. Exploration only."
