"""C12: rules that add, remove, move, copy, split and merge cohorts."""
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref
from vlib.ref import Opts
from vlib.refrun import same
from checks import C10

MOVING = ('ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH', 'COPYCOHORT', 'SPLITCOHORT', 'MERGECOHORTS')
EVENTS = ('addcohort', 'remcohort', 'move', 'switch', 'copycohort', 'splitcohort', 'mergecohorts')


class Gen(C10.Gen):
    def __init__(self, src, deps):
        C10.Gen.__init__(self, src)
        self.deps = deps
        self.cfg = gen.Cfg(mapping=0, static=4, empty=0, maxwin=2, maxcoh=6, maxrd=2, feat=gen.FEAT[:3], pos=gen.POS[:3], maxtags=2, wfs=gen.WFS[:3], bases=gen.BASES[:3], subs=src.c([0, 0, 15]))
        self.ss.cfg = self.cfg
        self.made = []
        # <<< stays with its cohort when that is moved, split or copied (pinned by the suite's T_Movement)
        self.edge = src.p(15)

    def any(self):
        src = self.src
        if self.made and src.p(25):
            return comp(L(src.c(self.made)))
        if src.p(25 if self.edge else 3):
            return comp(L(src.c(['<<<', '>>>', '<<<'] if self.edge else ['>>>'])))
        return C10.Gen.any(self)

    def links(self, t):
        if not self.deps:
            return self.walk(t)
        C10.Gen.links(self, t)

    def new(self):
        self.made.append('n%d' % (len(self.made) + 1))
        return self.made[-1]

    def tags(self, tag, star=15):
        src = self.src
        out = []
        for _ in src.many(1, 2, 25):
            out += ['"%s"' % src.c(['nb', 'a', 'cat']), tag] + src.sub(self.cfg.pos + self.cfg.feat, 0, 2)
            if src.p(star):
                out.append('*')
        return out

    def fresh(self, tag):
        """A target that what the rule makes is not."""
        return Set('set', None, None, [self.ss.closed(self.ss.list()) if self.src.p(70) else ANY, comp(L(tag))], ['-'])

    def child(self):
        return self.any() if self.deps and self.src.p(30) else None

    def seek(self):
        src = self.src
        if src.p(60):
            t = Test(self.any(), off=src.c([1, -1, 2, -2, 0]))
            t.scan = 1 if t.off == 0 or src.p(50) else 0
            if t.scan and src.p(20):
                t.barrier = self.ss.any(1)
            return t
        t = self.test(0, True)
        q = t
        while q:
            q.span = ''
            q.attach = None
            q = q.link
        return t

    def moving(self):
        src = self.src
        ty = src.w([(3, 'ADDCOHORT'), (4, 'REMCOHORT'), (2, 'MERGECOHORTS')] if self.edge else [(3, 'ADDCOHORT'), (4, 'REMCOHORT'), (5, 'MOVE'), (3, 'SWITCH'), (3, 'COPYCOHORT'), (3, 'SPLITCOHORT'), (3, 'MERGECOHORTS')])
        if ty == 'ADDCOHORT':
            n = self.new()
            r = Rule(ty, self.fresh(n), tests=self.tests())
            r.tags = ['"<%s>"' % src.c(['new', 'w1', 'a'])] + self.tags(n)
            r.where = src.c(['BEFORE', 'AFTER'])
            r.cs1 = self.child()
        elif ty == 'REMCOHORT':
            r = Rule(ty, self.any(), tests=self.tests(85))
            if src.p(30):
                r.flags.append('IGNORED')
                r.cs1 = self.child()
        elif ty in ('MOVE', 'SWITCH'):
            r = Rule(ty, self.any(), tests=self.tests())
            r.to = src.c(['BEFORE', 'AFTER']) if ty == 'MOVE' else 'WITH'
            r.dep_tests = [self.seek()]
            if ty == 'MOVE':
                r.cs1, r.cs2 = self.child(), self.child()
            if src.p(70):
                r.flags.append('NOITERATE')
            if src.p(8):
                r.flags.append('REVERSE')
        elif ty == 'COPYCOHORT':
            n = self.new()
            r = Rule(ty, self.fresh(n), tests=self.tests())
            r.tags = [n] + src.sub(self.cfg.pos, 0, 1)
            if src.p(40):
                r.tags2 = [L(x) for x in src.sub(self.cfg.pos + self.cfg.feat, 1, 2)]
            r.to = src.c(['TO BEFORE', 'TO AFTER'])
            r.dep_tests = [self.seek()]
            r.cs2 = self.child()
        elif ty == 'SPLITCOHORT':
            n = self.new()
            r = Rule(ty, self.fresh(n), tests=self.tests())
            k = src.w([(4, 2), (2, 3), (1, 4)])
            r.tags = []
            deps = src.p(40)
            heir, top = src.r(1, k), src.r(1, k)
            for i in range(1, k + 1):
                part = ['"<p%d>"' % i] + self.tags(n, 8)
                if deps:
                    # any part may be on top; the others hang on it or on one nearer to it
                    up = 'p' if i == top else str(src.r(i + 1, top) if i < top else src.r(top, i - 1))
                    part.append('%s->%s' % ('c' if i == heir else str(i), up))
                r.tags += part
        else:
            n = self.new()
            r = Rule(ty, self.fresh(n), tests=self.tests(40))
            r.tags = ['"<mm>"'] + self.tags(n)
            r.to = 'WITH'
            r.dep_tests = [self.seek() for _ in src.many(1, 2, 30)]
            if src.p(15):
                r.flags.append('DETACH')
        if src.p(6):
            r.wf = L(src.c(self.cfg.wfs))
        return r


def compare(want, got):
    # a window without cohorts still prints its blank line
    return same(want, [x for x in got if x[0] != 'text' or x[1].strip()])


def cohorts(src, env):
    mode = src.w([(6, 'all'), (3, 'none')])
    G = Gen(src, mode == 'all')
    rs = G.rules('moving', 1, 5, 75)
    if not any(r.type in MOVING for r in rs):
        raise Discard()
    for r in rs:
        # the flag is printed with its set
        r.flags = [f for f in r.flags if f != 'WITHCHILD']
    if any(r.type in ('SPLITCOHORT', 'MERGECOHORTS') or r.type == 'REMCOHORT' and 'IGNORED' not in r.flags for r in rs) and mode == 'all':
        # whether an ignored child of a cohort that goes away is passed on is not stated
        for r in rs:
            if 'IGNORED' in r.flags:
                r.flags.remove('IGNORED')
                r.cs1 = None
    if mode == 'all':
        # dependencies are only read for a grammar that uses them
        G.g.after = [Rule('REMOVE', comp(L('nvr')), tests=[Test(comp(L('nvr')), dep='p')])]
    if src.p(15):
        G.g.header = 'OPTIONS += addcohort-attach ;'
    text = C10.stream(src, G.cfg, mode)
    if src.p(50):
        lines, n = [], 0
        for line in text.split('\n'):
            if line.startswith('"<') and src.p(40):
                n += 1
                lines.append('text%d' % n)
            lines.append(line)
        text = '\n'.join(lines)
    # every rule once: which cohorts a rule is tried on again after nothing but moves is a matter of the engine's cache
    k = src.r(0, len(rs))
    G.g.before, G.g.sections = rs[:k], [rs[k:]] if rs[k:] else []
    o = Opts(split_mappings=True, max_runs=1)
    args = ['--max-runs', '1']
    run, out = against_ref(env, G.g, text, o, args, compare)
    labels = [k for k in EVENTS if run.events.get(k)]
    return Info(bool(labels), G.g.text() + text, labels, {"grammar": G.g.text(), "input": text, "output": out})


SUBS = [
    Sub("cohorts", cohorts, 10000, 150000, "a rule added, removed, moved, copied, split or merged a cohort"),
]

TECHNIQUE = "property-based testing: generated cohort-moving rules over random windows and trees against a reference interpreter"
NOTE = "Within windows; COPYCOHORT FROM and moving across windows are not generated. Exploration only."
