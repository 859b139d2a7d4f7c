"""Grammars and streams that use most of the language, for checks that need no reference interpreter."""
from .gr import Tag, L, Set, comp, ANY, Test, Rule, Grammar
from . import gen

NAMES = ['first', 'second', 'third', 'r-4', 'x_5']


class Templ:
    """A test that refers to a template."""
    def __init__(self, name, pos='', link=None, barrier=None, cbarrier=None):
        self.name, self.pos, self.link = name, pos, link
        self.barrier, self.cbarrier = barrier, cbarrier
        self.target = ANY
        self.sub = 0
        self.nt = self.neg = None

    def text(self):
        s = ('NEGATE ' if self.neg else '') + ('NOT ' if self.nt else '') + (self.pos + ' ' if self.pos else '') + 'T:' + self.name
        if self.cbarrier:
            s += ' CBARRIER ' + self.cbarrier.ref()
        if self.barrier:
            s += ' BARRIER ' + self.barrier.ref()
        if self.link:
            s += ' LINK ' + self.link.text()
        return s


class Grammar2(Grammar):
    """With templates."""
    def __init__(self):
        Grammar.__init__(self)
        self.templates = []     # (name, [alternative test])
        self.split = None

    def text(self):
        h = self.header
        self.header = h + ''
        t = Grammar.text(self)
        if self.templates:
            # after the sets, before the first section
            lines = t.split('\n')
            k = next((i for i, l in enumerate(lines) if l in ('BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS', 'NULL-SECTION')), len(lines) - 1)
            add = []
            for name, alts in self.templates:
                if len(alts) == 1:
                    add.append('TEMPLATE %s = %s ;' % (name, alts[0].text()))
                else:
                    add.append('TEMPLATE %s = %s ;' % (name, ' OR '.join('(' + a.text() + ')' for a in alts)))
            lines[k:k] = add
            t = '\n'.join(lines)
        self.header = h
        return t

    def rules(self):
        out = []

        def walk(rs):
            for r in rs:
                out.append(r)
                if r.rules:
                    walk(r.rules)
        for rs in [self.before] + self.sections + [self.after, self.null]:
            walk(rs)
        return out


class Rich:
    """Feature switches in percent; 0 leaves the feature out."""
    DEF = dict(templates=12, deps=15, rels=8, subs=15, unif=8, vstr=8, move=12, vars=8, withs=6, delimit=2, bag=3, allnone=3, deleted=4, jump=0, names=15, edit=40, dis=35, null=2, flags=10, loops=0,
               nested_templates=20, parens=0, tmpl_barriers=0, reuse=40, maptag=15, sp=4, iterate=4, names_unique=1)

    def __init__(self, src, cfg, **kw):
        self.f = dict(Rich.DEF)
        self.f.update(kw)
        self.src, self.cfg = src, cfg
        self.g = Grammar2()
        self.ss = gen.Sets(self.g, src, cfg, tag=src.c([gen.plain_tag, gen.plain_tag, gen.pattern_tag]), named=40)
        self.nt = 0
        self.vset = []
        self.k = 0
        self.unif = False

    def on(self, k):
        return self.src.p(self.f[k])

    # ---- tests ------------------------------------------------------------
    def target(self):
        src = self.src
        if self.unif and src.p(50) and self.vset:
            return src.c(self.vset)
        if self.on('sp') and self.f['sp']:
            return comp(Tag('sp', src.c(['_TARGET_', '_MARK_', '_SAME_BASIC_'])))
        return self.ss.any(1)

    def test(self, depth=0):
        src, f = self.src, self.f
        if depth < 2 and self.f['templates'] and self.on('templates'):
            t = Templ(self.template(), src.c(['', '', '1', '-1', '0', '2', '1*', '-1*']))
            if depth == 0 and src.p(10):
                t.neg = True
            elif src.p(8):
                t.nt = True
            if f['tmpl_barriers'] and '*' in t.pos:
                if self.on('tmpl_barriers'):
                    t.barrier = self.ss.any(1)
                if src.p(f['tmpl_barriers'] // 2):
                    t.cbarrier = self.ss.any(1)
            if src.p(20):
                t.link = self.test(depth + 1)
            return t
        t = Test(self.target())
        k = src.w([(6, 'rel'), (5, 'scan'), (2, 'abs'), (1, 'zero'), (1, 'both'), (f['deps'] // 4, 'dep'), (f['rels'] // 3, 'rels'), (f['bag'], 'bag')])
        if k == 'rel':
            t.off = src.c([-1, 1, -2, 2, -3, 3])
        elif k == 'scan':
            t.off = src.c([-1, 1, -2, 2])
            t.scan = src.w([(3, 1), (1, 2)])
        elif k == 'abs':
            t.abs = True
            t.off = src.c([1, -1, 2, -2, 0, 3])
        elif k == 'both':
            t.off = 0
            t.scan = src.w([(3, 1), (1, 2)])
        elif k == 'dep':
            t.dep = src.c(['p', 'c', 's', 'pp', 'cc'])
            if t.dep in ('p', 'c') and src.p(20):
                t.scan = 1
        elif k == 'rels':
            t.rel = src.c(['r1', 'r2', '*'])
        elif k == 'bag':
            t.raw = src.c(['B', 'B', '0B'])[:1]
            t.bag = True
        if not t.bag:
            if src.p(22):
                t.careful = True
            if src.p(20):
                t.nt = True
            elif self.f['allnone'] and t.dep and self.on('allnone'):
                setattr(t, src.c(['all', 'none']), True)
            if depth == 0 and src.p(10):
                t.neg = True
            if t.scan and not t.dep:
                if src.p(35):
                    t.barrier = self.ss.any(1)
                if src.p(12):
                    t.cbarrier = self.ss.any(1)
                if src.p(10):
                    t.self_ = True
            if k != 'rels' and src.p(15) and not t.dep:
                t.span = src.c(['W', '<', '>'])
            if src.p(6):
                t.opass = src.c(['O', 'o'])
            if src.p(6):
                t.mark = True
            if depth and src.p(8):
                t.jump = 'x'
            if self.f['subs'] and src.p(self.f['subs'] // 2):
                t.sub = src.c([1, -1, 2, 32767])
            if self.f['deleted'] and self.on('deleted'):
                if src.p(50):
                    t.dele = True
                else:
                    t.dela = True
        if depth < 3 and src.p(28) and not getattr(t, 'none', False):
            t.link = self.test(depth + 1)
        return t

    def template(self):
        src = self.src
        ts = self.g.templates
        if ts and src.p(self.f['reuse']):
            return src.c(ts)[0]
        name = 'tm%d' % self.nt
        self.nt += 1
        keep, self.f['templates'] = self.f['templates'], self.f['templates'] if src.p(self.f['nested_templates']) and self.nt < 4 else 0
        alts = [self.test(1) for _ in range(src.w([(3, 1), (2, 2), (1, 3)]))]
        self.f['templates'] = keep
        self.g.templates.append((name, alts))
        return name

    def tests(self, lo=0, p=65):
        src = self.src
        if not lo and not src.p(p):
            return []
        return [self.test() for _ in src.many(1, 3, 25)]

    # ---- rules ------------------------------------------------------------
    def marker(self):
        self.k += 1
        return Rule('SUBSTITUTE', ANY if self.src.p(50) else self.ss.any(1), tags=['zz%d' % self.k], tags2=[Tag('raw', '*')], tests=self.tests(0, 85))

    def dtest(self):
        """A test that looks for a cohort elsewhere."""
        src = self.src
        t = Test(self.ss.any(1))
        t.off = src.c([1, -1, 2, -2])
        t.scan = src.w([(2, 0), (3, 1), (1, 2)])
        if t.scan and src.p(25):
            t.barrier = self.ss.any(1)
        if src.p(15):
            t.link = self.test(1)
        return t

    def rule(self, i=0, inner=False):
        src, f = self.src, self.f
        k = src.w([(f['dis'], 'dis'), (f['edit'], 'edit'), (25, 'mark'), (f['deps'], 'dep'), (f['rels'], 'rel'), (f['move'], 'move'), (f['vars'], 'var'),
                   (0 if inner else f['withs'], 'with'), (0 if inner else f['delimit'], 'delimit'), (f['unif'], 'unif'), (f['vstr'], 'vstr')])
        r = getattr(self, 'r_' + k)()
        if not inner and src.p(8) and r.wf is None:
            r.wf = L(src.c(self.cfg.wfs))
        if self.on('names'):
            r.name = src.c(NAMES)
        return r

    def r_dis(self):
        src = self.src
        r = Rule(src.w([(4, 'SELECT'), (4, 'REMOVE'), (3, 'IFF')]), self.ss.any(1), tests=self.tests())
        if src.p(10):
            r.flags.append(src.c(['UNSAFE', 'SAFE']))
        if src.p(6):
            r.flags.append(src.c(['DELAYED', 'IGNORED']))
        if src.p(5):
            r.flags.append(src.c(['NOITERATE', 'REPEAT', 'UNMAPLAST'] if r.type == 'REMOVE' else ['NOITERATE', 'REPEAT']))
        if 'UNMAPLAST' in r.flags:
            r.flags = [x for x in r.flags if x not in ('SAFE', 'UNSAFE')]
        if self.f['subs'] and src.p(self.f['subs'] // 2):
            r.sub = src.c([1, -1, 2, 32767])
        return r

    def r_edit(self):
        from checks.C04 import edit_rule
        r = edit_rule(self.src, self.ss, self.cfg)
        if not self.f['iterate']:
            r.flags = [x for x in r.flags if x != 'ITERATE']
        if r.tests:
            r.tests = self.tests(1)
        if self.f['subs'] and self.src.p(self.f['subs'] // 2) and r.type not in ('COPY', 'APPEND', 'RESTORE'):
            r.sub = self.src.c([1, -1, 2])
        return r

    def r_mark(self):
        return self.marker()

    def r_dep(self):
        src = self.src
        ty = src.w([(5, 'SETPARENT'), (4, 'SETCHILD'), (1, 'REMPARENT'), (1, 'SWITCHPARENT')])
        r = Rule(ty, self.ss.any(1), tests=self.tests())
        if ty in ('SETPARENT', 'SETCHILD'):
            r.to = src.c(['TO', 'TO', 'FROM'])
            r.dep_tests = [self.dtest()]
            if src.p(25):
                r.flags.append(src.c(['NEAREST', 'ALLOWCROSS', 'SAFE', 'UNSAFE'] + (['ALLOWLOOP'] if self.f['loops'] else [])))
        return r

    def r_rel(self):
        src = self.src
        two = src.p(35)
        r = Rule(src.c(['ADDRELATION', 'ADDRELATION', 'SETRELATION', 'REMRELATION']) + ('S' if two else ''), self.ss.any(1), tests=self.tests())
        r.tags = [src.c(['r1', 'r2', 'r3'])]
        if two:
            r.tags2 = [src.c(['r1', 'r2', 'q1'])]
        r.to = src.c(['TO', 'TO', 'FROM'])
        r.dep_tests = [self.dtest()]
        return r

    def r_move(self):
        src = self.src
        ty = src.w([(3, 'ADDCOHORT'), (3, 'REMCOHORT'), (4, 'MOVE'), (2, 'SWITCH'), (2, 'COPYCOHORT'), (2, 'SPLITCOHORT'), (2, 'MERGECOHORTS')])
        wf = '"<%s>"' % src.c(['new', 'w1', 'a', 'cat'])
        tgt = self.ss.list()
        if ty == 'ADDCOHORT':
            # not for ever
            self.k += 1
            r = Rule(ty, Set('set', None, None, [self.ss.closed(tgt), comp(L('added'))], ['-']), tests=self.tests())
            r.tags = [wf, '"%s"' % src.c(['nb', 'a']), 'added'] + src.sub(self.cfg.pos, 0, 1)
            r.where = src.c(['BEFORE', 'AFTER'])
        elif ty == 'REMCOHORT':
            r = Rule(ty, tgt, tests=self.tests(0, 90))
            if src.p(30):
                r.flags.append('IGNORED')
        elif ty in ('MOVE', 'SWITCH'):
            r = Rule(ty, tgt, tests=self.tests())
            r.to = src.c(['BEFORE', 'AFTER']) if ty == 'MOVE' else 'WITH'
            r.dep_tests = [self.dtest()]
            r.dep_tests[0].span = ''
            r.flags.append('NOITERATE')
        elif ty == 'COPYCOHORT':
            r = Rule(ty, Set('set', None, None, [self.ss.closed(tgt), comp(L('copied'))], ['-']), tests=self.tests())
            r.tags = ['copied']
            if src.p(30):
                r.tags2 = [L(src.c(self.cfg.pos))]
            r.to = src.c(['TO BEFORE', 'TO AFTER'])
            r.dep_tests = [self.dtest()]
            r.dep_tests[0].span = ''
        elif ty == 'SPLITCOHORT':
            r = Rule(ty, Set('set', None, None, [self.ss.closed(tgt), comp(L('part'))], ['-']), tests=self.tests())
            r.tags = ['"<p1>"', '"p1"', 'part', '"<p2>"', '"p2"', 'part']
            if src.p(40):
                r.tags += ['"<p3>"', '"p3"', 'part']
        else:
            r = Rule(ty, Set('set', None, None, [self.ss.closed(tgt), comp(L('merged'))], ['-']), tests=self.tests(0, 40))
            r.tags = ['"<mm>"', '"mm"', 'merged']
            r.to = 'WITH'
            t = Test(self.ss.any(1))
            t.off = src.c([1, -1])
            r.dep_tests = [t]
        return r

    def r_var(self):
        src = self.src
        if src.p(60):
            r = Rule('SETVARIABLE', self.ss.any(1), tests=self.tests())
            r.tags, r.tags2 = [src.c(['v1', 'v2'])], [src.c(['*', 'x', 'y'])]
        else:
            r = Rule('REMVARIABLE', self.ss.any(1), tests=self.tests())
            r.tags = [src.c(['v1', 'v2'])]
        return r

    def r_with(self):
        src = self.src
        r = Rule('WITH', self.ss.any(1), tests=self.tests(1))
        r.rules = []
        for _ in src.many(1, 3, 50):
            q = self.rule(0, True)
            r.rules.append(q)
            if q.tests and src.p(30):
                q.tests.append(Test(self.ss.any(1), jump=src.c(['jC1', 'jT', 'jM'])))
        return r

    def r_delimit(self):
        return Rule('DELIMIT', self.ss.list(), tests=self.tests())

    def r_unif(self):
        src = self.src
        base = self.ss.name(Set('list', None, [[gen.plain_tag(src, self.cfg)] for _ in range(src.r(2, 4))]))
        if src.p(35):
            b2 = self.ss.name(Set('list', None, [[gen.plain_tag(src, self.cfg)] for _ in range(src.r(1, 3))]))
            base = self.ss.name(Set('set', None, None, [base, b2], ['OR']))
            u = Unif('&&', base)
        else:
            u = Unif('$$', base)
        self.vset = [u]
        r = Rule(src.c(['SELECT', 'REMOVE', 'ADD']), u)
        if r.type == 'ADD':
            self.k += 1
            r.tags = ['zz%d' % self.k]
        self.unif = True
        r.tests = [self.test()]
        self.unif = False
        r.tests[0].target = u
        return r

    def r_vstr(self):
        src = self.src
        self.k += 1
        rx = src.c(['"<(.+)>"r', '"(.+)"r', '"(.)(.*)"r', '"<(c.*)>"ri'])
        r = Rule(src.c(['ADD', 'SUBSTITUTE', 'MAP']), comp(Tag('raw', rx)))
        tag = Tag('raw', src.c(['"$1x"v', 'VSTR:v-$1', '"%U$1"v', '"%L$1%u"v', '<$1>v', '"%u$1"v']))
        r.tags = [tag]
        if r.type == 'SUBSTITUTE':
            r.tags2 = [Tag('raw', '*')] if src.p(50) else [L(src.c(self.cfg.feat))]
        r.tests = self.tests()
        return r

    def grammar(self, hi=10, more=88):
        from checks.C03 import layout
        layout(self.src, self.g, self.rule, hi, more)
        if self.f['null'] and self.on('null'):
            self.g.null = [self.rule()]
        return self.g


class Unif(Set):
    """$$ or && in front of a named set."""
    def __init__(self, mark, base):
        Set.__init__(self, 'ref', None)
        self.mark, self.base = mark, base

    def ref(self):
        return self.mark + self.base.name


def config(src, **kw):
    d = dict(mapping=src.c([0, 15, 30]), static=4, maxwin=3, maxcoh=5, maxrd=3, feat=gen.FEAT[:5] + ['<h>'], pos=gen.POS[:3], maxtags=3, wfs=gen.WFS[:4] + ['"<a b>"'], bases=gen.BASES[:4],
             subs=src.c([0, 0, 20]), empty=4)
    d.update(kw)
    return gen.Cfg(**d)


TEXT = ['some text', '<s id="1">', '# comment', 'x "<y>"', '; "x" N', '  indented', 'ærø ☃ 😀', '\tfloating', '']


def stream(src, cfg, deps=0, rels=0, text=0, cmds=0, holes=8):
    """A stream with whatever else a stream can have. Returns text."""
    wins = gen.stream(src, cfg)
    out = []
    gid = 0
    usedep = src.p(deps)
    userel = src.p(rels)
    for w in wins:
        n = len(w)
        loop = usedep and src.p(10)
        gids = list(range(gid + 1, gid + n + 1))
        for i, (wf, st, rds) in enumerate(w):
            extra = []
            if usedep and rds and not src.p(holes):
                par = src.c([0] + [j for j in range(1, n + 1) if j != i + 1]) if loop else src.r(0, i)
                extra.append('#%d->%d' % (i + 1, par))
            if userel and src.p(60) or userel and i == 0:
                extra.append('ID:%d' % gids[i])
                for _ in src.many(0, 2, 30):
                    x = 'R:%s:%d' % (src.c(['r1', 'r2', 'in']), src.c(gids))
                    if x not in extra:
                        extra.append(x)
            if extra:
                rds = [[(b, t + (extra if k == 0 else [])) for k, (b, t) in enumerate(ch)] for ch in rds]
            while text and src.p(text):
                out.append(src.c(TEXT) + '\n')
            if cmds and src.p(cmds):
                out.append(src.c(['<STREAMCMD:FLUSH>', '<STREAMCMD:SETVAR:v1>', '<STREAMCMD:SETVAR:v2=x,v3>', '<STREAMCMD:REMVAR:v1>']) + '\n')
            out.append(gen.show_cohort((wf, st, rds)))
        gid += n
    while text and src.p(text):
        out.append(src.c(TEXT) + '\n')
    return ''.join(out)
