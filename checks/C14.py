"""Grammars that mean the same give the same output."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen, rich
from vlib.common import must, case
from .C05 import Raw, decorate, extras, base, differ

TECHNIQUE = "metamorphic property-based testing: generated grammars over the whole language, rewritten without changing their meaning (set, template and layout rewrites), run against the same generated stream"
NOTE = "random grammars, rewrites and streams; the unrewritten grammar is the oracle"

TOKEN = re.compile(r'''\s+|[();{}\[\],](?![^\s]*/r)|"(?:\\.|[^"\\])*"(?:\\.|[^\s();\\])*|(?:\\.|[^\s();{}\\"])(?:\\.|[^\s();\\"])*|.''', re.S)

KEYWORDS = set('''SELECT REMOVE IFF MAP ADD APPEND REPLACE SUBSTITUTE COPY COPYCOHORT UNMAP PROTECT UNPROTECT DELIMIT JUMP MOVE SWITCH REMCOHORT ADDCOHORT SPLITCOHORT MERGECOHORTS RESTORE WITH
SETPARENT SETCHILD REMPARENT SWITCHPARENT ADDRELATION SETRELATION REMRELATION ADDRELATIONS SETRELATIONS REMRELATIONS SETVARIABLE REMVARIABLE LIST SET DELIMITERS SOFT-DELIMITERS TEXT-DELIMITERS
MAPPING-PREFIX PREFERRED-TARGETS REOPEN-MAPPINGS STATIC-SETS BEFORE-SECTIONS SECTION AFTER-SECTIONS NULL-SECTION SUBREADINGS OPTIONS TEMPLATE PARENTHESES ANCHOR INCLUDE
TARGET IF NOT NEGATE ALL NONE LINK BARRIER CBARRIER OR TO FROM BEFORE AFTER EXCEPT WITHCHILD NOCHILD
NEAREST ALLOWLOOP ALLOWCROSS DELAYED IMMEDIATE LOOKDELETED LOOKDELAYED LOOKIGNORED UNSAFE SAFE REVERSE SUB ITERATE NOITERATE UNMAPLAST REPEAT KEEPORDER VARYORDER ENCL_INNER ENCL_OUTER ENCL_FINAL ENCL_ANY
IGNORED OUTPUT LTR CMDARGS CMDARGS-OVERRIDE'''.split())


def tokens(t):
    return [x for x in TOKEN.findall(t)]


def mixcase(src, w):
    return src.c([w.lower(), w.lower(), w.capitalize(), ''.join(c.lower() if src.p(50) else c.upper() for c in w)])


SPACES = [' ', ' ', ' ', '  ', '\n', '\t', '\n\n', '\r\n', ' \t\n', ' # comment\n', '\n# SELECT (x) ; " ( \n', '\n#\n', ' #)\n', '\u00a0' if 0 else ' ']


def relayout(src, t, p, strict):
    """The same tokens, differently laid out."""
    out = []
    ts = tokens(t)
    cmd = False
    for i, x in enumerate(ts):
        if x in ('CMDARGS', 'CMDARGS-OVERRIDE'):
            cmd = True
        if x == ';':
            cmd = False
        if x.isspace():
            # rule by rule: a statement ends its line
            if not src.p(p):
                out.append(x)
            elif cmd:
                out.append(src.c([' ', '  ', '\n']))
            else:
                w = src.c(SPACES)
                if i and ts[i - 1] in ('BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS', 'NULL-SECTION'):
                    w = src.c(['', ' ', ' # comment']) + '\n' + w      # what follows on the line is a name
                out.append(w)
            continue
        if x == '(' and i + 1 < len(ts) and not cmd and not (strict and ts[i + 1] == '*') and src.p(p // 3):
            out.append('(' + src.c([' ', '\n', '\t', ' # c\n']))
            continue
        if x in (')', ';') and not cmd and not (strict and ts[i - 1] == '*') and src.p(p // 3):
            out.append(src.c([' ', '\n', '\t', ' # c\n']) + x)
            continue
        head, sep, tail = x.partition(':')
        if head in KEYWORDS and not (sep and head != 'SUB' and head not in RULES) and src.p(p):
            out.append(mixcase(src, head) + sep + tail)
            continue
        if x == '|' and src.p(30):
            x = 'OR'
        elif x == 'OR' and not tmpl_or(ts, i) and src.p(30):
            x = '|'
        out.append(x)
    return ''.join(out)


RULES = set(list(KEYWORDS)[:0]) | set('SELECT REMOVE IFF MAP ADD APPEND REPLACE SUBSTITUTE COPY COPYCOHORT UNMAP PROTECT UNPROTECT DELIMIT MOVE SWITCH REMCOHORT ADDCOHORT SPLITCOHORT MERGECOHORTS RESTORE WITH SETPARENT SETCHILD REMPARENT SWITCHPARENT ADDRELATION SETRELATION REMRELATION ADDRELATIONS SETRELATIONS REMRELATIONS SETVARIABLE REMVARIABLE'.split())


def tmpl_or(ts, i):
    """OR between parenthesised tests is not a set operator: leave it alone when its neighbours are parentheses."""
    j = i + 1
    while j < len(ts) and ts[j].isspace():
        j += 1
    k = i - 1
    while k >= 0 and ts[k].isspace():
        k -= 1
    return ts[j] == '(' or ts[k] == ')'


def statements(t):
    """Split into whole statements."""
    out, cur, depth = [], [], 0
    for x in tokens(t):
        cur.append(x)
        if x in ('(', '{'):
            depth += 1
        elif x in (')', '}'):
            depth -= 1
        elif depth == 0 and (x == ';' or x in ('BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS', 'NULL-SECTION')):
            out.append(''.join(cur))
            cur = []
    if cur:
        out.append(''.join(cur))
    return out


def options(src):
    args = ['--max-runs', str(src.c([2, 1, 3]))]
    if src.p(50):
        args.append('--split-mappings')
    if src.p(15):
        args += src.c([['--num-windows', '0'], ['--num-windows', '1'], ['--sections', '1'], ['--rule', 'first'], ['--no-mappings'], ['--always-span'], ['--print-ids'], ['--dep-delimit', '5'], ['--nrules', 'se|r']])
    return args


def again(env, gt, g2, text, args, want, what, files=()):
    d = env.d
    q = d.write('h.cg3', g2)
    more = '--- rewritten\n' + g2 + ''.join('--- file %s\n%s' % f for f in files)
    r = d.run('vislcg3', ['-g', q] + args, text, 12000)
    if r.rc:
        must(r, 'vislcg3 with %s' % what, gt + more, text, args)
    differ(want, r.out.decode('utf8', 'replace'), what, gt, text, args, more)


def layout(src, env):
    cfg = rich.config(src, maxcoh=4)
    R = rich.Rich(src, cfg, jump=10, loops=10, unif=10, vstr=10, rels=12, deps=15, subs=15)
    g = R.grammar(7, 85)
    labels = decorate(src, g, cfg)
    labels += extras(src, g, R, cfg)
    text = rich.stream(src, cfg, deps=30, rels=20)
    args = options(src)
    gt = g.text()
    p, want = base(env, gt, text, args)
    g2 = gt
    if src.p(40):
        # noise words
        Rule.noise = ' TARGET'
        try:
            g2 = g.text()
        finally:
            Rule.noise = ''
        ts = g2.split(' TARGET')
        g2 = ts[0] + ''.join((' TARGET' if src.p(50) else '') + x for x in ts[1:])
        labels.append('target')
    if src.p(40):
        ts = re.split(r' IF(?= \()', g2)
        g2 = ts[0] + ''.join((' IF' if src.p(30) else '') + x for x in ts[1:])
        labels.append('if')
    files = []
    if src.p(35):
        st = statements(g2)
        i = src.r(0, len(st) - 1)
        j = src.r(i + 1, len(st))
        inc = st[i:j]
        if src.p(30) and len(inc) > 1:
            k = src.r(0, len(inc) - 1)
            m = src.r(k + 1, len(inc))
            sub = ''.join(inc[k:m])
            inc[k:m] = ['\nINCLUDE inc2.cg3 ;\n']
            files.append(('inc2.cg3', sub))
        files.append(('inc1.cg3', ''.join(inc)))
        st[i:j] = ['\nINCLUDE %sinc1.cg3 ;\n' % src.c(['', '', './'])]
        g2 = ''.join(st)
        labels.append('include')
    if src.p(80) or not labels:
        p_ = src.c([5, 20, 50, 90])
        strict = 'no-inline-sets' in gt     # (*) is not an inline set when written like that
        g2 = relayout(src, g2, p_, strict)
        files = [(n, relayout(src, t, p_, strict)) for n, t in files]
        labels.append('relaid')
    if src.p(10):
        g2 = src.c(['\ufeff', '\n\n', '# first line\n']) + g2
        labels.append('start')
    if src.p(10):
        g2 += src.c(['\nEND\nSELECT (a ;;; ', '\nEND ', '\n# last line', '\n\n\n'])
        labels.append('end')
    for n, t in files:
        env.d.write(n, t)
    again(env, gt, g2, text, args, want, 'laid out differently', files)
    return Info(want.strip() != text.strip() and g2 != gt, gt + g2 + text, labels, g2)


# ---- rewriting the syntax tree ---------------------------------------------

class Inline:
    """( test ) or ( ( test ) OR ( test ) )"""
    def __init__(self, alts, link=None):
        self.alts, self.link, self.sub, self.target = alts, link, 0, ANY
        self.nt = self.neg = None

    def text(self):
        return ' OR '.join('(' + a.text() + ')' for a in self.alts) + (' LINK ' + self.link.text() if self.link else '')


class Rewrite:
    def __init__(self, src, g, order):
        self.src, self.g, self.order, self.n = src, g, order, 0
        self.labels = []
        self.extra = []         # definitions added after the sets
        self.sites = []
        self.tests = []         # (list, index) of whole tests; ('link', test)
        seen = set()

        def sset(s):
            if id(s) in seen:
                return
            seen.add(id(s))
            if s.kind == 'set':
                for i in range(len(s.members)):
                    self.sites.append((s.members, i))
                    sset(s.members[i])

        def attr(o, a):
            if getattr(o, a, None) is not None:
                self.sites.append((o, a))
                sset(getattr(o, a))

        def test(t):
            if isinstance(t, Test):
                for a in ('target', 'barrier', 'cbarrier'):
                    attr(t, a)
            if t.link:
                self.tests.append((t, 'link'))
                test(t.link)
        for r in g.rules():
            if isinstance(r, Raw):
                continue
            for a in ('target', 'spot', 'cs1', 'cs2'):
                attr(r, a)
            for l, whole in ((r.tests, 1), (r.dep_tests, 0)):
                for i, t in enumerate(l):
                    if whole:
                        self.tests.append((l, i))
                    test(t)
        for name, alts in g.templates:
            for i, t in enumerate(alts):
                self.tests.append((alts, i))
                test(t)
        for s in g.sets:
            sset(s)

    def fresh(self):
        self.n += 1
        return '%s%d' % (self.src.c(['Zq', 'n-', 'é', 'q_']), self.n)

    def get(self, site):
        o, a = site
        return o[a] if isinstance(a, int) else getattr(o, a)

    def put(self, site, v):
        o, a = site
        if isinstance(a, int):
            o[a] = v
        else:
            setattr(o, a, v)

    def named(self, s):
        """A new name for the same content, defined before anything that can use it."""
        s = Set(s.kind, self.fresh(), s.elems, s.members, s.ops)
        self.pending.append(s)
        return s

    def sets(self):
        src = self.src
        self.pending = []
        for site in self.sites:
            s = self.get(site)
            member = isinstance(site[1], int)
            if isinstance(s, rich.Unif) or s.kind not in ('list', 'set', 'any') or not src.p(30):
                continue
            if s.name is None:
                if s.kind == 'any':
                    continue
                self.put(site, self.named(s))
                self.labels.append('named')
            else:
                k = src.w([(3, 'alias'), (4, 'inline'), (2, 'copy')])
                if k == 'inline':
                    if s.kind == 'list' and len(s.elems) == 1 and not s.elems[0][0].ff:
                        self.put(site, Set('list', None, s.elems))
                        self.labels.append('inlined')
                    elif s.kind == 'set' and not member:
                        self.put(site, Set('set', None, None, s.members, s.ops))
                        self.labels.append('inlined')
                elif k == 'copy':
                    self.put(site, self.named(s))
                    self.labels.append('copied')
                else:
                    t = Set('set', self.fresh(), None, [s], [])
                    self.pending.append(t)
                    self.put(site, t)
                    self.labels.append('alias')
        # sets have to be defined before they are used
        todo = src.perm(self.pending + self.g.sets) if src.p(50) else self.pending + self.g.sets
        done, res = set(), []

        def visit(s):
            if id(s) in done:
                return
            done.add(id(s))
            for m in s.members:
                visit(m)
            if s.name and s in todo:
                res.append(s)
        for s in todo:
            visit(s)
        self.g.sets = res
        out = []
        for s in self.g.sets:
            out.append(s)
            if s.kind == 'list' and s.name and self.order and src.p(30):
                s.elems[:] = [src.perm(e) if len(e) > 1 and src.p(50) else e for e in src.perm(s.elems)]
                self.labels.append('reordered')
            if s.kind == 'set' and self.order and len(s.members) > 1 and all(o in ('OR', '|') for o in s.ops) and src.p(50):
                s.members[:] = src.perm(s.members)
                self.labels.append('reordered')
            if s.kind == 'list' and s.name and src.p(20) and self.order and not any(t.ff for e in s.elems for t in e):
                # as alternatives
                members = []
                for e in s.elems:
                    members.append(Set('list', None, [e]))
                s.kind, s.elems, s.members, s.ops = 'set', [], members, ['OR'] * (len(members) - 1)
                self.labels.append('alternatives')
            elif s.kind == 'list' and s.name and len(s.elems) > 1 and src.p(25):
                k = src.r(1, len(s.elems) - 1)
                out[-1] = Split(s, k)
                self.labels.append('+=')
        self.g.sets[:] = out

    def rename(self):
        src = self.src
        for s in self.g.sets:
            s = s.s if isinstance(s, Split) else s
            if src.p(60):
                s.name = 'N%s' % self.fresh()
                self.labels.append('renamed')
        ren = {}
        for i, (n, alts) in enumerate(self.g.templates):
            if src.p(60):
                ren[n] = self.fresh()
                self.g.templates[i] = (ren[n], alts)
        if ren:
            self.labels.append('renamed templates')

            def walk(t):
                while t:
                    if isinstance(t, rich.Templ) and t.name in ren:
                        t.name = ren[t.name]
                    if isinstance(t, Inline):
                        for a in t.alts:
                            walk(a)
                    t = t.link
            seen = set()
            self.all_tests(walk)
        names = {}
        for r in self.g.rules():
            if r.name and src.p(60):
                names.setdefault(r.name, 'ru' + self.fresh())
        for r in self.g.rules():
            if r.name in names:
                r.name = names[r.name]
                self.labels.append('renamed rules')
            elif r.name is None and src.p(10):
                r.name = 'ru' + self.fresh()
        return names

    def all_tests(self, f):
        done = set()

        def once(t):
            if id(t) not in done:
                done.add(id(t))
                f(t)
        for r in self.g.rules():
            for t in r.tests + r.dep_tests:
                once(t)
        for n, alts in self.g.templates:
            for t in alts:
                once(t)

    def templates(self):
        src = self.src
        g = self.g
        # a test becomes a template
        for site in list(self.tests):
            t = self.get(site)
            if not src.p(25):
                continue
            if isinstance(t, rich.Templ):
                # expand it where it stands
                alts = dict(g.templates)[t.name]
                if not t.pos and src.p(60):
                    n = Inline(alts, t.link)
                    n.neg, n.nt = None, None
                    if not (t.neg or t.nt):
                        self.put(site, n)
                        self.labels.append('expanded')
                continue
            if isinstance(t, Inline):
                continue
            name = self.fresh()
            link = None
            body = t
            if src.p(30):
                n = Inline([body], link)
                self.labels.append('bracketed')
            else:
                g.templates.append((name, [body]))
                n = rich.Templ(name)
                self.labels.append('template')
            self.put(site, n)

    def never(self):
        src = self.src
        g = self.g
        for _ in src.many(0, 4, 50):
            k = src.w([(3, 'list'), (2, 'set'), (3, 'rule'), (2, 'templ')])
            if k == 'list':
                g.sets.insert(src.r(0, len(g.sets)), Set('list', self.fresh(), [[L(x)] for x in src.sub(['N', 'V', 'never', 'sg', '"<a>"'], 1, 3)]))
            elif k == 'set':
                a = Set('list', self.fresh(), [[L('never1')], [L('N')]])
                g.sets.append(a)
                g.sets.append(Set('set', self.fresh(), None, [a, ANY], [src.c(['OR', '-', '+'])]))
            elif k == 'templ':
                g.templates.insert(src.r(0, len(g.templates)), (self.fresh(), [Test(comp(L('never2')), off=src.r(-2, 2))]))
            else:
                # SELECT may act on protected readings alone (T_Protect)
                ty = src.c((['SELECT', 'IFF'] if not any(r.type == 'PROTECT' for r in g.rules()) else ['REMOVE']) + ['REMOVE', 'ADD', 'MAP', 'UNMAP', 'APPEND'])
                if ty == 'IFF' or src.p(50):
                    r = Rule(ty, comp(L('never3')))
                else:
                    r = Rule(ty, ANY, tests=[Test(comp(L('never4')), off=src.c([0, 1, -1]), scan=src.c([0, 1]))])
                if ty in ('ADD', 'MAP'):
                    r.tags = [L('nv')]
                elif ty == 'APPEND':
                    r.tags = [L('"nv"'), L('nv')]
                ls = [l for l in [g.before] + g.sections + [g.after] if l]
                l = src.c(ls)
                l.insert(src.r(0, len(l)), r)
            self.labels.append('never ' + k)


class Split:
    """A LIST in two parts."""
    def __init__(self, s, k):
        self.s, self.k = s, k

    @property
    def name(self):
        return self.s.name

    def define(self):
        a = Set('list', self.s.name, self.s.elems[:self.k])
        b = Set('list', self.s.name, self.s.elems[self.k:])
        return a.define() + '\n' + b.define().replace(' = ', ' += ', 1)


def rewritten(src, env):
    order = src.p(70)
    cfg = rich.config(src, maxcoh=4)
    kw = dict(unif=0, vstr=0) if order else dict(unif=20, vstr=12)
    R = rich.Rich(src, cfg, rels=10, deps=15, subs=15, templates=src.c([5, 25, 45]), bag=2, **kw)
    g = R.grammar(7, 85)
    text = rich.stream(src, cfg, deps=30, rels=20)
    args = options(src)
    if any('LOOK' in f for r in g.rules() for f in r.flags):
        raise Discard()
    gt = g.text()
    p, want = base(env, gt, text, args)
    w = Rewrite(src, g, order)
    if src.p(50):
        w.templates()
    if src.p(50):
        w.never()
    if src.p(70):
        w.sets()
    if src.p(40) and '--rule' not in args and '--nrules' not in args:
        w.rename()
    if not w.labels:
        raise Discard()
    g2 = g.text()
    again(env, gt, g2, text, args, want, 'rewritten (%s)' % ', '.join(sorted(set(w.labels))))
    return Info(want.strip() != text.strip(), gt + g2 + text, sorted(set(w.labels)), g2)


SUBS = [
    Sub("rewritten", rewritten, 4500, 200000, "the grammar changed the stream"),
    Sub("layout", layout, 4500, 200000, "the grammar changed the stream and was laid out differently"),
]
