"""C19: unified sets and captured strings."""
import re

from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import against_ref, same
from vlib.ref import Opts

# a reading has at most one tag of each of these
GROUPS = [['m', 'f', 'nt'], ['sg', 'pl', 'du'], ['nom', 'acc', 'gen'], ['N', 'V', 'A', 'Det']]
BASES = ['"cat"', '"Dog"', '"a"', '"b"', '"rUn"', '"ete"', '"sg"']
WFS = ['"<cats>"', '"<Dog>"', '"<a>"', '"<rUn>"', '"<b>"']
ANG = ['<h>', '<Ab>', '<cat>', '<zZ>']


def reading(src):
    tags = [src.c(g) for g in (GROUPS[3], GROUPS[0], GROUPS[1], GROUPS[2]) if src.p(65)]
    if src.p(25):
        tags.append(src.c(ANG))
    if src.p(10):
        tags.append('x')
    return [(src.c(BASES), tags)]


def stream(src):
    out = []
    for _ in src.many(1, 3, 40):
        for _ in src.many(1, 6, 78):
            wf = src.c(WFS)
            rds = [reading(src) for _ in src.many(1, 4, 55)]
            if src.p(15) and len(rds) > 1:
                rds.append([(rds[0][0][0], list(rds[0][0][1]))])
            st = [src.c(GROUPS[0])] if src.p(6) else []
            out.append(gen.show_cohort((wf, st, rds)))
        out.append('"<.>"\n\t"." CLB\n')
    return ''.join(out)


def named(s):
    n = Set(s.kind, 'X', s.elems, s.members, s.ops)
    return n


def content(s):
    return sorted(s.define().split('=', 1)[1].split())


class Gen:
    def __init__(self, src):
        self.src = src
        self.g = Grammar()
        self.k = 0
        self.uni = []
        self.sets = []

    def name(self, s):
        # sets with the same contents are the same set
        c = content(named(s))
        if any(content(o) == c for o in self.g.sets):
            raise Discard()
        s.name = 'S%d' % len(self.g.sets)
        self.g.sets.append(s)
        return s

    def plain(self):
        src = self.src
        k = src.w([(5, 'one'), (2, 'any'), (2, 'list')])
        if k == 'any':
            return ANY
        if k == 'one':
            return comp(L(src.c(src.c(GROUPS))))
        g = src.c(GROUPS)
        return self.name(Set('list', None, [[L(t)] for t in src.sub(g, 1, len(g))]))

    def unifiable(self):
        """A list of which a reading matches at most one element."""
        src = self.src
        if src.p(12):
            # any base form, word form or <tag>: the very same one everywhere
            return self.name(Set('list', None, [[Tag('rxany', src.c(['".*"', '"<.*>"', '<.*>']))]]))
        if src.p(25):
            a, b = src.sub(GROUPS[:3], 2, 2)
            el = [[L(x), L(y)] for x in a for y in b]
            el = src.sub(el, 1, 5)
        else:
            g = src.c(GROUPS)
            el = [[L(t)] for t in src.sub(g, 1, len(g))]
        return self.name(Set('list', None, el))

    def unified(self):
        src = self.src
        if self.uni and src.p(55):
            return src.c(self.uni)
        k = src.w([(6, '$$'), (4, '&&')])
        if k == '$$':
            base = self.unifiable()
            if src.p(20) and base.elems[0][0].kind == 'lit':
                other = self.unifiable()
                base = self.name(Set('set', None, None, [base, other], ['OR']))
            if base.kind == 'set' and any(len(m.elems) == 1 for m in base.members):
                raise Discard()     # flattened into one list
        else:
            ms = [self.name(Set('list', None, [[L(t)] for t in src.sub(sum(GROUPS, []), 1, 3)])) for _ in range(src.r(2, 4))]
            if all(len(m.elems) == 1 for m in ms) and not src.p(3):
                raise Discard()     # the known finding 'singletons'
            base = self.name(Set('set', None, None, ms, ['OR'] * (len(ms) - 1)))
        u = Set('unif', None, members=[base], uid=k)
        u.name = None
        self.uni.append(u)
        return u

    def target(self):
        src = self.src
        u = self.unified()
        k = src.w([(6, 'u'), (3, 'and'), (2, 'or'), (1, 'minus')])
        if k == 'u':
            return u
        op = {'and': '+', 'or': 'OR', 'minus': '-'}[k]
        ms = [self.plain(), u] if src.p(50) and k != 'minus' else [u, self.plain()]
        return Set('set', None, None, ms, [op])

    def test(self, depth=0, plain=60):
        src = self.src
        t = Test(self.target() if src.p(plain) else self.plain())
        k = src.w([(4, 'rel'), (5, 'scan'), (1, 'both'), (1, 'self')])
        if k == 'rel':
            t.off = src.c([-1, 1, -2, 2])
        elif k == 'scan':
            t.off = src.c([-1, 1])
            t.scan = src.w([(3, 1), (1, 2)])
        elif k == 'both':
            t.off, t.scan = 0, 1
        else:
            t.off = 0
        if t.scan and src.p(20):
            t.barrier = self.plain()
        if src.p(15):
            t.careful = True
        if depth == 0 and src.p(6):
            t.neg = True
        if src.p(8):
            t.nt = True
        if depth < 2 and src.p(30):
            t.link = self.test(depth + 1)
        return t

    def rule(self):
        src = self.src
        self.k += 1
        self.uni = []
        ty = src.w([(4, 'ADD'), (3, 'SELECT'), (3, 'REMOVE'), (1, 'IFF')])
        tgt = self.target() if src.p(75) else self.plain()
        r = Rule(ty, tgt, tests=[self.test() for _ in src.many(0 if self.uni else 1, 2, 60)])
        r.flags.append('KEEPORDER')
        if ty == 'ADD':
            r.tags = ['zz%d' % self.k]
            first = [u for u in self.uni if u is r.target]
            if first and src.p(30) and self.bindable(first[0]):
                r.tags = first[0]
        return r

    def bindable(self, u):
        m = u.members[0]
        ms = [m] if m.kind == 'list' else m.members
        if m.kind != 'list' and u.uid == '$$' and any(o != 'OR' for o in m.ops):
            return False
        return all(len(e) == 1 and e[0].kind == 'lit' for x in ms for e in x.elems)


def unordered(x):
    if isinstance(x, str):
        return '\t' + ' '.join(sorted(set(x.split()))) if x.startswith('\t') else x
    return type(x)(unordered(y) for y in x) if isinstance(x, (list, tuple)) else x


def unification(src, env):
    G = Gen(src)
    rs = [G.rule() for _ in src.many(1, 5, 70)]
    for r in rs[:-1]:
        if isinstance(r.tags, Set):     # or a reading would have two tags of a unified list
            r.tags = ['yy']
    G.g.before = rs
    if any(len(s.elems) == 0 and s.kind == 'list' for s in G.g.sets):
        raise Discard()
    text = stream(src)
    # the tags of a set unified with && are added in no settled order
    loose = any(isinstance(r.tags, Set) and r.tags.uid == '&&' for r in rs)
    run, out = against_ref(env, G.g, text, Opts(split_mappings=True), compare=(lambda a, b: same(unordered(a), unordered(b))) if loose else None)
    n = run.events.get('fired', 0)
    lab = [('$$' if u.uid == '$$' else '&&') for r in rs for u in sets_of(r)]
    return Info(n > 0 and bool(lab), G.g.text() + text, sorted(set(lab)) + (['added'] if any(isinstance(r.tags, Set) for r in rs) else []), {"grammar": G.g.text(), "input": text, "output": out})


def singletons(sub, v, src):
    """A set unified with && all of whose members are lists of one element."""
    one = set(re.findall(r'LIST (S\d+) = (?:[^ ();]+|\([^()]*\)) ;', v.detail))
    sets = dict(re.findall(r'SET (S\d+) = ([^;]*) ;', v.detail))
    return any(u in sets and all(m in one for m in sets[u].split(' OR ')) for u in re.findall(r'&&(S\d+)', v.detail))


FINDINGS = {'singletons': singletons}


def sets_of(r):
    todo = [r.target]
    ts = list(r.tests)
    while ts:
        t = ts.pop()
        todo.append(t.target)
        if t.link:
            ts.append(t.link)
    while todo:
        s = todo.pop()
        if s.kind == 'unif':
            yield s
        elif s.kind == 'set':
            todo += s.members


# ---- variable strings -------------------------------------------------------
CAPS = [('"([^<>]+)"', 1, 'rx'), ('"([^<>])([^<>]*)"', 2, 'rx'), ('"<(.+)>"', 1, 'rx'), ('"<(.)(.*)>"', 2, 'rx'), ('<(.+)>', 1, 'rx'), ('"([^<>]*?)([^<>])"', 2, 'rx'), ('"<([a-z]+)>"', 1, 'rxi'),
        ('"(x?)([^<>]+)"', 2, 'rx')]


class Strings:
    def __init__(self, src):
        self.src = src
        self.g = Grammar()
        self.k = 0

    def cap(self):
        src = self.src
        s, n, k = src.c(CAPS)
        t = Tag('rx', s, ic=k == 'rxi')
        e = [t]
        if src.p(25):
            e.append(L(src.c(src.c(GROUPS))))
        st = comp(*e)
        if src.p(30):
            st = Set('set', None, None, [st, comp(L(src.c(src.c(GROUPS))))], [src.c(['+', '-'])])
        return st, n

    def vstr(self, n, quoted=None):
        """A string with captures 1..n."""
        src = self.src
        out = ''
        for _ in range(src.r(1, 3)):
            if src.p(35):
                out += src.c(['%u', '%U', '%l', '%L'])
            k = src.w([(5, 'cap'), (2, 'lit')])
            out += '$%d' % src.r(1, n) if k == 'cap' and n else src.c(['x', 'Yz', '-', 'n'])
        if '$' not in out:
            out += '$%d' % src.r(1, n)
        if src.p(6):
            out += src.c(['%u', '%L'])
        k = quoted if quoted is not None else src.w([(4, '"'), (2, '<'), (4, 0)])
        if k == '"':
            return Tag('vstr', '"%s"' % out)
        if k == '<':
            return Tag('vstr', '<%s>' % out)
        if k == 'wf':
            return Tag('vstr', '"<%s>"' % out)
        return Tag('vstr', src.c(['v-', '', 'q']) + out)

    def rule(self):
        src = self.src
        self.k += 1
        ty = src.w([(5, 'ADD'), (3, 'SUBSTITUTE'), (2, 'REPLACE'), (2, 'APPEND'), (2, 'COPY'), (2, 'MAP'), (3, 'test')])
        tgt, n = self.cap() if src.p(75) else (comp(L(src.c(src.c(GROUPS)))), 0)
        tests = []
        for _ in src.many(0, 2, 35):
            s, m = self.cap()
            t = Test(s, src.c([-1, 1, 0, -1, 1]))
            if src.p(40) and t.off:
                t.scan = 1
            if t.off == 0:
                t.off = src.c([-2, 2])
            if src.p(20):
                t.link = Test(ANY, src.c([-1, 1]))
                if src.p(50):
                    t.link.target, q = self.cap()
                    m += q
            tests.append(t)
            n += m
        if n == 0:
            raise Discard()
        n = min(n, 9)
        if ty == 'test' or src.p(15):
            # what was captured has to be there
            v = self.vstr(n)
            v = Tag('vstr', src.c(['"$1"', '"$1"', '<$1>', '$1', '"<$1>"', '"%l$1"', '"%u$1"', '"<%L$1>"']))
            if v.s == '$1':
                v.s = 'v-$1'
            t = Test(comp(v), src.c([-1, 1, -2]))
            if src.p(50):
                t.scan = 1
                t.off = src.c([-1, 1])
            tests.append(t)
        if ty == 'test':
            ty = 'ADD'
            r = Rule(ty, tgt, tests=tests, tags=['zz%d' % self.k])
        else:
            r = Rule(ty, tgt, tests=tests)
            r.tags = [self.vstr(n) for _ in range(src.r(1, 2))]
            if ty == 'APPEND':
                r.tags = [self.vstr(n, '"')] + [self.vstr(n, '') for _ in range(src.r(0, 1))]
            elif ty == 'COPY':
                r.tags = [self.vstr(n, ''), 'x']
            elif ty == 'SUBSTITUTE':
                r.tags2 = [L(src.c(src.c(GROUPS)))] if src.p(60) else [Tag('raw', '*')]
                r.tags = [self.vstr(n, '') for _ in range(src.r(1, 2))]
            elif ty in ('ADD', 'MAP', 'REPLACE'):
                # only what REPLACE puts there may be matched by the patterns: one of each
                r.tags = [self.vstr(n, '') for _ in range(src.r(1, 2))]
                if ty == 'REPLACE' and src.p(50):
                    r.tags.insert(0, self.vstr(n, '"'))
                if ty == 'REPLACE' and src.p(50):
                    r.tags.append(self.vstr(n, '<'))
        if isinstance(r.tags, list) and len(set(map(str, [t if isinstance(t, str) else t.s for t in r.tags]))) < len(r.tags):
            raise Discard()
        r.flags.append('KEEPORDER')
        return r


def captures(src, env):
    G = Strings(src)
    rs = [G.rule() for _ in src.many(1, 4, 60)]
    G.g.before = rs
    text = stream(src)
    run, out = against_ref(env, G.g, text, Opts(split_mappings=True))
    n = run.events.get('fired', 0)
    return Info(n > 0, G.g.text() + text, sorted(set(r.type for r in rs)), {"grammar": G.g.text(), "input": text, "output": out})


SUBS = [
    Sub("unification", unification, 14000, 200000, "a rule with a unified set fired"),
    Sub("captures", captures, 12000, 200000, "a rule with captures fired"),
]

TECHNIQUE = "property-based testing: generated rules with unified sets, captures and variable strings against a reference interpreter"
NOTE = "Readings have at most one tag of each unified list, so that what matches first is settled; captures come from patterns that match at most one tag of a reading. Exploration only."
