"""Generators of streams, sets, tests and rules."""
from .gr import Tag, L, Set, lst, comp, ANY, Test, Rule, Grammar

POS = ['N', 'V', 'A', 'D', 'Adv']
FEAT = ['sg', 'pl', 'nom', 'acc', 'x', 'y', '<m>', '<h>']
MAPS = ['@s', '@o', '@p']
BASES = ['"a"', '"b"', '"cat"', '"Cat"', '"dog"', '"a b"']
WFS = ['"<a>"', '"<b>"', '"<Cat>"', '"<cats>"', '"<dog>"', '"<a b>"']
NUMS = ['<W:1>', '<W:2>', '<W:5>', '<F=3>', '<F=-1.5>']
DELIM = '"<.>"'


class Cfg:
    """What the generated streams may contain."""
    def __init__(self, **kw):
        self.pos, self.feat, self.maps, self.bases, self.wfs, self.nums = POS, FEAT, MAPS, BASES, WFS, NUMS
        self.mapping = 10       # % of readings with mapping tags
        self.numeric = 0
        self.static = 5
        self.subs = 0
        self.empty = 2
        self.dup = 0            # % chance of a reading repeating the previous one's tags
        self.maxcoh = 6
        self.maxrd = 4
        self.maxwin = 3
        self.text = 0
        self.cmds = None
        self.delim = True
        self.deps = 0
        self.maxtags = 4
        self.__dict__.update(kw)


def reading_tags(src, cfg):
    tags = []
    if src.p(90):
        tags.append(src.c(cfg.pos))
    pool = [t for t in cfg.feat]
    for _ in src.many(0, cfg.maxtags, 60):
        t = src.c(pool)
        if t not in tags:
            tags.append(t)
    if cfg.numeric and src.p(cfg.numeric):
        for t in src.sub(cfg.nums, 1, 2):
            tags.append(t)
    if cfg.mapping and src.p(cfg.mapping):
        tags += src.sub(cfg.maps, 1, 2)
    return tags


def stream(src, cfg):
    """Returns a list of windows; a window is a list of cohorts; a cohort is (wf, static, [reading]); a reading is a list of (base, tags)."""
    wins = []
    for w in src.many(1, cfg.maxwin, 45):
        coh = []
        for _ in src.many(1, cfg.maxcoh, 75):
            coh.append(cohort(src, cfg))
        if cfg.delim:
            coh.append((DELIM, [], [[('"."', ['CLB'])]]))
        wins.append(coh)
    return wins


def cohort(src, cfg):
    wf = src.c(cfg.wfs)
    static = src.sub(['st1', 'st2', 'N', '<h>'], 1, 2) if src.p(cfg.static) else []
    rds = []
    if not src.p(cfg.empty):
        for _ in src.many(1, cfg.maxrd, 70):
            if rds and cfg.dup and src.p(cfg.dup):
                b, t = rds[-1][0]
                rds.append([(b, list(t))] + [(x, list(y)) for x, y in rds[-1][1:]])
                continue
            chain = [(src.c(cfg.bases), reading_tags(src, cfg))]
            if cfg.subs:
                while len(chain) < 4 and src.p(cfg.subs):
                    chain.append((src.c(cfg.bases), reading_tags(src, cfg)))
            if not cfg.dup and any(same_set(chain, r) for r in rds):
                continue
            rds.append(chain)
    return (wf, static, rds)


def same_set(a, b):
    f = lambda ch: [(x, frozenset(t for t in y if t[0] != '@')) for x, y in ch]
    return f(a) == f(b)


def show_cohort(c):
    wf, static, rds = c
    out = [' '.join([wf] + static)]
    for ch in rds:
        for i, (b, tags) in enumerate(ch):
            out.append('\t' * (i + 1) + ' '.join([b] + tags))
    return '\n'.join(out) + '\n'


def show(wins):
    return ''.join(show_cohort(c) for w in wins for c in w)


# ---- tags and sets ----------------------------------------------------------
def plain_tag(src, cfg, wild=0):
    """A literal tag pattern likely to occur."""
    k = src.w([(5, 'pos'), (6, 'feat'), (2, 'base'), (1 if cfg.mapping else 0, 'map'), (1, 'wf'), (3 if cfg.numeric else 0, 'numlit')])
    if k == 'numlit':
        return Tag('num', src.c(cfg.nums))
    return L(src.c({'pos': cfg.pos, 'feat': cfg.feat, 'base': cfg.bases, 'map': cfg.maps, 'wf': cfg.wfs, 'numlit': cfg.nums}[k]))


RX = [('rx', '"c.*"'), ('rx', '"[ab]"'), ('rx', '"<c.*>"'), ('rx', '"<.*t.*>"'), ('rx', '<[mh]>'), ('rx', '<.>'), ('srx', '^[sp]'), ('srx', 'o'), ('srx', 'c'),
      ('srx', '^.$'), ('rx', '"(a|b)"'), ('srx', 'l$'), ('rx', '"C.t"'), ('rx', '<W.*>')]
IC = ['"CAT"', '"cAt"', '"<CATS>"', '"<A>"', '<M>', 'SG', 'n', 'Acc']


def pattern_tag(src, cfg):
    """Any documented tag pattern (without variables or contextual tags)."""
    k = src.w([(9, 'lit'), (3, 'rx'), (2, 'ic'), (3 if cfg.numeric else 1, 'num'), (1, 'special'), (1, 'any')])
    if k == 'lit':
        return plain_tag(src, cfg)
    if k == 'rx':
        kind, s = src.c(RX)
        return Tag(kind, s, ic=src.p(25))
    if k == 'ic':
        return Tag('icase', src.c(IC))
    if k == 'num':
        op = src.c(['=', '!=', '<', '>', '<=', '>=', ':'])
        key = src.c(['W', 'F'])
        v = src.c(['1', '2', '5', '3', '-1.5', '0', '2.5', '-2'] + (['MAX', 'MIN'] if op in ('=', ':') else []))
        return Tag('num', '<%s%s%s>' % (key, op, v))
    if k == 'special':
        return L(src.c(['>>>', '<<<']))
    return Tag('rxany', src.c(['".*"', '"<.*>"', '<.*>']))


def list_set(src, cfg, tag, ff=0, width=4):
    elems = []
    for _ in src.many(1, width, 55):
        n = src.w([(6, 1), (3, 2), (1, 3)])
        e = []
        for _ in range(n):
            t = tag(src, cfg)
            if all(t.text() != x.text() for x in e):
                e.append(t)
        if ff and len(e) == 1 and e[0].kind == 'lit' and src.p(ff):
            e = [Tag('lit', e[0].s, ff=True)]
        elems.append(e)
    # a list of nothing but fail-fast tags has no documented meaning
    if all(len(e) == 1 and e[0].ff for e in elems):
        elems.append([plain_tag(src, cfg)])
    return elems


class Sets:
    """Builds named sets in a grammar."""
    def __init__(self, g, src, cfg, tag=pattern_tag, ff=0, named=60, ops=None):
        self.g, self.src, self.cfg, self.tag, self.ff, self.named = g, src, cfg, tag, ff, named
        self.ops = ops or ['OR', '+', '-', '^', '|']
        self.n = 0

    def name(self, s):
        s.name = 'S%d' % self.n
        self.n += 1
        self.g.sets.append(s)
        return s

    def list(self):
        src = self.src
        elems = list_set(src, self.cfg, self.tag, self.ff)
        s = Set('list', None, elems)
        if len(elems) > 1 or (len(elems) == 1 and elems[0][0].ff) or src.p(self.named):
            self.name(s)
        return s

    def any(self, depth=2):
        """A set, possibly composed."""
        src = self.src
        if depth <= 0 or not src.p(40):
            if src.p(6):
                return ANY
            if self.n and src.p(25):
                return src.c(self.g.sets)
            return self.list()
        ms, ops = [self.any(depth - 1)], []
        for _ in src.many(1, 3, 35):
            ops.append(src.c(self.ops))
            ms.append(self.any(depth - 1))
        ms = [self.closed(m) for m in ms]
        s = Set('set', None, None, ms, ops)
        if src.p(self.named):
            self.name(s)
        return s

    def closed(self, m):
        """Inner compound sets have to be named."""
        if m.kind == 'set' and m.name is None:
            self.name(m)
        return m

    def simple(self):
        src = self.src
        if src.p(50):
            return comp(plain_tag(src, self.cfg))
        return self.list()
