"""C20: cg-relabel and cg-mwesplit."""
import re, zlib

from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen
from vlib.common import must, case

CFG = gen.Cfg(static=0, mapping=15, dup=8, maps=['@s', '@o'])
VOC = CFG.pos + CFG.feat


def h(*x):
    return zlib.crc32(' '.join(x).encode())


def variant(t, s):
    return t[:-1] + s + '>' if t[0] == '<' else t + s


class Map:
    """One line of a relabelling file: tag 't' of the grammar becomes something else."""
    def __init__(self, src, t, used):
        self.t = t
        self.kind = src.w([(4, 'ren'), (2, 'ident'), (0 if t[0] == '@' or used else 2, 'pair'), (0 if t[0] == '@' or used else 2, 'alt'),
                           (0 if t[0] == '@' or used else 3, 'minus'), (0 if t[0] == '@' or used else 2, 'plus'), (0 if t[0] == '@' or used else 1, 'either')])
        self.a, self.b = variant(t, 'A'), variant(t, 'B')
        self.named = src.p(30)

    def text(self):
        k, a, b = self.kind, self.a, self.b
        to = {'ren': '(%s)' % a, 'ident': '(%s)' % self.t, 'pair': '(%s %s)' % (a, b), 'alt': '(%s) OR (%s)' % (a, b),
              'minus': '(%s) - (%s)' % (a, b), 'plus': '(%s) + (%s)' % (a, b), 'either': '(%s) - (%s) OR (%s) - (%s)' % (a, b, b, a)}[k]
        if self.named:
            n = 'S' + str(h(self.t))
            if k == 'alt':
                return 'LIST %s = %s %s ;\nMAP (%s) %s ;\n' % (n, a, b, self.t, n)
            return 'SET %s = %s ;\nMAP (%s) %s ;\n' % (n, to, self.t, n)
        return 'MAP (%s) %s ;\n' % (self.t, to)

    def forward(self, base, tags):
        k, t, a, b = self.kind, self.t, self.a, self.b
        x = h(base, t)
        if k == 'ident':
            return tags
        if t not in tags:
            return tags + {'minus': [[], [b], [a, b], []], 'pair': [[], [a], [b], []], 'plus': [[], [a], [b], []], 'either': [[], [a, b], [], []]}.get(k, [[]] * 4)[x % 4]
        new = {'ren': [a], 'pair': [a, b], 'plus': [a, b], 'minus': [a], 'alt': [[a], [b], [a, b], [a]][x % 4], 'either': [[a], [b]][x % 2]}[k]
        i = tags.index(t)
        return tags[:i] + new + [y for y in tags[i + 1:] if y != t]

    def backward(self, tags):
        k, t, a, b = self.kind, self.t, self.a, self.b
        if k == 'ident':
            return tags
        has = {'ren': a in tags, 'pair': a in tags and b in tags, 'plus': a in tags and b in tags, 'minus': a in tags and b not in tags, 'alt': a in tags or b in tags,
               'either': (a in tags) != (b in tags)}[k]
        if k == 'ren':
            return [t if y == a else y for y in tags]
        out, done = [], False
        for y in tags:
            if y in (a, b):
                if has and not done:
                    out.append(t)
                    done = True
            else:
                out.append(y)
        return out


def forward(maps, base, tags):
    tags = list(tags)
    for m in maps:
        tags = m.forward(base, tags)
    return tags


def backward(maps, out):
    res = []
    for line in out.split('\n'):
        m = re.match(r'(;?\t+)("(?:[^"]*)")(.*)$', line)
        if m:
            tags = m.group(3).split()
            for x in maps:
                tags = x.backward(tags)
            line = m.group(1) + ' '.join([m.group(2)] + tags)
        res.append(line)
    return '\n'.join(res)


def tag(src, cfg):
    # patterns that look at no tag that is relabelled
    if src.p(12):
        return src.c([Tag('rx', '"c.*"'), Tag('rx', '"<.*t.*>"'), Tag('icase', '"CAT"'), Tag('rx', '"[ab]"'), Tag('rxany', '".*"')])
    return gen.plain_tag(src, cfg)


def test(src, S, depth=0):
    t = Test(S.any(1))
    k = src.w([(4, 'rel'), (4, 'scan'), (1, 'self')])
    t.off = src.c([-1, 1, -2, 2]) if k == 'rel' else src.c([-1, 1]) if k == 'scan' else 0
    if k == 'scan':
        t.scan = src.r(1, 2)
        if src.p(30):
            t.barrier = S.any(1)
    t.careful = src.p(15) or None
    if depth == 0 and src.p(8):
        t.neg = True
    t.nt = src.p(12) or None
    if depth < 2 and src.p(25):
        t.link = test(src, S, depth + 1)
    return t


def canon(out):
    # readings that come to have the same number are printed in an order that depends on their tags
    res, rds = [], []
    for line in out.split('\n') + ['']:
        if line.startswith('\t'):
            rds.append(line)
            continue
        res += sorted(rds) + [line]
        rds = []
    return res


def relabel(src, env):
    g = Grammar()
    froms = src.sub(VOC + CFG.maps, 1, 4)
    used = src.sub(froms, 0, 2)         # tags that rules add or take away
    maps = [Map(src, t, t in used) for t in froms]
    S = gen.Sets(g, src, CFG, tag=tag, ff=src.c([0, 0, 15]), named=70, ops=['OR', 'OR', '+', '-'] + (['^'] if src.p(20) else []))
    free = [t for t in VOC if t not in froms] + used + ['new']

    def some(lo, hi):
        return src.sub(free, lo, hi)
    sections = [[]]
    for i in range(src.r(1, 6)):
        ty = src.w([(5, 'SELECT'), (5, 'REMOVE'), (1, 'IFF'), (4, 'ADD'), (3, 'MAP'), (3, 'SUBSTITUTE'), (1, 'REPLACE'), (2, 'APPEND')])
        r = Rule(ty, S.any(2), tests=[test(src, S) for _ in src.many(0, 2, 50)])
        if ty == 'ADD':
            r.tags = some(1, 2)
        elif ty == 'MAP':
            r.tags = src.sub([t for t in CFG.maps if t not in froms or t in used] + ['@new'], 1, 1)
        elif ty == 'REPLACE':
            r.tags = some(1, 3)
        elif ty == 'SUBSTITUTE':
            r.tags2 = [L(t) for t in some(1, 2)]
            r.tags = some(1, 2)
        elif ty == 'APPEND':
            r.tags = ['"cat"'] + some(1, 2)
        if src.p(15) and sections[-1]:
            sections.append([])
        sections[-1].append(r)
    g.sections = sections
    gt = g.text()
    rt = ''.join(m.text() for m in maps)
    wins = gen.stream(src, CFG)
    text = gen.show(wins)
    there = gen.show([[(wf, st, [[(b, forward(maps, b, t)) for b, t in ch] for ch in rds]) for wf, st, rds in w] for w in wins])
    d = env.d
    d.write('g.cg3', gt)
    d.write('r.cg3', rt)
    r = d.run('cg-comp', ['g.cg3', 'g.bin'])
    must(r, 'cg-comp', gt, text)
    full = gt + '--- relabelling\n' + rt
    r = d.run('cg-relabel', ['g.bin', 'r.cg3', 'o.bin'])
    must(r, 'cg-relabel', full, text)
    ra, rb = [d.run('vislcg3', ['-g', x, '--split-mappings', '--max-runs', '4'], y, 5000) for x, y in (('g.bin', text), ('o.bin', there))]
    if -1000 in (ra.rc, rb.rc):
        raise Discard()     # readings that grow without bound
    a = must(ra, 'the grammar', full, text)
    b = must(rb, 'the relabelled grammar', full, there)
    back = backward(maps, b)
    if canon(back) != canon(a):
        for x, y in zip(canon(a), canon(back)):
            if x != y:
                break
        raise Violation("relabelling changed what the grammar does: %r became %r" % (x, y), "mismatch",
                        case(full, text) + "--- output\n" + a + "--- relabelled input\n" + there + "--- relabelled output\n" + b)
    moved = a.split() != text.split() and any(t in gt for t in froms)
    return Info(moved, gt + rt + text, sorted(set(m.kind for m in maps)) + (['edited'] if used else []),
                {"grammar": gt, "relabelling": rt, "input": text, "output": a})


# ---- multi-word readings ------------------------------------------------------
WORDS = ['go', 'da', 'lle', 'a', '.', '3', 'x-y', 'Go', 'é']


def tagged(src, tags, extra):
    tags = list(tags)
    for e in extra:
        tags.insert(src.r(0, len(tags)), e)
    return tags


def part(src, wf):
    """A reading of one word with its own sub-readings, as (base, tags) from the top; the word form goes on the first."""
    tags = lambda: src.sub(['N', 'V', 'sg', 'pl', '<W:0>', '<m>', 'x'], 0, 3)
    return [('"%s"' % src.c(WORDS), tags()) for _ in range(1 + (src.p(25) and src.r(1, 2)))]


def chain(rds):
    return ''.join('\t' * (i + 1) + ' '.join([b] + t) + '\n' for i, (b, t) in enumerate(rds))


def uniq(chains):
    """Equal readings of a cohort are printed once."""
    out = []
    for c in chains:
        if c not in out:
            out.append(c)
    if len(set(' '.join(sorted(x.split())) for x in out)) < len(out):
        raise Discard()     # equal but for the order of tags
    return out


def mwe_cohort(src):
    """(what goes in, what should come out)"""
    kind = src.w([(5, 'mwe'), (4, 'plain'), (2, 'half'), (1, 'subs'), (1, 'clash')])
    if kind == 'plain':
        wf = '"<%s>"' % src.c(WORDS + ['a b'])
        out = wf + ''.join(' ' + t for t in (['st'] if src.p(10) else [])) + '\n'
        a, b = [], []
        for _ in src.many(0, 3, 60):
            rd = part(src, None)
            b.append(chain(rd))
            if src.p(15):
                rd[0][1].append(wf)     # the cohort's own word form is none to split at
            a.append(chain(rd))
        return 'plain', out + ''.join(a), out + ''.join(uniq(b))
    n = src.r(1 if kind == 'mwe' and src.p(20) else 2, 4)
    words = [src.c(WORDS) for _ in range(n)]
    gaps = [src.c(['', ' ', ' ']) for _ in range(n - 1)] + ['']
    whole = '"<%s>"' % ''.join(w + g for w, g in zip(words, gaps))
    rds = []
    for _ in src.many(1, 3, 55):
        rds.append([part(src, w) for w in words])
    # where the space between two words is written: at the end of the first or at the start of the second
    lead = [i > 0 and gaps[i - 1] != '' and src.p(25) for i in range(n)] + [False]
    forms = ['"<%s%s%s>"' % (gaps[i - 1] if lead[i] else '', words[i], '' if lead[i + 1] else gaps[i]) for i in range(n)]
    if whole in forms:
        raise Discard()
    ins = []
    order = list(range(n))[::-1]
    for k, rd in enumerate(rds):
        ch = []
        for i in order:
            for j, (b, t) in enumerate(rd[i]):
                f = [forms[i]] if j == 0 else []
                if b in f:
                    raise Discard()
                ch.append((b, tagged(src, t, f) if f else t))
        if kind == 'half' and k == len(rds) - 1:
            ch[0] = rd[n - 1][0]
        if kind == 'subs':
            ch[0] = rd[n - 1][0]
        if kind == 'clash' and k == len(rds) - 1 and k:
            i = src.r(0, len(ch) - 1)
            ch[0] = (ch[0][0], [x if x not in forms else '"<zz>"' for x in ch[0][1]])
        ins.append(chain(ch))
    if kind in ('half', 'subs') or (kind == 'clash' and len(rds) > 1):
        return kind, whole + '\n' + ''.join(ins), whole + '\n' + ''.join(uniq(ins))
    inp, out = whole + '\n' + ''.join(ins), ''
    for i in range(n):
        out += '"<%s>"\n' % words[i]
        out += ''.join(uniq(chain(rd[i]) for rd in rds))
        if gaps[i]:
            out += ':%s\n' % gaps[i]
    return 'mwe%d' % n, inp, out


def mwesplit(src, env):
    inp, want, labels = '', '', []
    for _ in src.many(1, 8, 75):
        k, a, b = mwe_cohort(src)
        labels.append(k)
        t = src.c(['', '', ': \n', ':\\n\n', 'text here\n', '<STREAMCMD:FLUSH>\n', '<s>\n'])
        inp += a + t
        want += b + t
    r = env.d.run('cg-mwesplit', [], inp)
    out = must(r, 'cg-mwesplit', '', inp)
    clean = lambda s: [x for x in s.split('\n') if x.strip()]
    if clean(out) != clean(want):
        for x, y in zip(clean(want) + ['the end'] * 9, clean(out) + ['the end'] * 9):
            if x != y:
                break
        raise Violation("expected %r, got %r" % (x, y), "mismatch", case('', inp) + "--- expected\n" + want + "--- output\n" + out)
    return Info(any(k.startswith('mwe') for k in labels), inp, sorted(set(labels)), {"input": inp, "output": out})


SUBS = [
    Sub("mwesplit", mwesplit, 7000, 120000, "the stream has a multi-word reading to split"),
    Sub("relabel", relabel, 7000, 120000, "the grammar mentions a relabelled tag and changes the input"),
]

TECHNIQUE = "property-based testing: metamorphic relation between a grammar on a stream and the relabelled grammar on the relabelled stream"
NOTE = "Exploration only."
