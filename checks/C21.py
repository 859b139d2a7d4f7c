"""C21: the containers against the models they stand for."""
import bisect, re
from vlib import gen, rich
from vlib.common import case, must
from vlib.pbt import Sub, Violation, Discard, Info

NOTE = ('The containers are compiled from the headers of the tree under test and driven directly; keys the hash tables reserve are not used, and iterating a hash table '
        'backwards is only done between existing members. The names sub-check reaches the tag tables through the command line.')
TECHNIQUE = 'stateful property-based testing against reference models (operation sequences, shrunk), and a metamorphic renaming of tags with colliding hashes'

MAXU = 0xFFFFFFFF


def keys(src, reserved=False):
    """A pool of keys for one case, with a shape."""
    k = src.n(6)
    if k == 0:
        ks = list(range(8))
    elif k == 1:
        ks = list(range(src.c([20, 40])))
    elif k == 2:
        step = src.c([16, 32, 64, 256, 1024])
        base = src.n(16)
        ks = [base + step * i for i in range(24)]
    elif k == 3:
        ks = [0, 1, 2, 3, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, MAXU - 4, MAXU - 3, MAXU - 2, MAXU - 1, MAXU]
    elif k == 4:
        ks = list(range(200))
    else:
        ks = [src.n(1 << 32) for _ in range(12)]
        ks += [(x + 1) & MAXU for x in ks]
    if reserved:
        ks = [x for x in ks if x < MAXU - 1]
    return ks


def fmt(xs):
    return ''.join(' %d' % x for x in xs)


class SV:
    """sorted_vector"""
    OPS = [(8, 'insert'), (2, 'push'), (4, 'range'), (2, 'merge'), (6, 'erase'), (1, 'eraseit'), (1, 'erasen'), (2, 'eraserange'), (1, 'erasecont'), (6, 'find'), (1, 'assign'),
           (1, 'assignit'), (1, 'copy'), (1, 'swap'), (1, 'clear'), (1, 'sort'), (1, 'pop'), (4, 'dump')]

    def __init__(self, rev=False):
        self.rev, self.v = rev, [[], []]

    def srt(self, s):
        return sorted(set(s), reverse=self.rev)

    def lb(self, v, x):
        return sum(1 for y in v if (y > x if self.rev else y < x))

    def ub(self, v, x):
        return sum(1 for y in v if (y >= x if self.rev else y <= x))

    def op(self, src, i, op, ks):
        v, w = self.v[i], self.v[1 - i]
        o = ''
        a = []
        if op in ('insert', 'push', 'erase', 'find'):
            x = src.c(ks)
            a = [x]
        elif op in ('range', 'eraserange', 'assign'):
            a = [src.c(ks) for _ in src.many(0, 30, 80)]
            m = src.n(3)
            if m == 1:
                a = self.srt(a)
            elif m == 2:
                a = a + a[:1]
        elif op in ('eraseit', 'erasen'):
            a = [src.n(50)]
        if op == 'insert':
            new = x not in v
            v = self.srt(v + [x])
            o = '%d %d %d\n' % (x, new, v.index(x))
        elif op == 'push':
            v = self.srt(v + [x])
        elif op == 'range':
            v = self.srt(v + a)
        elif op == 'merge':
            v = self.srt(v + w)
        elif op == 'erase':
            o = '%d\n' % (x in v)
            v = [y for y in v if y != x]
        elif op == 'eraseit':
            if v:
                n = a[0] % len(v)
                o = '%d\n' % n
                v = v[:n] + v[n + 1:]
        elif op == 'erasen':
            if v:
                n = a[0] % len(v)
                v = v[:n] + v[n + 1:]
        elif op == 'eraserange':
            v = [y for y in v if y not in a]
        elif op == 'erasecont':
            v = [y for y in v if y not in w]
        elif op == 'find':
            at = v.index(x) if x in v else len(v)
            o = '%d %d %d %d %d %d\n' % (at, at, x in v, x in v, self.lb(v, x), self.ub(v, x))
        elif op == 'assign':
            v = self.srt(a)
        elif op in ('assignit', 'copy'):
            v = list(w)
        elif op == 'swap':
            self.v[1 - i] = v
            v = w
        elif op == 'clear':
            v = []
        elif op == 'pop':
            v = v[:-1]
        elif op == 'dump':
            o = 'f%s\nb%s\nc%s\n%d %d' % (fmt(v), fmt(v[::-1]), fmt(v), len(v), not v)
            if v:
                o += ' %d %d %d' % (v[0], v[-1], v[len(v) // 2])
            o += '\n'
        self.v[i] = v
        return a, o


class IV:
    """interval_vector"""
    OPS = [(10, 'insert'), (2, 'push'), (4, 'range'), (2, 'merge'), (1, 'build'), (8, 'erase'), (6, 'find'), (3, 'from'), (3, 'intersect'), (1, 'keep'), (1, 'copy'), (1, 'clear'), (4, 'dump')]

    def __init__(self):
        self.v = [set(), set()]

    def op(self, src, i, op, ks):
        v, w = self.v[i], self.v[1 - i]
        a, o = [], ''
        if op in ('insert', 'push', 'erase', 'find'):
            x = src.c(ks)
            a = [x]
        elif op in ('range', 'build'):
            if src.p(50):
                b = src.n(len(ks))
                a = ks[b:b + src.r(1, 20)]
            else:
                a = [src.c(ks) for _ in src.many(1, 20, 80)]
        elif op == 'from':
            a = [src.c(ks), src.n(8)]
        if op in ('insert', 'push'):
            o = '%d\n' % (x not in v)
            v = v | {x}
        elif op == 'range':
            v = v | set(a)
        elif op == 'merge':
            v = v | w
        elif op == 'build':
            v = set(a)
        elif op == 'erase':
            o = '%d\n' % (x in v)
            v = v - {x}
        elif op == 'find':
            up = [y for y in v if y >= x]
            o = '%s %d %s\n' % (x if x in v else 'end', x in v, min(up) if up else 'end')
        elif op == 'from':
            s = sorted(v)
            at = bisect.bisect_left(s, a[0])
            r = s[at:at + a[1]]
            at += len(r)
            for _ in range(a[1]):
                at -= 1
                if at < 0:
                    break
                r.append(s[at])
            o = 'from%s\n' % fmt(r)
        elif op == 'intersect':
            o = 'x%s\n%d\n' % (fmt(sorted(v & w)), len(v & w))
        elif op == 'keep':
            v = v & w
        elif op == 'copy':
            v = set(w)
        elif op == 'clear':
            v = set()
        elif op == 'dump':
            s = sorted(v)
            o = 'f%s\nb%s\n%d %d' % (fmt(s), fmt(s[::-1]), len(s), not s)
            if s:
                o += ' %d %d' % (s[0], s[-1])
            o += '\n'
        self.v[i] = v
        return a, o


class FS:
    """flat_unordered_set and, with values, flat_unordered_map"""
    OPS = [(10, 'insert'), (2, 'range'), (1, 'merge'), (10, 'erase'), (2, 'eraseit'), (6, 'find'), (1, 'assign'), (1, 'copy'), (1, 'swap'), (1, 'clear'), (1, 'reserve'), (3, 'dump')]
    MOPS = [(5, 'insert'), (5, 'set'), (5, 'get'), (2, 'range'), (10, 'erase'), (2, 'eraseit'), (6, 'find'), (1, 'assign'), (1, 'copy'), (1, 'swap'), (1, 'clear'), (1, 'reserve'), (3, 'dump')]

    def __init__(self, m=False):
        self.m = m
        self.OPS = self.MOPS if m else FS.OPS
        self.v = [{}, {}]
        self.most = 0

    def op(self, src, i, op, ks):
        v, w = dict(self.v[i]), self.v[1 - i]
        a, o = [], ''
        if op in ('insert', 'set', 'get', 'erase', 'eraseit', 'find'):
            x = src.c(ks)
            a = [x]
            if self.m and op in ('insert', 'set'):
                a.append(src.n(100) + 1)
        elif op in ('range', 'assign'):
            pr = [(src.c(ks), src.n(100) + 1) for _ in src.many(0, 30, 85)]
            for p in pr:
                a += p if self.m else p[:1]
        if op == 'insert':
            v.setdefault(x, a[1] if self.m else 0)
        elif op == 'set':
            v[x] = a[1]
        elif op == 'get':
            v.setdefault(x, 0)
            o = '%d\n' % v[x]
        elif op in ('range', 'assign'):
            if op == 'assign':
                v = {}
            for p in pr:
                v.setdefault(p[0], p[1] if self.m else 0)
        elif op == 'merge':
            v.update(w)
        elif op == 'erase':
            v.pop(x, None)
        elif op == 'eraseit':
            if x in v:
                o = 'any'
                del v[x]
        elif op == 'find':
            h = x in v
            o = '%d%d%d%d %s\n' % (h, h, h, h, ('%d:%d' % (x, v[x]) if self.m else str(x)) if h else '')
        elif op == 'copy':
            v = dict(w)
        elif op == 'swap':
            self.v[1 - i] = v
            v = w
        elif op == 'clear':
            v = {}
        elif op == 'reserve':
            a = [src.r(4, 8)]
        elif op == 'dump':
            s = sorted(v)
            o = 'f%s\n' % (''.join(' %d:%d' % (x, v[x]) for x in s) if self.m else fmt(s))
            if s:
                o += 'back 1\n'
            o += '%d %d 1\n' % (len(v), not v)
        self.v[i] = v
        return a, o


class Trie:
    OPS = [(10, 'insert'), (1, 'copy'), (1, 'delete'), (1, 'swap'), (4, 'dump')]

    def __init__(self):
        self.v = [set(), set()]

    def op(self, src, i, op, ks):
        v, w = self.v[i], self.v[1 - i]
        a, o = [], ''
        if op == 'insert':
            a = [src.c(ks) for _ in src.many(1, 5, 60)]
            t = tuple(a)
            new = not any(t[:n] in v for n in range(1, len(t) + 1))
            if new:
                v = {x for x in v if x[:len(t)] != t} | {t}
            o = '%d\n' % new
        elif op == 'copy':
            v = set(w)
        elif op == 'delete':
            v = set()
        elif op == 'swap':
            self.v[1 - i] = v
            v = w
        elif op == 'dump':
            h = lambda n: n * 2654435761 & MAXU
            o = 'o%s\n' % self.put(v)
            o += 't%s\n' % self.put({tuple(sorted(x, key=h)) for x in v})
            every = {y for x in v for y in x}
            o += '%d %s 1\n' % (len(v) == 1, ''.join('%d' % any(y % 4 == b for y in every) for b in range(4)))
            o += '1 all%s\n' % fmt(sorted(p[-1] for p in {x[:n] for x in v for n in range(1, len(x) + 1)}))
            o += 'same %d\n' % (v == w)
            o += 'used%s\n' % fmt(sorted(every))
        self.v[i] = v
        return a, o

    @staticmethod
    def put(s):
        return ''.join(' (%s )' % fmt(x) for x in sorted(s))


def play(src, env, kind, model, ks, lo, hi, more, twice=True):
    """A program of operations on two containers of one kind; each result is compared."""
    prog, want, ops, peak = [], [], set(), 0
    def step(i, op):
        nonlocal peak
        a, o = model.op(src, i, op, ks)
        prog.append('%s %d %s%s' % (kind, i, op, fmt(a)))
        want.append(o)
        ops.add(op)
        peak = max(peak, len(model.v[i]))
    for _ in src.many(lo, hi, more):
        step(src.n(2) if src.p(30) else 0, src.w(model.OPS))
    step(0, 'dump')
    step(1, 'dump')
    judge(env, kind, prog, want)
    return Info(len(ops) > 3 and peak > 2, '\n'.join(prog), ['%s:%s' % (kind, x) for x in sorted(ops)] + (['%s:big' % kind] if peak > 20 else []), {'program': prog[:40]})


def judge(env, kind, prog, want):
    r = env.d.run('unit', [], '\n'.join(prog) + '\n')
    det = 'operations for driver/unit.cpp:\n' + '\n'.join(prog) + '\n'
    if r.rc == -1000:
        raise Violation('%s: an operation never returns' % kind, 'hang', det)
    if r.rc != 0:
        raise Violation('%s: ended with status %d: %s' % (kind, r.rc, r.err[-300:].decode('utf8', 'replace')), 'crash', det)
    got = r.out.decode().split('\n')
    at = 0
    for p, w in zip(prog, want):
        if w == 'any':
            at += 1
            continue
        ls = w.split('\n')[:-1]
        g = got[at:at + len(ls)]
        at += len(ls)
        if g != ls:
            raise Violation('%s: "%s" answers %r, the model says %r' % (kind, p[:120], g, ls), 'differs', det)
    if got[at:] != ['']:
        raise Violation('%s: extra output %r' % (kind, got[at:][:3]), 'differs', det)


def sorted_sets(src, env):
    k = src.n(3)
    ks = keys(src)
    if k == 0:
        return play(src, env, 'sv', SV(), ks, 3, 120, 97)
    if k == 1:
        return play(src, env, 'sg', SV(True), ks, 3, 120, 97)
    return play(src, env, 'iv', IV(), ks, 3, 150, 98)


def tables(src, env):
    m = src.p(50)
    ks = keys(src, True)
    mode = src.n(3)
    model = FS(m)
    if mode == 1:
        # Few members, many come and go
        model.OPS = [(10, 'insert'), (10, 'erase'), (2, 'find'), (1, 'dump')] + ([(3, 'get'), (3, 'set')] if m else [])
    return play(src, env, 'fm' if m else 'fs', model, ks, 3, 300, 99)


def tries(src, env):
    ks = list(range(src.c([3, 6, 12])))
    return play(src, env, 'trie', Trie(), ks, 3, 60, 95)


def others(src, env):
    k = src.n(3)
    prog, want = [], []
    if k == 0:
        v = [set(), set()]
        ks = keys(src)
        hits = 0
        ops = []
        for _ in src.many(3, 60, 95):
            i = src.n(2)
            op = src.w([(6, 'insert'), (8, 'find'), (1, 'copy'), (1, 'build'), (1, 'clear')])
            x = src.c(ks)
            if op == 'find':
                if x not in v[i]:
                    continue
                hits += 1
                want.append('1\n')
            else:
                want.append('')
            prog.append('bloom %d %s %d' % (i, op, x))
            if op == 'insert':
                v[i].add(x)
            elif op in ('copy', 'build'):
                v[i] = set(v[1 - i])
            elif op == 'clear':
                v[i] = set()
        judge(env, 'bloom', prog, want)
        return Info(hits > 2, '\n'.join(prog), ['bloom'], {'program': prog[:40]})
    if k == 1:
        # Which one comes back is the pool's business; that nobody holds it is not
        prog = []
        n = 0
        for _ in src.many(3, 60, 95):
            if src.p(50):
                prog.append('pool 0 put %d' % src.r(1, max(1, n)))
            else:
                prog.append('pool 0 get')
                n += 1
        r = env.d.run('unit', [], '\n'.join(prog) + '\n')
        det = 'operations for driver/unit.cpp:\n' + '\n'.join(prog) + '\n'
        if r.rc:
            raise Violation('pool: ended with status %d' % r.rc, 'crash', det)
        got = r.out.decode().split('\n')
        held, free, at, made, reuse = set(), set(), 0, 0, 0
        for p in prog:
            f = p.split()
            if f[2] == 'put':
                if int(f[3]) not in held:
                    continue
                if got[at] != 'cleared 1':
                    raise Violation('pool: %s answers %r' % (p, got[at]), 'differs', det)
                held.discard(int(f[3]))
                free.add(int(f[3]))
            else:
                w = got[at].split()
                x = int(w[1])
                if w[0] == 'new':
                    made += 1
                    ok = not free and x == made
                else:
                    reuse += 1
                    ok = x in free and x not in held
                if not ok:
                    raise Violation('pool: %s answers %r with %r free and %r held' % (p, got[at], sorted(free), sorted(held)), 'differs', det)
                free.discard(x)
                held.add(x)
            at += 1
        return Info(reuse > 0, '\n'.join(prog), ['pool'], {'program': prog[:40]})
    # Nested scopes
    toks, depth, deep = [], 0, 0
    out = ['open 0']
    for _ in src.many(3, 80, 96):
        t = src.w([(5, 'n'), (3, '('), (3, ')')])
        if t == 'n':
            toks.append(str(src.n(100)))
            out.append('%d 11' % depth)
        elif t == '(':
            toks.append('(')
            depth += 1
            deep = max(deep, depth)
            out.append('open 0')
        elif depth:
            toks.append(')')
            depth -= 1
            out.append('%d 11' % depth)
    while depth:
        toks.append(')')
        depth -= 1
        out.append('%d 11' % depth)
    judge(env, 'ss', ['ss 0 x'] and ['ss 0 ' + ' '.join(['.'] + toks)], ['\n'.join(out) + '\n'])
    return Info(deep > 1, ' '.join(toks), ['scopes'], {'program': toks[:60]})


# Tags whose hashes collide are still different tags

def groups(env, pre, post):
    key = ('coll', pre, post)
    if key not in env.state:
        r = env.d.run('unit', [pre, post, '300000'])
        if r.rc:
            raise Violation('looking for colliding names ended with status %d' % r.rc, 'crash', '')
        env.state[key] = [l.split(' ') for l in r.out.decode().split('\n') if l]
    return env.state[key]


def pick(src, gs, n):
    """n names, in colliding groups as far as they go"""
    out = []
    while len(out) < n:
        for x in src.c(gs):
            if x not in out:
                out.append(x)
    return out


def names(src, env):
    tg = groups(env, '', '')
    bs = groups(env, '"', '"')
    ws = groups(env, '"<', '>"')
    tags = pick(src, tg, 8)
    bases = pick(src, bs, 4)
    wfs = pick(src, ws, 4)
    cfg = rich.config(src, pos=tags[:4], feat=tags[4:8], bases=bases[:4], wfs=wfs[:4], mapping=0)
    r = rich.Rich(src, cfg, unify=0, vars=0, vstr=0)
    g = r.grammar(6, 70).text()
    if '$$' in g or '&&' in g or re.search(r'["/>][ri]+[ ;)\]]|//', g):
        raise Discard('patterns see the letters of a name')
    text = rich.stream(src, cfg, cmds=8)
    ren, back = {}, {}
    for pre, post, xs in (('t', '', tags), ('"b', '"', bases), ('"<w', '>"', wfs)):
        for i, x in enumerate(xs):
            ren[x] = '%s%02d%s' % (pre, i, post)
            if post == '>"':
                ren['"%s"' % x[2:-2]] = '"w%02d"' % i   # the base form of a word without readings
    word = re.compile(r'"<[^>"]*>"|"[^"]*"|[A-Za-z][A-Za-z0-9]*')
    sub = lambda s: word.sub(lambda m: ren.get(m.group(0), m.group(0)), s)
    args = []
    a, ta = run(env, g, text, args)
    b, tb = run(env, sub(g), sub(text), args)
    sa, sb = lines(sub(a)), lines(b)
    if sa != sb:
        i = next((k for k, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
        raise Violation('with colliding names line %d is %r, with others %r' % (i + 1, sa[i:i + 1], sb[i:i + 1]), 'differs', case(g, text, args))
    return Info(ta != a or a != text, g + text, [], {'grammar': g, 'input': text})


def run(env, g, text, args):
    env.d.write('g.cg3', g)
    r = env.d.run('vislcg3', ['-g', 'g.cg3'] + args, text, timeout_ms=4000)
    if r.rc == -1000:
        raise Discard('time-out')
    if r.rc != 0:
        raise Discard('grammar rejected')
    return r.out.decode('utf8'), text


def lines(out):
    """The order of tags, and of readings that tie, may follow the hashes"""
    res, run = [], []
    def flush():
        res.extend(x for rd in sorted(run) for x in rd)
        del run[:]
    for l in out.split('\n'):
        if l.startswith('\t'):
            ind = len(l) - len(l.lstrip('\t'))
            toks = l[ind:].split(' ')
            x = (ind, toks[0], sorted(toks[1:]))
            if ind > 1 and run:
                run[-1].append(x)
            else:
                run.append([x])
        else:
            flush()
            res.append(l)
    flush()
    return res


SUBS = [
    Sub('sorted', sorted_sets, 9000, 120000, 'more than three kinds of operation and more than two members at some point'),
    Sub('tables', tables, 9000, 120000, 'more than three kinds of operation and more than two members at some point'),
    Sub('tries', tries, 6000, 80000, 'more than three kinds of operation and more than two members at some point'),
    Sub('others', others, 3000, 30000, 'bloom: members looked up; pool: something reused; scopes: nested at least twice'),
    Sub('names', names, 3000, 40000, 'the grammar changed the stream'),
]
