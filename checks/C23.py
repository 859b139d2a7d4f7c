"""C23: the same grammar, options and stream give the same bytes."""
import re
from vlib import gen, rich
from vlib.common import case
from vlib.pbt import Sub, Violation, Discard, Info
from vlib.gr import L, comp
from checks import C05, C06

TECHNIQUE = ('property-based testing: metamorphic runs of generated grammars and streams under a disturbed heap, environment, file handling and delivery of the input, '
             'and of streams with other windows before them')
NOTE = 'The heap is disturbed through malloc (poisoned memory, holes in random order); the input is delivered through a pipe in pieces that end anywhere, also inside a character.'

ENVS = ['LC_ALL=tr_TR.UTF-8', 'LANG=C', 'LC_ALL=POSIX', 'TZ=Asia/Tokyo', 'COLUMNS=3', 'HOME=/nonexistent', 'CG3_X=1', 'TMPDIR=/nonexistent', 'ICU_DATA=/nonexistent', 'LC_ALL=de_DE@euro', 'LC_NUMERIC=de_DE.UTF-8']


def sizes(src, n):
    k = src.n(4)
    if k == 0:
        return '1' if n < 3000 else '1,%d' % (n // 1000)
    if k == 1:
        return str(src.r(2, 40))
    if k == 2:
        return ','.join(str(src.c([1, 2, 3, 5, 7, 11, 64])) for _ in src.many(1, 8, 80))
    return '%d,100000' % src.r(1, 400)


def disturb(src, n, pipes=True):
    """(directives, labels)"""
    out, lab = [], []
    if src.p(60):
        out.append('env=' + src.c(ENVS))
        lab.append('environment')
    if src.p(50):
        out.append('rand=%d' % src.r(1, 1000))
        lab.append('rand')
    if src.p(70):
        out.append('perturb=%d' % src.c([0x55, 0xFF, 1, 0xAA, 254]))
        lab.append('poison')
    if src.p(70):
        out.append('frag=%d' % src.n(1 << 30))
        lab.append('holes')
    if pipes and src.p(50):
        out.append('chunk=' + sizes(src, n))
        lab.append('pipe')
    return out, lab


def same(a, r, what, gt, text, args, b=None):
    b = r.out if b is None else b
    if r.rc == 0 and a == b:
        return
    if r.rc == -1000:
        raise Violation('%s: it never ended' % what, 'hang', case(gt, text, args))
    if r.rc != 0:
        raise Violation('%s: it ended with status %d' % (what, r.rc), 'status', case(gt, text, args) + r.err.decode('utf8', 'replace')[-1500:])
    la, lb = a.split(b'\n'), b.split(b'\n')
    i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
    raise Violation('%s: line %d was %r, and is now %r' % (what, i + 1, la[i:i + 1], lb[i:i + 1]), 'differs', case(gt, text, args))


def again(src, env):
    gt, text, args, labels = C05.make(src)
    if src.p(30):
        args = args + ['--trace']
    p, base = C05.base(env, gt, text, args)
    base = env.d.run('vislcg3', ['-g', p] + args, text, 6000).out
    d = env.d
    lab = set(labels)
    for _ in src.many(1, 3, 60):
        un, l = disturb(src, len(text))
        lab.update(l)
        k = src.w([(6, 'std'), (2, 'files'), (1, 'dir'), (1, 'out')])
        what = 'with %s' % ' '.join(x.split('=')[0] + '=' + x.split('=', 1)[1][:30] for x in un)
        if k == 'std':
            r = d.run('vislcg3', ['-g', p] + args, text, 8000, under=un)
            same(base, r, what, gt, text, args)
        elif k == 'dir':
            d.write('in.txt', text)
            r = d.run('vislcg3', ['-g', p, '-I', d.path('in.txt')] + args, '', 8000, under=un + ['chdir=/'])
            same(base, r, what + ' in another directory', gt, text, args)
        else:
            d.write('in.txt', text)
            d.unlink('out.txt')
            r = d.run('vislcg3', ['-g', p, '-O', 'out.txt'] + (['-I', 'in.txt'] if k == 'files' else []) + args, '' if k == 'files' else text, 8000, under=un)
            same(base, r, what + ' through files', gt, text, args, d.read('out.txt') if d.exists('out.txt') else b'')
        lab.add(k)
    return Info(base.decode('utf8', 'replace') != text, gt + text, sorted(lab), {'grammar': gt, 'input': text, 'options': args})


FMTS = [('-C', '-c'), ('-J', '-j'), ('-Z', '-z'), ('-A', '-a'), ('-N', '-n'), ('-F', '-f'), ('-X', '-x')]


def formats(src, env):
    """The converter, reading and writing any format, fed in pieces."""
    cfg = dict(text=src.c([0, 15, 40]), cmds=src.c([0, 0, 15]), deps=src.p(30), empty=src.p(15), rels=0, long=src.c([0, 0, 2]))
    text = '\n'.join(C06.stream(src, cfg).lines) + '\n'
    mk, rd = src.c(FMTS)
    wr = src.c(FMTS)[0]
    d = env.d
    r = d.run('cg-conv', ['-c', mk], text, 4000)
    if r.rc != 0:
        raise Discard('not convertible')
    data = r.out
    if src.p(15):
        # Ends anywhere
        data = data[:src.n(len(data) + 1)]
    args = [src.c([rd, rd, '-u']) if rd not in ('-n', '-x') else rd, wr]
    r = d.run('cg-conv', args, data, 4000)
    if r.rc == -1000:
        raise Discard('time-out')
    rc, base = r.rc, r.out
    lab = {mk, wr} | ({'auto'} if args[0] == '-u' else set())
    for _ in src.many(1, 3, 60):
        un, l = disturb(src, 0, False)
        if src.p(80):
            un.append('chunk=' + sizes(src, len(data)))
            l.append('pipe')
        lab.update(l)
        r = d.run('cg-conv', args, data, 8000, under=un)
        if r.rc != rc:
            raise Violation('%r: status %d instead of %d' % (un, r.rc, rc), 'status', case('', data.decode('utf8', 'replace'), args))
        r.rc = 0
        same(base, r, 'cg-conv with %r' % un, '', data.decode('utf8', 'replace'), args)
    return Info(rc == 0 and len(base) > 20, repr((args, data)), sorted(lab), {'options': args, 'input': data.decode('utf8', 'replace')[:600]})


def grams(src, env):
    """Grammars in binary streams, and through the grammar formats: the same bytes each time."""
    gt, text, args, labels = C05.make(src)
    p, base = C05.base(env, gt, text, args)
    d = env.d
    kind = src.c(['bin', 'bin', 'text', 'comp'])
    outs = []
    for i in range(2):
        un, l = disturb(src, 0, False) if i else ([], [])
        if kind == 'comp':
            r = d.run('cg-comp', ['g.cg3', 'g.out'], '', 6000, under=un)
        else:
            r = d.run('vislcg3', ['-g', 'g.cg3', '--grammar-only', '--grammar-bin' if kind == 'bin' else '--grammar-out', 'g.out'], '', 6000, under=un)
        outs.append((r.rc, d.read('g.out') if d.exists('g.out') else b''))
        d.unlink('g.out')
        if outs[0][0] != 0:
            raise Discard('not written')
    if outs[0] != outs[1]:
        a, b = outs[0][1], outs[1][1]
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation('%s with %r: byte %d of the grammar differs (%r, %r)' % (kind, un, i, a[max(0, i - 20):i + 20], b[max(0, i - 20):i + 20]), 'differs', case(gt, '', [kind]))
    return Info(True, gt, [kind] + l, {'grammar': gt})


# Earlier windows

def closed(src, cfg, **kw):
    """A stream whose last window is complete."""
    # (a number that is missing makes the next window with it part of this one)
    t = rich.stream(src, cfg, holes=0, **kw)
    return t + '"<.>"\n\t"." CLB%s\n' % (' #1->0' if '->' in t else '')


def past(src, env):
    """What came before a FLUSH, or a window that nothing looks out of, has no influence on what comes after."""
    cfg = rich.config(src, maxcoh=4, numeric=src.c([0, 0, 0, 50]))
    flush = src.p(50)
    deps = src.p(30)
    kw = dict(deps=25 if deps else 0, rels=0, subs=20, unif=15, vstr=15, jump=8)
    if not flush:
        kw.update(spans=0, vars=0)
    if deps:
        kw['delimit'] = 0
        cfg.empty = 0
    R = rich.Rich(src, cfg, **kw)
    g = R.grammar(7, 85)
    labels = C05.extras(src, g, R, cfg)
    gt = g.text()
    if 'RELATION' in gt or 'ID:' in gt or re.search(r'MERGECOHORTS|r:', gt):
        raise Discard('cohorts are numbered through the stream')
    if not flush and (re.search(r'VARIABLE|VAR:|DELIMIT |IGNORED', gt) or re.search(r'[\s(][-*@0-9A-Za-z]+[<>W][-<>A-Za-z/0-9*]*\s', ''.join(l for l in gt.split('\n') if not l.startswith('DELIM')))):
        raise Discard('looks at other windows')
    a = closed(src, cfg, deps=40 if deps else 0, text=4, cmds=5 if flush else 0)
    b = closed(src, cfg, deps=40 if deps else 0, text=4, cmds=5 if flush else 0)
    if deps or re.search(r'SETPARENT|SETCHILD|REMPARENT|SWITCHPARENT|SPLITCOHORT', gt):
        # (from the first dependency on all cohorts are printed with theirs)
        a, b = ['"<d>"\n\t"d" N #1->0\n"<.>"\n\t"." CLB #2->1\n' + x for x in (a, b)]
    cut = '<STREAMCMD:FLUSH>\n' if flush else ''
    args = ['--max-runs', '3'] + src.c([[], [], ['--split-mappings'], ['--num-windows', '0'], ['--trace'], ['--num-windows', '4'], ['--soft-limit', '3', '--hard-limit', '5']])
    p, oa = C05.base(env, gt, a + cut, args)
    p, ob = C05.base(env, gt, b, args)
    p, oab = C05.base(env, gt, a + cut + b, args)
    if re.search(r'#\d{4,}->', oab):
        raise Discard('a dependency between windows: cohorts are numbered through the stream')
    if oab != oa + ob:
        x, y = (oa + ob).split('\n'), oab.split('\n')
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        raise Violation('after %s: line %d is %r, alone it is %r' % ('FLUSH' if flush else 'other windows', i + 1, y[i:i + 1], x[i:i + 1]), 'differs', case(gt, a + cut + b, args))
    return Info(ob != b, gt + a + b, labels + ['flush' if flush else 'windows'] + (['deps'] if deps else []), {'grammar': gt, 'input': a + cut + b, 'options': args})


SUBS = [
    Sub('again', again, 1300, 40000, 'the grammar changed the stream'),
    Sub('formats', formats, 1300, 30000, 'something was converted'),
    Sub('grammars', grams, 500, 12000, 'the grammar was written both times'),
    Sub('past', past, 2500, 40000, 'the grammar changed the second part of the stream'),
]
