"""C16: options that choose rules, sections and passes, and where options come from."""
import copy
import re
from vlib import gen, rich
from vlib.gr import Rule, L
from vlib.common import must, case
from vlib.pbt import Sub, Violation, Discard, Info
from checks.C05 import Raw, base, differ

TECHNIQUE = 'property-based testing: metamorphic - the output under a selection of rules is compared with the output of the grammar written without the other rules, the output under a bound on passes with the passes written out, and the output of options from several sources with the same options on the command line'
NOTE = 'A section whose rules are all left out stays as a section. Grammars whose runs take over two seconds are left out.'

NEVER = ['REMOVE (nvr)']
FLAGS = ['SETPARENT (nvr) TO (1 (nvr))', 'ADDRELATION (nvr) (nvr) TO (1 (nvr))', 'PROTECT (nvr)', 'SELECT (nvr) IF (B (nvr))', 'SELECT (nvr) IF (r:x (nvr))']


def make(src, **kw):
    cfg = rich.config(src, maxcoh=4, numeric=src.c([0, 0, 0, 50]))
    d = dict(jump=10, loops=10, rels=12, deps=15, subs=15)
    d.update(kw)
    R = rich.Rich(src, cfg, **d)
    g = R.grammar(9, 90)
    for s in g.sections:
        if src.p(40):
            s[:] = s + [R.rule() for _ in src.many(0, 3, 60)]
    text = rich.stream(src, cfg, deps=30, rels=20, text=5, cmds=4)
    # what rules turn on for the whole grammar stays on
    g.null = [Raw(x + ' ;') for x in FLAGS]
    return g, text, cfg, R


def lines(g):
    """Text; rule -> line."""
    t = g.text()
    add = len(g.templates)
    out = {}
    for r in g.rules():
        if getattr(r, 'line', None) is None:
            continue
    ls = t.split('\n')

    def walk(rs):
        for r in rs:
            ln = r.line + add
            if not isinstance(r, Raw) and ls[ln - 1].strip() != r.text().split('\n')[0].strip():
                raise RuntimeError('lines: %r %r' % (ls[ln - 1], r.text()))
            out[id(r)] = r.at = ln
            if r.rules:
                for k, x in enumerate(r.rules):
                    # chosen together with the WITH they are in
                        out[id(x)] = x.at = ln
    for rs in [g.before] + g.sections + [g.after]:
        walk(rs)
    return t, out


def without(g, keep, hold=True):
    """The grammar with the rules keep() is false of left out."""
    g = copy.copy(g)
    n = 0

    def pick(rs, hold=False):
        nonlocal n
        out = []
        hold = hold and rs
        for r in rs:
            if not keep(r):
                n += 1
                continue
            if r.rules:
                sub = [x for x in r.rules if keep(x)]
                if len(sub) != len(r.rules):    # by type or name
                    n += len(r.rules) - len(sub)
                    if not sub:
                        sub = [Raw(NEVER[0] + ' ;')]
                    r = copy.copy(r)
                    r.rules = sub
            out.append(r)
        if hold and not out:
            out.append(Raw(NEVER[0] + ' ;'))
        return out
    g.before, g.after = pick(g.before), pick(g.after)
    g.sections = [pick(s, hold) for s in g.sections]
    return g, n


def ranges(src, picked, hi):
    """Numbers as a list of ranges."""
    out = []
    ns = sorted(picked)
    i = 0
    while i < len(ns):
        j = i
        while j + 1 < len(ns) and ns[j + 1] == ns[j] + 1 and src.p(80):
            j += 1
        out.append('%d-%d' % (ns[i], ns[j]) if j > i or src.p(20) else str(ns[i]))
        i = j + 1
    if len(out) == 1 and '-' not in out[0]:
        out = ['%s-%s' % (out[0], out[0])]
    return out


def selection(src, env):
    g, text, cfg, R = make(src)
    rules = [r for r in g.rules() if not isinstance(r, Raw)]
    if src.p(50):
        for r in rules:
            if src.p(40):
                r.name = src.c(['first', 'se', 'se:2', 'Ærø', 'third'][:3] + ['x-1', 'first'])
    gt, at = lines(g)
    sel = []        # predicates
    names = None
    args = []
    labels = []
    g0 = g
    base_args = ['--max-runs', str(src.c([2, 1, 3]))] + (['--split-mappings'] if src.p(50) else [])
    kinds = src.sub(['sections', 'rules', 'rule', 'names', 'nosec', 'notype'], 1, 3)
    if 'rules' in kinds and 'rule' in kinds:
        kinds.remove('rule')
    for k in kinds:
        if k == 'sections':
            ns = len(g.sections)
            if ns == 0:
                continue
            if src.p(40):
                n = src.r(1, ns)
                args += ['--sections', str(n)]
                picked = list(range(1, n + 1))
            else:
                picked = src.sub(list(range(1, ns + 1)), 1, ns)
                args += ['--sections', ','.join(ranges(src, picked, ns))]
            g0 = copy.copy(g0)
            g0.sections = [s for i, s in enumerate(g0.sections) if i + 1 in picked]
        elif k == 'rules':
            ls = sorted(set(at.values()))
            if not ls:
                raise Discard('no rules')
            if src.p(25):
                n = src.c(ls)
                picked = set(range(1, n + 1))
                args += ['--rules', str(n)]
            else:
                picked = set(src.sub(ls, 1, len(ls)))
                rs = ranges(src, picked, ls[-1])
                if src.p(30):
                    rs = src.perm(rs)
                args += ['--rules', ','.join(rs)]
            sel.append(lambda r, p=picked: r.at in p)
        elif k == 'rule':
            if not rules:
                raise Discard('no rules')
            r = src.c(rules)
            if id(r) not in at:
                raise Discard('null')
            if r.name and src.p(70):
                same = [x for rs in [g.before] + g.sections + [g.after] for x in rs if x.name == r.name]
                if not same:
                    raise Discard('a rule inside of WITH')
                args += ['--rule', r.name]
                sel.append(lambda r, p=[x.at for x in same]: r.at in p)
                labels.append('by name')
            else:
                args += ['--rule', str(at[id(r)])]
                sel.append(lambda x, p=r.at: x.at == p)
        elif k == 'names':
            rx = src.c(['se', '^first$', 'se|rst', '^f', '[0-9]', 'x-', ''])
            inv = src.p(50)
            args += ['--nrules-v' if inv else '--nrules', rx] if rx else []
            if rx:
                names = (lambda r, rx=rx, inv=inv: bool(re.search(rx, r.name or '')) != inv)
        elif k == 'nosec':
            for s in src.sub(['before', '', 'after'], 1, 2):
                args.append('--no-%ssections' % (s + '-' if s else ''))
                if s == 'before':
                    no = g.before
                elif s == 'after':
                    no = g.after
                else:
                    no = [r for x in g.sections for r in x]
                ids = {id(r) for r in no}
                sel.append(lambda r, ids=ids: id(r) not in ids)
        else:
            for s in src.sub(['mappings', 'corrections'], 1, 2):
                args.append('--no-' + s)
                ty = ('MAP', 'ADD', 'REPLACE') if s == 'mappings' else ('SUBSTITUTE', 'APPEND')
                sel.append(lambda r, ty=ty: r.type not in ty)
        labels.append(k)
    if not args:
        raise Discard('nothing')
    if any(r.type == 'JUMP' for r in rules) and any(r.name for r in rules) and kinds != ['sections']:
        raise Discard('names are anchors')
    if names:
        # never read at all
        g0, n = without(g0, lambda r: isinstance(r, Raw) or names(r), 'sections' in labels)
    g2, n = without(g0, lambda r: isinstance(r, Raw) or all(f(r) for f in sel))
    # what does not run stays out entirely, what runs is a section for each section
    if '--no-sections' in args:
        g2.sections = []
    g2t = g2.text()
    p, want = base(env, g2t, text, base_args)
    d = env.d
    q = d.write('h.cg3', gt)
    a = args + base_args
    r = d.run('vislcg3', ['-g', q] + a, text, 12000)
    if r.rc:
        must(r, 'vislcg3 with a selection of rules', gt + '--- written out\n' + g2t, text, a)
    out = r.out.decode('utf8', 'replace')
    differ(want, out, 'run with %s' % ' '.join(args), gt, text, a, '--- written out\n' + g2t)
    r = d.run('vislcg3', ['-g', q] + base_args, text, 2000)
    full = r.out.decode('utf8', 'replace') if r.rc == 0 else None
    return Info(out != full and out.strip() != text.strip(), gt + text + repr(a), labels, {'grammar': gt, 'options': a})


def passes(src, env):
    """--max-runs N is N copies of the rules of a section and the ones before it, each run once."""
    n = src.w([(3, 1), (3, 2), (2, 3), (1, 4)])
    g, text, cfg, R = make(src, jump=0, loops=4, delimit=0, **({} if n == 1 else dict(edit=0, deps=0, rels=0, move=0, vars=0, withs=0, unif=0, vstr=0)))
    if n > 1:
        for s in g.sections:
            s[:] = [r for r in s if isinstance(r, Raw) or r.type in ('SELECT', 'REMOVE', 'IFF', 'REMCOHORT')]
        g.sections = [s for s in g.sections if s]
    g.before = []
    if not g.sections or any(r.type in ('DELIMIT', 'JUMP', 'EXTERNAL', 'MOVE', 'SWITCH', 'COPYCOHORT') for r in g.rules()):
        raise Discard('not for this')
    if n > 1:
        for s in g.sections:
            for r in s:
                # all of them ask for another pass when they have done something
                if isinstance(r, Raw):
                    continue
                r.flags = [f for f in r.flags if f not in ('NOITERATE', 'ITERATE')]
                if r.type not in ('SELECT', 'REMOVE', 'IFF', 'REMCOHORT'):
                    raise Discard('not iterated')
    g2 = copy.copy(g)
    g2.before, g2.sections = [], []
    acc = []
    for s in g.sections:
        acc = acc + s
        for _ in range(n):
            g2.before = g2.before + acc
    if len(g2.before) > 60:
        raise Discard('long')
    ba = ['--split-mappings'] if src.p(50) else []
    g2t = g2.text()
    gt = g.text()
    p, want = base(env, g2t, text, ba)
    a = (['--single-run'] if n == 1 and src.p(50) else ['--max-runs', str(n)]) + ba
    d = env.d
    q = d.write('h.cg3', gt)
    r = d.run('vislcg3', ['-g', q] + a, text, 12000)
    if r.rc:
        must(r, 'vislcg3 with a bound on passes', gt + '--- written out\n' + g2t, text, a)
    out = r.out.decode('utf8', 'replace')
    differ(want, out, 'run with %s' % ' '.join(a), gt, text, a, '--- written out\n' + g2t)
    r = d.run('vislcg3', ['-g', q, '--max-runs', str(n + 1)] + ba, text, 3000)
    more = r.out.decode('utf8', 'replace') if r.rc == 0 else None
    return Info(out.strip() != text.strip(), gt + text + repr(a), ['more passes do more' if more != out else 'settled', '%d passes' % n, '%d sections' % len(g.sections)], {'grammar': gt, 'options': a})


def words(kv):
    out = []
    for k, v in kv:
        out.append('--' + k)
        if v is not None:
            out.append(v)
    return out


def precedence(src, env):
    g, text, cfg, R = make(src, jump=0)
    for r in g.rules():
        if not isinstance(r, Raw) and src.p(30):
            r.name = src.c(['first', 'se', 'x-1'])
    g.header = ''
    gt, at = lines(g)
    vals = {
        'sections': ['1', '2', '1-2', '2-2'],
        'max-runs': ['1', '2', '3', '4'],
        'num-windows': ['0', '1', '2', '3'],
        'no-mappings': [None], 'no-corrections': [None], 'no-before-sections': [None], 'no-sections': [None], 'no-after-sections': [None],
        'single-run': [None], 'split-mappings': [None], 'unsafe': [None], 'trace': [None], 'trace-name-only': [None], 'trace-no-removed': [None], 'print-ids': [None],
        'always-span': [None], 'no-pass-origin': [None], 'dep-absolute': [None], 'dep-allow-loops': [None], 'dep-no-crossing': [None], 'no-magic-readings': [None], 'show-end-tags': [None], 'dry-run': [None],
        'print-dep': [None], 'unique-tags': [None], 'unicode-tags': [None], 'soft-limit': ['2', '3', '300'], 'hard-limit': ['3', '5', '500'], 'dep-delimit': ['2', '5'], 'rule': ['first', 'se', 'x-1', '8'], 'deleted': [None],
    }
    places = ['cmdargs', 'default', 'cli', 'cmdover', 'envover']
    names = src.sub(list(vals), 1, 4)
    if 'single-run' in names and 'max-runs' in names:
        names.remove('single-run')
    src_of = {p: [] for p in places}
    eff = {}
    for k in names:
        ps = src.sub(places, 1, 3)
        for p in places:
            if p in ps:
                v = src.c(vals[k])
                src_of[p].append((k, v))
                eff[k] = v
    if 'max-runs' not in eff and 'single-run' not in eff:
        src_of['cli'].append(('max-runs', '2'))
        eff['max-runs'] = '2'
    if eff.get('rule') in ('first', 'se', 'x-1') and not any(getattr(r, 'name', None) == eff['rule'] for r in g.rules()):
        pass        # then none runs
    if 'dep-delimit' in eff and '#' in text:
        raise Discard('windows by dependency')
    p, want = base(env, gt, text, words(sorted(eff.items())))
    hdr = ''
    quote = lambda w: ' '.join(('"%s"' % x if src.p(20) and not x.startswith('-') else x) for x in w)
    for p, n in (('cmdargs', 'CMDARGS'), ('cmdover', 'CMDARGS-OVERRIDE')):
        if src_of[p]:
            kv = src_of[p]
            if len(kv) > 1 and src.p(40):
                hdr += '%s += %s ; ' % (n, quote(words(kv[:1])))
                kv = kv[1:]
            hdr += '%s += %s ; ' % (n, quote(words(kv)))
    # on the line of the delimiters, so that no rule moves
    gt2 = hdr + gt
    under = []
    for p, n in (('default', 'CG3_DEFAULT'), ('envover', 'CG3_OVERRIDE')):
        if src_of[p]:
            under.append('env=%s=%s' % (n, src.c(['', ' ']) + quote(words(src_of[p])) + src.c(['', ' '])))
    d = env.d
    q = d.write('h.cg3', gt2)
    bin = src.p(15)
    if bin:
        r = d.run('vislcg3', ['-g', q, '--grammar-only', '--grammar-bin', 'h.bin'], '', 9000)
        must(r, 'writing the grammar', gt2, '', [])
        q = 'h.bin'
    a = words(src_of['cli'])
    r = d.run('vislcg3', ['-g', q] + a, text, 12000, under=under)
    more = '--- environment %s\n' % under
    if r.rc:
        must(r, 'vislcg3 with options from several places', gt2 + more, text, a)
    out = r.out.decode('utf8', 'replace')
    differ(want, out, 'run with options %s, which come to %s' % ({k: v for k, v in src_of.items() if v}, words(sorted(eff.items()))), gt2, text, a, more)
    r = d.run('vislcg3', ['-g', 'h.cg3' if bin else q, '--max-runs', '2'], text, 2000)
    many = [k for k in eff if sum(any(x == k for x, _ in v) for v in src_of.values()) > 1]
    return Info(any(len(set(v for vs in src_of.values() for x, v in vs if x == k)) > 1 for k in many) or bool([p for p in places if src_of[p] and p != 'cli']), gt2 + text + repr((a, under)), [p for p in places if src_of[p]] + (['contradicting'] if many else []) + (['binary'] if bin else []),
                {'header': hdr, 'environment': under, 'options': a, 'effective': words(sorted(eff.items()))})


SUBS = [
    Sub('selection', selection, 3000, 120000, 'the selection changed the output and rules still did something'),
    Sub('passes', passes, 1500, 60000, 'the rules changed the stream'),
    Sub('precedence', precedence, 2000, 80000, 'options came from elsewhere than the command line'),
]
