"""Binary and JSON-lines streams against the CG format."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib import gen, rich
from vlib.common import case
from checks import C06

TECHNIQUE = "property-based testing: round trips of generated streams through cg-conv, and differential runs of generated grammars over the formats"
NOTE = "random streams and grammars"


def lines(b):
    out = []
    for l in b.decode('utf8', 'replace').split('\n'):
        l = l.rstrip(' \t\r')
        if l.strip():
            out.append(l)
    return out


def canon(ls, loose=False):
    """Dependencies and relations last, cohorts numbered from one. With loose, the order of mapped tags doesn't matter."""
    out, ids, k = [], {}, 0
    run, last, runs = {}, 0, []
    for l in ls:
        if l.startswith('"<'):
            k += 1
        tg, deps, rels = l, [], []
        if l.startswith(('\t', ';')):
            tg = []
            for t in l.split(' '):
                m = re.match(r'ID:(\d+)$', t)
                if m:
                    ids.setdefault(m[1], k)
                    rels.append(('ID', m[1], ''))
                    continue
                m = re.match(r'R:(.+):(\d+)$', t)
                if m:
                    rels.append(('R', m[2], m[1]))
                    continue
                m = re.match(r'#(\d+)->(\d+)$', t)
                if m and loose:
                    a, b = int(m[1]), int(m[2])
                    if run.get(a) != k:
                        if a <= last:
                            run = {}
                        last = a
                        run[a] = k
                    if a != b and loose == 'deps':
                        deps.append((run, b))
                elif m:
                    deps.append(t)
                else:
                    tg.append(t)
            if loose:
                # (readings with the same set of tags are merged, whatever their order)
                tg = tg[:1] + sorted(set(tg[1:]), key=lambda t: (t.startswith('@'), t))
            tg = ' '.join(tg)
        out.append((tg, deps, rels))
    def dep(t):
        return t if isinstance(t, str) else '->%s' % (t[0].get(t[1], '?') if t[1] else 'root')
    return [tg + ''.join(' ' + dep(t) for t in deps) + ''.join(sorted(' %s:%s%s' % (a, c + ':' if c else '', ids.get(b, '?')) for a, b, c in rels if b in ids)) for tg, deps, rels in out]


def conv(env, data, args, text):
    r = env.d.run('cg-conv', args, data)
    if r.rc != 0:
        raise Violation('cg-conv %s ended with status %d' % (' '.join(args), r.rc), 'status', case('', text, args) + '--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
    return r.out


def blocks(ls):
    """The readings of each cohort in a fixed order, each with its sub-readings.

    Readings which differ in mapped tags only are put together: whether they are merged in output depends on the
    dependency and relation tags they had, which other formats don't keep as tags.
    """
    out, rs = [], []
    for l in ls + ['']:
        if l.startswith('\t\t') and rs:
            rs[-1].append(l)
        elif l.startswith('\t'):
            rs.append([l])
        else:
            by = {}
            for r in rs:
                w = r[0].split(' ')
                k = tuple([' '.join(t for t in w if not t.startswith('@'))] + r[1:])
                by.setdefault(k, set()).update(t for t in w if t.startswith('@'))
            out += [x for k in sorted(by) for x in [' '.join([k[0]] + sorted(by[k]))] + list(k[1:])] + [l]
            rs = []
    return out[:-1]


def differ(a, b, what, text, more='', loose=False):
    a, b = canon(a, loose), canon(b, loose)
    if loose:
        a, b = blocks(a), blocks(b)
    if a == b:
        return
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    raise Violation('%s: line %d is %r, should be %r' % (what, i + 1, b[i] if i < len(b) else None, a[i] if i < len(a) else None), 'lost', more + '--- input\n' + text + '--- should be\n' + '\n'.join(a) + '\n--- is\n' + '\n'.join(b) + '\n')


def relations(src, s):
    """Gives cohorts numbers and relations to each other."""
    at = [i for i, l in enumerate(s.lines) if l.startswith('"<') and l not in C06.TX]
    ids = [src.r(1, 9) * 100 + k for k in range(len(at))]
    has = [i + 1 < len(s.lines) and s.lines[i + 1].startswith('\t') and src.p(60) for i in at]
    sent, n = [], 0
    for i in at:
        sent.append(n)
        n += s.lines[i].startswith('"<.>"')
    add, cur = {}, -1
    for k, i in enumerate(at):
        if has[k]:
            add[k] = ' ID:%d' % ids[k]
            # (only the windows around are kept in mind)
            near = [j for j in range(max(0, k - 4), min(len(at), k + 5)) if has[j] and sent[j] == sent[k]]
            for _ in src.many(0, 2, 50):
                r = ' R:%s:%d' % (src.c(['r1', 'r2', 'dis-x']), ids[src.c(near)])
                if r not in add[k]:
                    add[k] += r
    for i, l in enumerate(s.lines):
        if i in at:
            cur += 1
        elif l.startswith('\t') and cur in add:
            s.lines[i] = l + add[cur]
    s.labels.add('relations')


def variables(src, s):
    out = []
    for l in s.lines:
        if l.startswith('"<') and src.p(15) and any(x.startswith('"<') and '>"' in x for x in out):
            for _ in src.many(1, 2, 30):
                out.append(src.c(['<STREAMCMD:SETVAR:%s>', '<STREAMCMD:SETVAR:%s=v1>', '<STREAMCMD:SETVAR:%s=æ 1>' if 0 else '<STREAMCMD:SETVAR:%s=v2>', '<STREAMCMD:REMVAR:%s>']) % src.c(['x1', 'x2', 'long-name']))
        out.append(l)
    s.lines[:] = out
    s.labels.add('variables')


def convert(src, env):
    cfg = dict(text=src.c([0, 15, 40]), cmds=src.c([0, 0, 15]), deps=src.p(40), empty=src.p(15), rels=0, long=src.c([0, 0, 2]))
    if cfg['deps']:
        cfg['empty'] = False
    s = C06.stream(src, cfg)
    if src.p(25):
        relations(src, s)
    if src.p(25):
        variables(src, s)
    text = '\n'.join(s.lines) + '\n'
    fmt = src.c(['jsonl', 'binary'])
    I, O = ('-j', '-J') if fmt == 'jsonl' else ('-z', '-Z')
    d = ['-D'] if src.p(60 if cfg['deps'] else 10) else []
    a = lines(conv(env, text, ['-c', '-C'] + d, text))
    x = conv(env, text, ['-c', O] + d, text)
    b = lines(conv(env, x, [I, '-C'] + d, text))
    differ(a, b, 'through ' + fmt, text)
    x2 = conv(env, x, [I, O] + d, text)
    c = lines(conv(env, x2, [I, '-C'] + d, text))
    differ(a, c, 'twice through ' + fmt, text)
    return Info(s.ncoh > 1, fmt + text, sorted(s.labels) + [fmt], text[:600])



def rules(src, env):
    """The same grammar over the same stream in other clothes."""
    cfg = rich.config(src)
    deps, rels = src.p(45), src.p(35)
    R = rich.Rich(src, cfg, deps=30 if deps else 0, rels=25 if rels else 0, bag=0, **({'delimit': 0} if deps else {}))
    g = R.grammar(8, 85)
    gt = g.text()
    fmt = src.c(['jsonl', 'binary'])
    side = src.c(['in', 'out', 'both'])
    if fmt == 'jsonl' and rels:
        # (the format has no place for relations)
        raise Discard()
    # makes sure that what the stream has is parsed
    if deps:
        gt += '\nSETPARENT:dep ("<no such word>") TO (0 ("<no such word>")) ;\n'
    if rels:
        gt += '\nADDRELATION:rel (none) ("<no such word>") TO (0 ("<no such word>")) ;\n'
    # (variables that are set in the last window come in a window of their own in binary, which tests that span windows can see)
    cmds = 0 if deps or fmt == 'binary' and side != 'out' else src.c([0, 0, 6])
    text = rich.stream(src, cfg, deps=70 if deps else 0, rels=70 if rels else 0, text=src.c([0, 0, 10]), cmds=cmds, holes=0)
    if any(l.startswith((';', '\tfloat')) for l in text.split('\n')):
        raise Discard()
    ls = text.split('\n')
    if deps and any(a.startswith('"<') and not b.startswith('\t') for a, b in zip(ls, ls[1:])):
        # (a cohort without readings has no number, so that the others' numbers don't mean what they seem to)
        raise Discard()
    d = env.d
    p = d.write('g.cg3', gt)
    args = src.sub(['--no-mappings', '--unsafe', '--no-magic-readings', '--always-span', '--max-runs', '--dry-run'], 0, 1) if src.p(30) else []
    if '--max-runs' in args:
        args.append('1')
    def run(data, more):
        r = d.run('vislcg3', ['-g', p] + args + more, data)
        if r.rc == -1000:
            raise Discard()
        if r.rc != 0:
            raise Violation('vislcg3 %s ended with status %d' % (' '.join(more), r.rc), 'status', case(gt, text, args + more) + '--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
        return r.out
    direct = run(text, [])
    a = lines(direct)
    I, O = ('-j', '-J') if fmt == 'jsonl' else ('-z', '-Z')
    D = ['-D'] if deps else []
    data = text
    if side != 'out':
        # Binary streams are already divided into windows: they are made by a grammar with the same delimiters and no rules.
        h = '\n'.join(l for l in gt.split('\n') if re.match(r'(SOFT-)?DELIMITERS|MAPPING-PREFIX', l))
        if deps:
            h += '\nSETPARENT:dep ("<no such word>") TO (0 ("<no such word>")) ;\n'
        if rels:
            h += '\nADDRELATION:rel (none) ("<no such word>") TO (0 ("<no such word>")) ;\n'
        q = d.write('h.cg3', h)
        r = d.run('vislcg3', ['-g', q, '--out-' + fmt], text)
        if r.rc != 0:
            raise Violation('vislcg3 --out-%s ended with status %d' % (fmt, r.rc), 'status', case(h, text, []) + '--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
        data = r.out
    out = run(data, ([] if side == 'out' else ['--in-' + fmt]) + ([] if side == 'in' else ['--out-' + fmt]))
    b = lines(out if side == 'in' or not out.strip() else conv(env, out, [I, '-C'] + D, text))
    if deps and any(x.startswith('"<') and not y.startswith(('\t', ';')) for x, y in zip(a, a[1:] + [''])):
        # (no number in the output)
        raise Discard()
    if fmt == 'jsonl' and side != 'in' and direct.strip():
        # cg-conv sees one large window
        a = lines(conv(env, direct, ['-c', '-C'] + D, text))
    # (JSONL carries deleted readings, too)
    a = [l for l in a if not l.startswith(';')]
    b = [l for l in b if not l.startswith(';')]
    differ(a, b, fmt + ' ' + side, text, '--- grammar\n' + gt + '--- options %s\n' % ' '.join(args), 'deps' if deps and '->' in text else 'loose')
    return Info(lines(text.encode()) != lines(direct), gt + text + fmt + side, [fmt + ' ' + side] + (['dependencies'] if deps else []) + (['relations'] if rels else []), {'grammar': gt, 'input': text})


SUBS = [
    Sub("rules", rules, 3000, 300000, "the rules changed something", timeout_ms=3000),
    Sub("convert", convert, 4000, 300000, "the stream has two cohorts or more"),
]
