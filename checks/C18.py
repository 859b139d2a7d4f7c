"""C18: the library against the command line."""
import re
from vlib import gen, rich
from vlib.common import must, case
from vlib.pbt import Sub, Violation, Discard, Info
from checks.C05 import Raw, base

TECHNIQUE = 'property-based testing: generated sequences of library calls (several sentences, applicators and grammars, interleaved) are run by an interpreter linked to the library; what the calls give back is compared with a run of vislcg3 on the equivalent stream, one sentence at a time'
NOTE = 'Static tags, relations and delayed readings have no library calls. Exploration only.'

FLAGS = [(2, '--unsafe'), (4, '--no-mappings'), (8, '--no-corrections'), (16, '--no-before-sections'), (32, '--no-sections'), (64, '--no-after-sections'), (256, '--single-run'), (512, '--always-span'),
         (1024, '--dep-allow-loops'), (2048, '--dep-no-crossing'), (8192, '--no-pass-origin')]
TRACE = 128
ENC = ['8', '16', '32', 'w']
ODD = ['é', '☃', '😀x', 'x😀', 'a b', '$', '%s', 'Ω-ß', '\u200d', '𝒳', '\u0301x', 'a"b', '<t>']
MARK = re.compile(r'^([A-Z]+[A-Z-]*)(\([^ ]*\))?:(\d+)(:.*)?$')


class Sent:
    """One sentence and the calls that build it."""
    def __init__(self, n, cohorts, deps):
        self.n, self.cohorts, self.deps = n, cohorts, deps

    def text(self):
        out = []
        for i, (wf, st, rds) in enumerate(self.cohorts):
            out.append(wf)
            for ch in rds:
                for k, (b, ts) in enumerate(ch):
                    d = ['#%d->%d' % (i + 1, self.deps[i])] if self.deps and k == 0 else []
                    out.append('\t' * (k + 1) + ' '.join([b] + ts + d))
        return '\n'.join(out) + '\n'

    def calls(self, src, app):
        """In one of the orders that are possible."""
        s = 's%d' % self.n
        out = ['sent\t%s\t%s' % (s, app)]
        late = src.p(20)
        add = []
        for i, (wf, st, rds) in enumerate(self.cohorts):
            c = '%sc%d' % (s, i)
            out.append('coh\t%s\t%s\t%s\t%s\t%s' % (c, s, app, src.c(ENC), wf))
            if self.deps:
                out.append('dep\t%s\t%d\t%d' % (c, i + 1, self.deps[i]))
            early = src.p(15)
            if early and not late:
                out.append('addcoh\t%s\t%s' % (s, c))
            for j, ch in enumerate(rds):
                r = '%sr%d' % (c, j)
                out.append('rd\t%s\t%s' % (r, c))
                back = src.p(30)
                sub = []
                for k, (b, ts) in enumerate(ch):
                    q = r if k == 0 else '%su%d' % (r, k)
                    if k:
                        sub.append('sub\t%s\t%s' % (q, r))
                    tags = [b] + ts + (['<<<'] if i == len(self.cohorts) - 1 and not k else [])
                    for t in tags:
                        sub.append('tag\t%s\t%s\t%s\t%s' % (q, app, src.c(ENC), t))
                    if k:
                        sub.append('setsub\t%s\t%s' % (r if k == 1 else '%su%d' % (r, k - 1), q))
                if back:
                    out.append('addrd\t%s\t%s' % (c, r))
                    out += sub
                else:
                    out += sub
                    out.append('addrd\t%s\t%s' % (c, r))
            if late:
                add.append('addcoh\t%s\t%s' % (s, c))
            elif not early:
                out.append('addcoh\t%s\t%s' % (s, c))
        return out + add


def dumped(text):
    """Dumps by label: [(wf, id, dep, [reading], [deleted])]; a reading is a list of (tags, traces)."""
    out, cur = {}, None
    for line in text.split('\n'):
        f = line.split('\t')
        if f[0] == 'dump':
            cur = out.setdefault(f[1], [])
        elif f[0] == 'C':
            cur.append((f[1], int(f[2]), (int(f[3]), int(f[4])), [], []))
        elif f[0] in 'RDS' and f[0]:
            tags = [t for t in f[1:] if t not in ('<<<', '>>>')]
            if f[0] == 'S':
                dest[-1].append((tags, []))
            else:
                dest = cur[-1][3 if f[0] == 'R' else 4]
                dest.append([(tags, [])])
        elif f[0] == 'T':
            dest[-1][-1][1].extend(int(x) for x in f[1:])
    return out


def printed(text):
    out = []
    for line in text.split('\n'):
        if line.startswith('"<'):
            out.append((line, [], []))
            continue
        gone = line.startswith(';')
        body = line[1:] if gone else line
        if not line:
            continue
        if not body.startswith('\t') or not out:
            raise Discard()
        lvl = len(body) - len(body.lstrip('\t'))
        tags, marks, dep = [], [], None
        for t in body.strip('\t').split(' '):
            m = MARK.match(t)
            if m:
                marks.append(int(m.group(3)))
            elif re.match(r'#\d+->\d+$', t):
                dep = int(t.split('>')[1])
            else:
                tags.append(t)
        dest = out[-1][2 if gone else 1]
        if lvl == 1:
            dest.append([(tags, marks, dep)])
        else:
            dest[-1].append((tags, marks, dep))
    return out


def is_base(t):
    return len(t) > 1 and t[0] == t[-1] == '"'


def shape(reading, traces):
    """The reading without its base forms, and those. The library lists the tags as they are kept, the command line the base form first, and no second time."""
    out, bases = [], []
    for part in reading:
        tags = [t for t in part[0] if not is_base(t)]
        bases.append(list(dict.fromkeys(t for t in part[0] if is_base(t))))
        out.append(([t for t in tags if t[0] != '@'] + [t for t in tags if t[0] == '@'], [m for i, m in enumerate(part[1]) if not i or part[1][i - 1] != m] if traces else []))
    return out, bases


def same(a, b):
    """a from the library, b printed"""
    return a[0] == b[0] and all(set(x) <= set(y) and set(y[1:]) <= set(x) for x, y in zip(a[1], b[1]))


def distinct(rs):
    out = []
    for shp, bases in rs:
        x = ([(t, []) for t, m in shp], bases)
        if x not in out:
            out.append(x)
    return out


def matched(a, b):
    if len(distinct(b)) < len(b):
        # of readings that are alike but for their history, splitting by mapping tags may leave fewer
        return matched(distinct(a), distinct(b))
    if len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
        return True
    rest = list(b)
    for x in a:
        k = next((k for k, y in enumerate(rest) if same(x, y)), None)
        if k is None:
            if x != ([([], x[0][0][1])], [[]]):
                return False
            continue  # nothing was left of it, and such are not printed
        del rest[k]
    return not rest


def compare(got, want, dep, traces, whole):
    if not got or got[0][0] != '">>>"' and got[0][0] != '>>>':
        raise Violation("the first cohort is %r and not the start of the sentence" % (got[:1],), "start", whole())
    got = got[1:]
    if len(got) != len(want):
        raise Violation("%d cohorts, the command line has %d" % (len(got), len(want)), "cohorts", whole())
    gid = {c[1]: i + 1 for i, c in enumerate(got)}
    for i, (c, w) in enumerate(zip(got, want)):
        if c[0] != w[0]:
            raise Violation("cohort %d: word form %r, the command line has %r" % (i + 1, c[0], w[0]), "wordform", whole())
        for k, what in ((3, 'readings'), (4, 'deleted readings')):
            a = [shape([([x for x in t if x != c[0]], m) for t, m in r], traces) for r in c[k]]
            b = [shape([([x for x in t if x != w[0]], m) for t, m, e in r], traces) for r in w[k - 2]]
            if k == 4 and not traces:
                continue
            if not matched(a, b):
                raise Violation("cohort %d: %s %r, the command line has %r" % (i + 1, what, a, b), "readings", whole())
            if any(c[0] not in r[0][0] for r in c[k]):
                raise Violation("cohort %d: %s without word form: %r" % (i + 1, what, c[k]), "readings", whole())
        if dep:
            d = w[1][0][0][2] if w[1] else None
            p = c[2][1]
            mine = 0 if p == 0 else i + 1 if p == 0xffffffff else gid.get(p)
            if d is not None and mine != d:
                raise Violation("cohort %d: parent %r (of %r), the command line has %r" % (i + 1, mine, c[2], d), "dependency", whole())


def sentences(src, env):
    d = env.d
    deps = src.p(40)
    cfg = rich.config(src, static=0, empty=0, maxwin=1, mapping=0, subs=src.c([0, 0, 25]), wfs=gen.WFS[:4], maxcoh=5)
    gs = []
    for k in range(src.w([(4, 1), (1, 2)])):
        R = rich.Rich(src, cfg, deps=30 if deps else 0, rels=0, vars=0, deleted=0, delimit=0, move=8, names=0, jump=3, flags=10)
        g = R.grammar(7, 85)
        if deps:
            g.null = [Raw('SETPARENT (nvr) TO (1 (nvr)) ;')]
        gt = g.text()
        if 'DELAYED' in gt or 'IGNORED' in gt or 'EXTERNAL' in gt or deps and re.search('COPYCOHORT|_SAME_BASIC_', gt):
            # the dependency written in a stream is also a tag of the reading
            raise Discard()
        gs.append(gt)
    prog, labels = [], set()
    for k, gt in enumerate(gs):
        p = d.write('g%d.cg3' % k, gt)
        if src.p(25):
            must(d.run('cg-comp', [p, d.path('g%d.bin' % k)], '', 4000), 'cg-comp', gt, '')
            prog.append('%s\tg%d\t%s' % (src.c(['grammar', 'grammarbuf']), k, d.path('g%d.bin' % k)))
        else:
            prog.append('%s\tg%d\t%s' % (src.c(['grammar', 'grammarbuf']), k, p))
    apps = []
    for k in range(src.w([(3, 1), (2, 2)])):
        gi = src.r(0, len(gs) - 1)
        fl = [f for f in FLAGS if src.p(8)]
        n = sum(f for f, _ in fl)
        tr = src.p(75)
        args = ['--split-mappings'] + [a for _, a in fl] + (['--trace'] if tr else [])
        prog.append('app\ta%d\tg%d' % (k, gi))
        if n or tr or src.p(30):
            prog.append('flags\ta%d\t%d' % (k, n + (TRACE if tr else 0)))
        if src.p(12):
            j = src.r(1, 2)
            if src.p(50):
                prog.append('sections\ta%d\t%d' % (k, j))
                args += ['--sections', '%d' % j]
            else:
                x = src.c(['1', '1-2', '2', '1,2', '1-'])
                prog.append('sectext\ta%d\t%s' % (k, x))
                args += ['--sections', x]
        apps.append((k, gi, args, tr))
    todo, wants, used = [], {}, set()
    for n in range(src.w([(3, 1), (3, 2), (2, 3), (1, 4)])):
        k, gi, args, tr = src.c(apps)
        if deps and k in used:
            continue  # numbers of tokens go on counting from sentence to sentence, so that those the caller gives are only meant for the first one of an applicator
        ws = gen.stream(src, cfg)
        cs = ws[0]
        if any(re.match(r'^#\d|^ID:|^R:|^\d', t) for w, s, rds in cs for ch in rds for b, ts in ch for t in ts):
            raise Discard()
        if src.p(30):
            for w, s, rds in cs:
                for ch in rds:
                    if src.p(30):
                        x = src.c(ODD)
                        if ' ' not in x and x[0] != '"':
                            ch[src.r(0, len(ch) - 1)][1].append(x)
        dp = [src.r(0, i) for i in range(len(cs))] if deps and src.p(80) else None
        used.add(k)
        s = Sent(n, cs, dp)
        calls = s.calls(src, 'a%d' % k)
        if src.p(20):
            calls.append('dump\ts%d\tin%d' % (n, n))
            wants['in%d' % n] = (s, None, None, False)
        copied = not dp and src.p(15)
        if copied:
            calls += ['copy\tt%d\ts%d\ta%d' % (n, n, k), 'dump\tt%d\tin%dt' % (n, n), 'run\ta%d\tt%d' % (k, n), 'dump\tt%d\tout%dt' % (n, n)]
            wants['in%dt' % n] = (s, None, None, False)
            wants['out%dt' % n] = (s, gi, args, tr)
            if src.p(50):
                calls.append('freesent\tt%d' % n)
            labels.add('copied')
        calls += ['run\ta%d\ts%d' % (k, n), 'dump\ts%d\tout%d' % (n, n)]
        wants['out%d' % n] = (s, gi, args, tr)
        if src.p(30):
            calls.append('dump\ts%d\tagain%d' % (n, n))
            wants['again%d' % n] = (s, gi, args, tr)
        if src.p(70):
            calls.append('freesent\ts%d' % n)
        todo.append(calls)
    if len(todo) > 1 and src.p(40):
        labels.add('interleaved')
        while any(todo):
            t = src.c([t for t in todo if t])
            m = src.r(1, 12)
            prog += t[:m]
            del t[:m]
    else:
        for t in todo:
            prog += t
    whole = lambda: ''.join('--- grammar %d\n%s' % (k, g) for k, g in enumerate(gs)) + '--- calls\n' + '\n'.join(prog) + '\n'
    # what the command line says
    ref = {}
    for lab, (s, gi, args, tr) in wants.items():
        if gi is None:
            ref[lab] = printed(s.text())
            continue
        r = d.run('vislcg3', ['-g', d.path('g%d.cg3' % gi)] + args, s.text(), 2000)
        if r.rc == -1000:
            raise Discard()
        ref[lab] = printed(must(r, 'vislcg3', gs[gi], s.text(), args))
        if any(not c[1] or len(c[1]) + len(c[2]) > 40 for c in ref[lab]):
            raise Discard()  # a cohort left without readings gets one that is not printed
    r = d.run('capi', [], '\n'.join(prog) + '\n', 8000)
    if r.rc != 0:
        raise Violation("the library calls ended with status %d" % r.rc, "status", whole() + '--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
    out = r.out.decode('utf8', 'replace')
    if 'DIFFERENT:' in out or 'refused' in out:
        raise Violation("tag text differs by encoding, or a tag was refused", "encoding", whole() + out)
    got = dumped(out)
    changed = False
    for lab, (s, gi, args, tr) in wants.items():
        if s.deps and gi is None:
            changed = changed
        w2 = lambda: whole() + '--- sentence\n%s--- vislcg3 %s\n%r\n--- %s\n%s' % (s.text(), args, ref[lab], lab, out.split('dump\t%s\n' % lab)[1].split('end\n')[0])
        compare(got.get(lab), ref[lab], bool(s.deps) and gi is not None, tr, w2)
        if gi is not None and [c[1] for c in ref[lab]] != [c[1] for c in printed(s.text())]:
            changed = True
    if deps:
        labels.add('deps')
    labels.add('%d sentences' % len(todo))
    return Info(changed, whole(), sorted(labels), {"grammar": gs[0], "calls": prog[:60], "output": out[:1500]})


def texts(src, env):
    """run_grammar_on_text_fns and _on_buffer, several times over one grammar."""
    d = env.d
    cfg = rich.config(src, maxcoh=4)
    R = rich.Rich(src, cfg, vars=0, names=0)
    g = R.grammar(7, 85)
    gt = g.text()
    if re.search(r'VARIABLE|EXTERNAL', gt):
        raise Discard()
    p = d.write('g.cg3', gt)
    prog = ['%s\tg\t%s' % (src.c(['grammar', 'grammarbuf']), p)]
    wants = []
    napp = 0
    for n in range(src.r(1, 3)):
        text = rich.stream(src, cfg, deps=30, rels=20, text=8, cmds=0)
        rv = d.run('vislcg3', ['-g', p], text, 2000)
        if rv.rc == -1000:
            raise Discard()
        must(rv, 'vislcg3', gt, text)
        i, o = d.write('in%d.txt' % n, text), d.path('out%d.txt' % n)
        d.unlink('out%d.txt' % n)
        prog.append('app\ta%d\tg' % n)
        want = rv.out
        if src.p(50):
            prog.append('fns\ta%d\t%s\t%s' % (n, i, o))
        else:
            cap = len(want) + 10
            if src.p(15):
                cap = src.r(0, len(want))
                want = want[:cap]
            prog.append('buf\ta%d\t%s\t%s\t%d' % (n, i, o, cap))
        if src.p(50):
            prog.append('freeapp\ta%d' % n)
        wants.append((text, want))
    r = d.run('capi', [], '\n'.join(prog) + '\n', 8000)
    whole = lambda: '--- grammar\n%s' % gt + ''.join('--- input %d\n%s' % (k, t) for k, (t, w) in enumerate(wants)) + '--- calls\n' + '\n'.join(prog) + '\n'
    if r.rc != 0:
        raise Violation("the library calls ended with status %d" % r.rc, "status", whole() + '--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
    for n, (t, w) in enumerate(wants):
        o = d.read('out%d.txt' % n)
        if o != w:
            raise Violation("text %d: the library's output differs from that of the command line" % n, "text", whole() + '--- vislcg3\n%s--- library\n%s' % (w.decode('utf8', 'replace'), o.decode('utf8', 'replace')))
    return Info(any(t.encode() != w for t, w in wants), whole(), ['%d texts' % len(wants)], {"grammar": gt, "calls": prog})


def tags(src, env):
    """Tags come back as they were put in."""
    d = env.d
    p = d.write('g.cg3', 'DELIMITERS = "<.>" ;\nREMOVE (nvr) ;\n')
    prog = ['grammar\tg\t%s' % p, 'app\ta\tg']
    want = []
    for _ in src.many(1, 12, 85):
        cp = [src.w([(5, src.r(0x21, 0x7e)), (2, src.r(0xa1, 0x7ff)), (2, src.r(0x800, 0xd7ff)), (1, src.r(0xe000, 0xfffd)), (2, src.r(0x10000, 0x10ffff)), (1, 0x20)]) for _ in src.many(1, 40 if src.p(10) else 8, 80)]
        t = ''.join(map(chr, cp))
        if src.p(30):
            t = src.c(['"%s"', '"<%s>"', '@%s', '<%s>', '%s:1']) % t
        prog.append('text\ta\t%s\t%s' % (src.c(ENC), t))
        want.append(t)
    r = d.run('capi', [], '\n'.join(prog) + '\n', 4000)
    if r.rc != 0:
        raise Violation("the library calls ended with status %d" % r.rc, "status", '\n'.join(prog) + '\n--- stderr\n' + r.err.decode('utf8', 'replace')[-2500:])
    got = [x.split('\t', 1)[1] for x in r.out.decode('utf8', 'replace').split('\n')[:-1]]
    if got != want:
        i = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
        raise Violation("tag %r came back as %r" % (want[i], got[i:i + 1]), "tag", '\n'.join(prog))
    return Info(True, '\n'.join(prog), [], {"calls": prog})


SUBS = [
    Sub("sentences", sentences, 7000, 100000, "a rule changed an analysis"),
    Sub("memory", sentences, 1000, 20000, "a rule changed an analysis (under AddressSanitizer and UBSan)", variant="asan"),
    Sub("texts", texts, 1500, 20000, "a rule changed the text"),
    Sub("tags", tags, 1000, 10000, "every case"),
]
